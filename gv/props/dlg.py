"""The dialog state machine: engine, contracts at its boundary, and the effects of its functions.

Boundary (what is observed): messages written to the socket (each with the value it had when it was serialised), values sent to the
application on errChan, stateChan and peerChan, timers set, and the fields of dialogState."""
from .common import *
from .lists import *
from .c19 import uris

T = '(*dialog.dialogState).'
DLS = Ptr('dls^', (), False)
ERR, STATE, PEER = Opaque('dls.errChan'), Opaque('dls.stateChan'), Opaque('dls.peerChan')
SIG = {'sendRequest': ['*@dialog.dialogState', '*@sip.Msg'], 'popRoute': ['*@dialog.dialogState'], 'connect': ['*@dialog.dialogState'],
       'handleMessage': ['*@dialog.dialogState', '*@sip.Msg'], 'resendRequest': ['*@dialog.dialogState'],
       'resendResponse': ['*@dialog.dialogState'], 'sendHangup': ['*@dialog.dialogState'], 'cleanup': ['*@dialog.dialogState'],
       'cleanupSock': ['*@dialog.dialogState'], 'populate': ['*@dialog.dialogState', '*@sip.Msg']}
TRUST = ['(*net.UDPConn).Write transmits exactly the bytes given or fails', '(*sip.Msg).Append serialises the message it is given (C04)',
         'channels deliver what is sent', 'net.Dial, net.ParseIP, time.After: results are arbitrary']
ASSUM = ['addresses of received messages have a URI, received messages have a Via (C24)', 'lists are finite and acyclic',
         'the configured retry limit is arbitrary', 'int counters do not overflow']


class Snap:
    def __init__(self, st):
        self.heap = dict(st.heap)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Dlg:
    def __init__(self, c, L, fn, stubs=(), alias=False):
        self.c, self.L, self.fn = c, L, fn
        con = dict(L.C)
        for n in stubs:
            if '.' in n:
                con[n] = getattr(self, 's_' + n.split('.')[-1])
            elif self.has(n):
                con[T + n] = getattr(self, 's_' + n)
        con['sip.Phrase'] = lambda e, st, a, ins: ratom('phrase:%r' % (a[0],))
        con['(*sip.Msg).String'] = con['(*sip.URI).String'] = lambda e, st, a, ins: ratom('text')
        con['(*sip.Msg).Append'] = self.append
        con['dialog.trace'] = lambda e, st, a, ins: None
        con['dialog.drain'] = lambda e, st, a, ins: st.trace.append(('drain', a[0], a[1]))
        U = '(*net.UDPConn).'
        self.e = e = c.engine(fn, con, {
            U + 'Write': self.write, U + 'RemoteAddr': self.addr('remote', 'UDPAddr'), U + 'LocalAddr': self.addr('local', 'UDPAddr'),
            U + 'Close': self.close, '(*net.conn).Write': self.write, '(*net.conn).RemoteAddr': self.addr('remote', 'UDPAddr'),
            '(*net.conn).LocalAddr': self.addr('local', 'UDPAddr'), '(*net.conn).Close': self.close,
            '(*net.UDPAddr).String': lambda e, st, a, ins: ratom('addr:%s' % e.res(st, a[0]).obj),
            'net.Dial': self.dial, 'rtp.Listen': self.listen, 'net.ParseIP': lambda e, st, a, ins: Opaque('parseip:%r' % (e.res(st, a[0]),)),
            '(net.IP).String': lambda e, st, a, ins: ratom('ipstr:%s' % e.res(st, a[0]).obj),
            'time.After': self.after, 'time.Now': self.unknown, '(time.Time).UnixNano': self.unknown, '(time.Time).UnixMicro': self.unknown,
            'fmt.Errorf': lambda e, st, a, ins: SymIface('fmterr', False)})
        if 'rtp.Listen' in self.e.models:
            e.contracts['rtp.Listen'] = self.listen
        self.m = Msgs(c, e)
        uris(e, None, self.m)
        p = c.prog
        for o, t in (('dls^', 'dialog.dialogState'), ('invite^', 'sip.Msg'), ('request^', 'sip.Msg'), ('remote^', 'sip.Msg'),
                     ('response^', 'sip.Msg'), ('msg^', 'sip.Msg')):
            e.objtypes[o] = p.type_by_name('@' + t)
        self.fields = self.m.fields('dialog.dialogState')
        self.MSG = Ptr('msg^', (), False)
        self.INV = Ptr('invite^', (), False)
        self.REQ = self.INV if alias else Ptr('request^', (), False)
        e.base = dict(e.base)
        v = e.sym(e.objtypes['dls^'], 'dls')
        v = self.put(v, invite=self.INV, request=self.REQ, remote=Ptr('remote^', (), z3.Bool('remote==nil')),
                     response=Ptr('response^', (), z3.Bool('response==nil')), sock=nn(v.f[self.fields.index('sock')]))
        e.base['dls^'] = v

    def has(self, n):
        f = self.c.prog.fn(T + n)
        return f is not None and [self.c.prog.types[p['t']]['s'] for p in f.params] == [x.replace('@', MOD) for x in SIG[n]]

    def put(self, v, **kw):
        for k, x in kw.items():
            v = v.set(self.fields.index(k), x)
        return v

    def pre(self, o, t, **kw):
        """Preconditions on fields of an object that exists before the call."""
        e = self.e
        v = e.base.get(o) or e.sym(e.objtypes[o], o[:-1])
        for k, x in kw.items():
            i = self.m.fields(t).index(k)
            v = v.set(i, x(v.f[i]) if callable(x) else x)
        e.base[o] = v

    def state(self):
        st = self.c.state(self.e)
        s = self.d(st, 'state')
        self.e.assume(st, lcmp('>=', s, 0))
        self.e.assume(st, lcmp('<=', s, 2))
        self.e.assume(st, bnot(z3.Bool('same:invite^:request^')))   # the other case: alias
        return st

    def d(self, st, f):
        """Field of the dialog."""
        return self.e.res(st, self.e.objval(st, 'dls^').f[self.fields.index(f)])

    # -- boundary
    def append(self, e, st, a, ins):
        p = e.res(st, a[0])
        e.nonnil(st, p, 'a message is sent')
        st.n += 1
        n = 'wire#%d' % st.n
        st.trace.append(('append', n, nn(p), Snap(st)))
        models.M['(*bytes.Buffer).WriteString'](e, st, [a[1], ratom(n)], None)

    def write(self, e, st, a, ins):
        s = e.res(st, a[0])
        e.nonnil(st, s, 'the socket is open')
        r = e.slice_rope(st, a[1])
        st.n += 1
        ok = z3.Bool('written#%d' % st.n)
        st.trace.append(('tx', nn(s), r, ok))
        return TupleV([atom('n#%d' % st.n, 0, V.MAXLEN), SymIface('werr#%d' % st.n, ok)])

    def close(self, e, st, a, ins):
        s = e.res(st, a[0])
        e.nonnil(st, s, 'the socket is open')
        st.trace.append(('sockclose', nn(s)))
        return SymIface('cerr', z3.Bool('cerr==nil'))

    def addr(self, kind, t):
        def h(e, st, a, ins):
            s = e.res(st, a[0])
            e.nonnil(st, s, 'the socket is open')
            o = '%s:%s' % (kind, s.obj)
            e.objtypes[o] = e.p.type_by_name('net.UDPAddr')
            return Iface(e.p.tid['*net.UDPAddr'], Ptr(o, (), False))
        return h

    def newsock(self, e, st, kind):
        st.n += 1
        o = '%s#%d' % (kind, st.n)
        ok = z3.Bool('%s:ok' % o)
        return o, ok, TupleV([Iface(e.p.tid['*net.UDPConn'], Ptr(o, (), False)), SymIface('err:' + o, ok)])

    def dial(self, e, st, a, ins):
        o, ok, r = self.newsock(e, st, 'dialed')
        st.trace.append(('dial', e.res(st, a[1]), o, ok))
        return r

    def listen(self, e, st, a, ins):
        o, ok, r = self.newsock(e, st, 'listening')
        st.trace.append(('listen', o, ok))
        return r

    def after(self, e, st, a, ins):
        st.n += 1
        t = Opaque('timer#%d' % st.n)
        st.trace.append(('timer', t, a[0]))
        return t

    def unknown(self, e, st, a, ins):
        st.n += 1
        return e.untuple(e.sym(ins['rt'], 'unknown#%d' % st.n))

    # -- contracts of functions of the package, as used by their callers
    def havoc(self, e, st, keep=()):
        st.n += 1
        v = e.sym(e.objtypes['dls^'], 'dls#%d' % st.n)
        old = e.objval(st, 'dls^')
        for k in ('errChan', 'stateChan', 'peerChan', 'invite') + tuple(keep):
            v = v.set(self.fields.index(k), old.f[self.fields.index(k)])
        st.heap['dls^'] = v

    def called(self, name):
        def h(e, st, a, ins):
            st.n += 1
            r = z3.Bool('%s#%d' % (name, st.n))
            st.trace.append(('call', name, tuple(e.res(st, x) for x in a[1:]), Snap(st), r))
            self.havoc(e, st)
            return r
        return h

    def __getattr__(self, k):
        if k.startswith('s_'):
            return self.called(k[2:])
        raise AttributeError(k)

    def s_cleanup(self, e, st, a, ins):
        st.trace.append(('call', 'cleanup', (), Snap(st), None))

    def s_connect(self, e, st, a, ins):
        st.n += 1
        r = z3.Bool('connect#%d' % st.n)
        st.trace.append(('call', 'connect', (), Snap(st), r))
        new = e.sym(e.objtypes['dls^'], 'conn#%d' % st.n)
        v = e.objval(st, 'dls^')
        for k in ('sock', 'sockMsgs', 'sockErrs', 'csock', 'csockMsgs', 'csockErrs'):
            i = self.fields.index(k)
            v = v.set(i, new.f[i])
        st.heap['dls^'] = v
        e.assume(st, z3.Implies(r, bnot(v.f[self.fields.index('sock')].null)))
        return r

    def s_populate(self, e, st, a, ins):
        p = e.res(st, a[1])
        e.nonnil(st, p, 'a request is populated')
        e.nonnil(st, self.d(st, 'sock'), 'the socket is open')
        st.n += 1
        v = e.load(st, nn(p))
        new = e.sym(e.objtypes[p.obj], 'populated#%d' % st.n)
        for k in ('Via', 'Contact', 'MaxForwards', 'CSeq', 'CSeqMethod', 'CallID', 'From', 'To', 'VersionMajor', 'VersionMinor', 'Request', 'Payload', 'UserAgent'):
            i = self.m.fields('sip.Msg').index(k)
            x = new.f[i]
            v = v.set(i, nn(x) if k in ('Via', 'Contact') else x)
        e.store(st, nn(p), v)
        st.trace.append(('call', 'populate', (p,), Snap(st), None))

    def s_ResponseMatch(self, e, st, a, ins):
        m = self.m
        q, r = e.res(st, a[0]), e.res(st, a[1])
        e.prove(st, X.band2(bnot(q.null), bnot(r.null)), 'ResponseMatch gets messages', 'pre')
        e.prove(st, bnot(m.get(st, r, 'sip.Msg', 'Via').null), 'the response has a Via', 'pre')
        b = z3.Bool('match')
        st.trace.append(('match', q, r))
        Q, R = m.obj(st, q, 'sip.Msg'), m.obj(st, r, 'sip.Msg')
        for x in (e.equal(st, Q['CSeq'], R['CSeq'], None), e.equal(st, Q['Method'], R['CSeqMethod'], None), lcmp('>', R['Status'], 0)):
            e.assume(st, z3.Implies(b, zbool(x)))
        return b

    def s_RouteMessage(self, e, st, a, ins):
        st.n += 1
        p = e.res(st, a[2])
        ok = z3.Bool('routed#%d' % st.n)
        st.trace.append(('routemsg', e.res(st, a[0]), e.res(st, a[1]), p, st.n, ok, Snap(st)))
        v = e.load(st, nn(p))
        for f, t in (('Route', 'Addr'), ('Request', 'URI')):   # a strict router changes them
            o = 'routed%s#%d' % (f, st.n)
            e.objtypes[o] = e.p.type_by_name('@sip.' + t)
            v = v.set(self.m.fields('sip.Msg').index(f), Ptr(o, (), False if f == 'Request' else z3.Bool(o + '==nil')))
        e.store(st, nn(p), v)
        return TupleV([ratom('host#%d' % st.n), z3.BitVec('port#%d' % st.n, 16), SymIface('rmerr#%d' % st.n, ok)])

    def s_RouteAddress(self, e, st, a, ins):
        st.n += 1
        ok = z3.Bool('resolved#%d' % st.n)
        o = 'addrs#%d' % st.n
        e.objtypes[o] = e.p.type_by_name('@dialog.AddressRoute')
        st.trace.append(('routeaddr', a[0], a[1], a[2], st.n, ok))
        return TupleV([Ptr(o, (), z3.Bool(o + '==nil')), SymIface('raerr#%d' % st.n, ok)])

    def s_PopulateMessage(self, e, st, a, ins):
        p = e.res(st, a[2])
        st.trace.append(('populate', e.res(st, a[0]), e.res(st, a[1]), p, Snap(st)))

    # -- effects
    def effects(self, o):
        """Observable effects in order: ('send', message pointer, snapshot, written), ('err', v), ('state', v), ('peer', v, snapshot), ('call', ...)."""
        out, wires = [], {}
        for t in o.trace:
            if t[0] == 'append':
                wires[t[1]] = t
            elif t[0] == 'tx':
                r = t[2]
                w = wires.get(r[0][1]) if len(r) == 1 and r[0][0] == 'A' else None
                self.c.ensures(self.e, o, w is not None and self.e.rope_eq(o, r, ratom(w[1])), 'what is sent is one whole message', self.fn)
                if w is not None:
                    out.append(('send', w[2], w[3], t[3], t[1]))
            elif t[0] == 'send':
                k = {ERR: 'err', STATE: 'state', PEER: 'peer'}.get(t[1])
                self.c.ensures(self.e, o, k is not None, 'nothing is sent on other channels', self.fn)
                out.append((k, t[2]))
            elif t[0] in ('call', 'close', 'sockclose', 'timer'):
                out.append(t)
        return out

    def at(self, snap, p, f, st=None):
        """Field of a message as it was in a snapshot."""
        v = snap.heap.get(p.obj)
        if v is None:
            v = self.e.objval(st, p.obj)
        return v.f[self.m.fields('sip.Msg').index(f)]

    def text(self, st, x, t):
        return self.e.equal(st, x, rlit(t.encode()), None)

    def same(self, st, a, b):
        e = self.e
        a, b = e.res(st, a), e.res(st, b)
        if V.same(a, b):
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.null is True or b.null is True:
                x = b if a.null is True else a
                return x.null
            return a.obj == b.obj and a.path == b.path
        return same_val(e, st, a, b)

    def keep(self, o, s, but, what):
        """Fields of the dialog stay, except some."""
        for f in self.fields:
            if f in but or f == 'b':
                continue
            self.c.ensures(self.e, s, self.same(s, self.d(o, f), self.e.base['dls^'].f[self.fields.index(f)]), '%s: %s of the dialog stays' % (what, f), self.fn)

    def peer(self, s, msg='msg'):
        """The media address a message offers: None or (host, port)."""
        e, m = self.e, self.m
        if not B(e, s, z3.Bool('is:%s.Payload:*sdp.SDP' % msg)):
            return None
        o = '%s.Payload:*sdp.SDP^' % msg
        e.objtypes[o] = e.p.type_by_name('@sdp.SDP')
        S = m.obj(s, Ptr(o, (), False), 'sdp.SDP')
        if isnil(e, s, S['Audio']):
            return None
        return S['Addr'], m.get(s, S['Audio'], 'sdp.Media', 'Port')

    def checkpeer(self, o, s, got, want):
        c, e, m = self.c, self.e, self.m
        c.ensures(e, s, (len(got) == 1) == (want is not None) and len(got) <= 1, 'an offered media address is reported once, and only then', self.fn)
        if want is None or len(got) != 1:
            return
        u = [f['name'] for f in e.p.u(e.p.type_by_name('net.UDPAddr'))['fields']]
        v = e.load(o, nn(e.res(o, got[0][1])))
        c.ensures(e, s, v.f[u.index('IP')] == Opaque('parseip:%r' % (want[0],)), 'the address of the media offered', self.fn)
        c.ensures(e, s, lcmp('==', e.conv_int(want[1], 'uint16', 'int'), v.f[u.index('Port')]), 'the port of the media offered', self.fn)



def answered(D, st):
    """An answered call has a remote side with a contact."""
    e, m = D.e, D.m
    r = Ptr('remote^', (), False)
    ct = m.get(st, r, 'sip.Msg', 'Contact')
    e.assume(st, z3.Implies(zbool(lcmp('==', D.d(st, 'state'), 2)), z3.And(z3.Not(z3.Bool('remote==nil')), bnot(ct.null))))
