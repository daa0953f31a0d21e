"""C24: received messages are fixed up for their network path."""
from .common import *
from .lists import *
from .recv import *

REPLAY = [('dialog', 'TestVerifC24')]
TRUSTED = ['(*net.UDPConn).ReadFromUDP stores one datagram and yields its source, or fails', '(net.IP).String is a function of the address',
           'net.UDPAddr ports lie in 0..65535']
ASSUME = ['lists are finite and acyclic', 'sip.ParseMsg yields a message exactly when it reports no error (C01), its addresses have a URI',
          'an empty rport is filled in when the port of the Via differs from the source port (otherwise it is right as it is)',
          'the message does not share nodes between its lists']


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Param).Get', '(*sip.URIParam).Get', '(*sip.Addr).Last'])
    modular(c, 'reception', everything, c, L)


def p5060(x):
    x = to_bv(x, 16)
    return z3.If(x == 0, z3.BitVecVal(5060, 16), x)


ADD, FIX = 'dialog.addReceived', 'dialog.fixMessagesFromStrictRouters'


def everything(c, L, which):
    seen = {}
    fn = FN
    MSG = Ptr('msg^', (), False)
    get, uget = L.C['(*sip.Param).Get'], L.C['(*sip.URIParam).Get']
    C, E = Opaque('c'), Opaque('e')
    udp = [f['name'] for f in c.prog.u(c.prog.type_by_name('net.UDPAddr'))['fields']]

    def final(e, m, o, back):
        rok, pok = z3.Bool('rerr==nil'), z3.Bool('perr==nil')
        tr = o.trace
        reads = [t for t in tr if t[0] == 'read']
        sends = [t for t in tr if t[0] == 'send' and t[1] == C]
        if not back:
            c.ensures(e, o, z3.Not(rok), 'the receiver ends only upon a read error', fn)
            tail = [(t[0], t[1]) for t in tr if t[0] in ('send', 'close')]
            c.ensures(e, o, sorted(map(str, tail)) == sorted(map(str, [('send', E), ('close', C), ('close', E)])) and
                      tail.index(('send', E)) < tail.index(('close', E)), 'at the end the error is reported and the channels are closed', fn)
            seen['end'] = 1
            return
        c.ensures(e, o, len(reads) == 1, 'an iteration receives one datagram', fn)
        c.ensures(e, o, rok, 'the loop goes on only after a successful read', fn)
        c.ensures(e, o, [t for t in tr if t[0] in ('send', 'close', 'recv') and t[1] != C] == [] and len(sends) <= 1, 'an iteration only delivers one message at most', fn)
        for s, r in ev(e, initial(e, o), lambda s: B(e, s, pok) and not isnil(e, s, m.get(s, MSG, 'sip.Msg', 'Via'))):
            c.ensures(e, s, r == (len(sends) == 1), 'delivered exactly when it is a message with a Via', fn)
            if not r or len(sends) != 1:
                seen['drop'] = 1
                continue
            p = sends[0][2]
            c.ensures(e, s, isinstance(p, Ptr) and p.obj == 'msg^', 'the parsed message is delivered', fn)
            c.ensures(e, s, all(V.same(o.heap.get(k), v) for k, v in o.ghost['sent'].h.items()), 'the message is not changed after its delivery', fn)
            pre = {k: i for i, k in enumerate(t[0] for t in tr)}
            for k in (ADD, FIX):
                if k in which:
                    n = 'received' if k == ADD else 'strict'
                    cs = [t for t in tr if t[0] == n]
                    c.ensures(e, s, len(cs) == 1 and tr.index(cs[0]) < tr.index(sends[0]) and cs[0][1].obj == 'msg^', '%s is applied once, before delivery' % k, fn)
            if ADD in which:
                t = [t for t in tr if t[0] == 'received'][0]
                c.ensures(e, s, t[2].obj == 'from', 'the source is that of the datagram', fn)
                c.ensures(e, s, 'msg.Via^' not in t[3].h or V.same(t[3].h['msg.Via^'], e.sym(e.objtypes['msg.Via^'], 'msg.Via')), 'the Via is as received before the fix-up', fn)
                timestamp(e, m, o, s)
            else:
                vialist(e, m, o, s)
            for s2, (R, strict) in ev(e, s, lambda s: routes(e, s, m)):
                if FIX in which:
                    t = [t for t in tr if t[0] == 'strict'][0]
                    lh, lp = local(e, s2)
                    c.ensures(e, s2, e.equal(s2, t[2], lh, None), 'the local host is given', fn)
                    c.ensures(e, s2, to_bv(t[3], 16) == lp, 'the local port is given', fn)
                    x = dict(zip(m.fields('sip.Msg'), t[4].h['msg^'].f))
                    old = m.obj(s2, MSG, 'sip.Msg')
                    c.ensures(e, s2, sameptr(e, s2, x['Route'], R), 'the routes stay, except a leading one naming this endpoint', fn)
                    for n in x:
                        if n != 'Route':
                            c.ensures(e, s2, V.same(x[n], old[n]), 'the fix-ups apply to what was received (%s)' % n, fn)
                    end = dict(zip(m.fields('sip.Msg'), o.heap['msg^'].f))
                    for n in end:
                        c.ensures(e, s2, V.same(end[n], old[n]) or n in ('Route', 'Request') and isinstance(end[n], Ptr) and end[n].obj.startswith('fixed'), 'field %s of the message stays' % n, fn)
                else:
                    target(e, m, o, s2, R, strict)

    def timestamp(e, m, o, s):
        p = e.res(o, dict(zip(m.fields('sip.Via'), o.heap['msg.Via^'].f))['Param'])
        tag = e.objval(s, 'flag:timestampTagging^')
        for s2, b in ev(e, s, lambda s: B(e, s, tag)):
            if b:
                seen['usi'] = 1
                x = m.obj(now(o, s2), p, 'sip.Param')
                c.ensures(e, s2, isnew(p.obj) and e.equal(s2, x['Name'], rlit(b'usi'), None) is True, 'the time is added only as usi', fn)
                p = e.res(s2, x['Next'])
            c.ensures(e, s2, p.obj.startswith('params#'), 'the parameters of the Via are otherwise the fixed-up ones', fn)

    def addreceived():
        e, m = engine(c, L, ADD, walk)
        st = c.state(e)
        ports(c, e, st)
        st.heap['flag:timestampTagging^'] = False
        e.base = dict(e.base, **{'flag:timestampTagging^': False})
        v = e.objval(st, 'msg^')
        e.assume(st, bnot(v.f[m.fields('sip.Msg').index('Via')].null))
        for o in c.call(e, ADD, [MSG, Ptr('from', (), False)], st):
            s = initial(e, o)
            vialist(e, m, o, s, ADD)
            frame(c, e, o, ADD, [k for k in o.heap if e.objtypes.get(k) in (c.prog.type_by_name('@sip.Param'), c.prog.type_by_name('@sip.Via'))])

    def fix():
        e, m = engine(c, L, FIX, walk)
        st = c.state(e)
        ports(c, e, st)
        lh, lp = local(e, st)
        for o in c.call(e, FIX, [lh, lp, MSG], st):
            for s, (R, strict) in ev(e, initial(e, o), lambda s: routes(e, s, m, False)):
                target(e, m, o, s, R, strict, FIX)
    walk = ListWalk(c, L.nx)

    def now(o, s):
        """The state after the iteration, with what s knows."""
        t = s.clone()
        t.heap = dict(s.heap)
        t.heap.update(o.heap)
        return t

    def vialist(e, m, o, s, fn=FN):
        fr = dict(zip(udp, e.objval(s, 'from').f))
        src = ratom('ipstr:%s' % e.res(s, fr['IP']).obj)
        tag = e.objval(s, 'flag:timestampTagging^')

        def want(s):
            M = m.obj(s, MSG, 'sip.Msg')
            v = m.obj(s, M['Via'], 'sip.Via')
            add, fill = {}, None
            if not B(e, s, lcmp('>', M['Status'], 0)):
                if not B(e, s, e.equal(s, e.conv_int(v['Port'], 'uint16', 'int'), fr['Port'], None)):
                    g = get(e, s, [v['Param'], rlit(b'rport')], None)
                    if isnil(e, s, g):
                        add['rport'] = models.M['strconv.Itoa'](e, s, [fr['Port']], None)
                    elif B(e, s, e.equal(s, m.get(s, g, 'sip.Param', 'Value'), EMPTY, None)):
                        fill = g
                if not B(e, s, e.equal(s, v['Host'], src, None)):
                    if isnil(e, s, get(e, s, [v['Param'], rlit(b'received')], None)):
                        add['received'] = src
            if B(e, s, tag):
                add['usi'] = None
            return v, add, fill
        for s2, (v, add, fill) in ev(e, s, want):
            t = now(o, s2)
            seen.update({k: 1 for k in add})
            p0 = e.res(t, m.get(s2, MSG, 'sip.Msg', 'Via'))
            V1 = m.obj(t, p0, 'sip.Via')
            p = e.res(t, V1['Param'])
            got = {}
            for _ in range(5):
                if not (isinstance(p, Ptr) and p.null is False and isnew(p.obj)):
                    break
                x = m.obj(t, p, 'sip.Param')
                n = e.res(t, x['Name'])
                n = n[0][1].decode('latin1').lower() if len(n) == 1 and n[0][0] == 'L' else None
                c.ensures(e, t, n in add and n not in got, 'a parameter is added only when it is missing and applies (%s)' % n, fn)
                got[n] = x['Value']
                p = e.res(t, x['Next'])
            c.ensures(e, t, set(got) == set(add), 'received and rport are added exactly when they apply and are missing: want %s, got %s' % (sorted(add), sorted(map(str, got))), fn)
            for n in got:
                if add.get(n) is not None:
                    c.ensures(e, t, e.equal(t, got[n], add[n], None), '%s is the source' % n, fn)
            c.ensures(e, t, V.same(p, v['Param']) or same_val(e, t, p, v['Param']), 'the parameters present stay', fn)
            for n in V1:
                if n != 'Param':
                    c.ensures(e, t, V.same(V1[n], v[n]) or same_val(e, t, V1[n], v[n]), 'field %s of the Via stays' % n, fn)
            for k, x in o.heap.items():
                if e.objtypes.get(k) == c.prog.type_by_name('@sip.Param') and not isnew(k) and not V.same(x, e.sym(e.objtypes[k], k[:-1] if k.endswith('^') else k)):
                    c.ensures(e, t, fill is not None and fill.obj == k, 'a parameter is changed only to fill in an empty rport', fn)
                    x0 = e.sym(e.objtypes[k], k[:-1] if k.endswith('^') else k)
                    for n, a, b in zip(m.fields('sip.Param'), x.f, x0.f):
                        if n == 'Value':
                            c.ensures(e, t, e.equal(t, a, models.M['strconv.Itoa'](e, t, [fr['Port']], None), None), 'an empty rport becomes the source port', fn)
                        else:
                            c.ensures(e, t, V.same(a, b), 'the filled rport keeps %s' % n, fn)
                    fill = None
                    seen['fill'] = 1
            c.ensures(e, t, fill is None, 'an empty rport is filled in', fn)

    def local(e, s):
        la = dict(zip(udp, e.objval(s, 'laddr').f))
        return ratom('ipstr:%s' % e.res(s, la['IP']).obj), to_bv(e.conv_int(la['Port'], 'int', 'uint16'), 16)

    def routes(e, s, m, remove=True):
        """Routes and whether a strict router addressed us, from the message as it was parsed."""
        lh, lp = local(e, s)
        M = m.obj(s, MSG, 'sip.Msg')

        def own(u):
            return B(e, s, e.equal(s, m.get(s, u, 'sip.URI', 'Host'), lh, None)) and B(e, s, p5060(m.get(s, u, 'sip.URI', 'Port')) == lp)
        R = M['Route']
        if remove and not isnil(e, s, R) and own(m.get(s, R, 'sip.Addr', 'Uri')):
            seen['own'] = 1
            R = m.get(s, R, 'sip.Addr', 'Next')
        strict = False
        if not isnil(e, s, R) and not isnil(e, s, M['Request']) and own(M['Request']):
            strict = not isnil(e, s, uget(e, s, [m.get(s, M['Request'], 'sip.URI', 'Param'), rlit(b'lr')], None))
        return R, strict

    def target(e, m, o, s, R, strict, fn=FN):
        t = now(o, s)
        old = m.obj(s, MSG, 'sip.Msg')
        M = m.obj(t, MSG, 'sip.Msg')
        for n in M:
            if n not in ('Route', 'Request'):
                c.ensures(e, t, V.same(M[n], old[n]) or same_val(e, t, M[n], old[n]), 'field %s of the message stays' % n, fn)
        ta = c.prog.type_by_name('@sip.Addr')
        nx = m.fields('sip.Addr').index('Next')
        changed = []
        for k, x in o.heap.items():
            if k == 'msg^' or isnew(k) or k == 'b' or (isinstance(o.ghost.get('buf'), SliceV) and k == o.ghost['buf'].obj):
                continue
            ty = e.objtypes.get(k)
            if isinstance(ty, tuple) or ty is None or ty in (c.prog.type_by_name('@sip.Param'), c.prog.type_by_name('@sip.Via')) or k in e.base or k.startswith('last:'):
                continue
            if not V.same(x, e.sym(ty, k[:-1] if k.endswith('^') else k)):
                changed.append(k)
        if not strict:
            c.ensures(e, t, not changed, 'no route or target changes (%s)' % changed[:3], fn)
            c.ensures(e, t, sameptr(e, t, M['Request'], old['Request']), 'the target stays', fn)
            c.ensures(e, t, sameptr(e, t, M['Route'], R), 'the routes stay, except a leading one naming this endpoint', fn)
            return
        # the last route becomes the target
        def chain(s):
            """(previous, last) of the list, as it was."""
            p, q = None, e.res(s, R)
            while True:
                if any(g[0].obj == q.obj for g in walks(o).values()):
                    g = next(g for g in walks(o).values() if g[0].obj == q.obj)
                    p, q = None, nn(g[2])
                x = m.get(s, q, 'sip.Addr', 'Next')
                if isnil(e, s, x):
                    return p, nn(q)
                p, q = nn(q), nn(x)
        for s2, (prev, last) in ev(e, s, chain):
            t = now(o, s2)
            c.ensures(e, t, isinstance(e.res(t, M['Request']), Ptr) and e.res(t, M['Request']).obj == m.get(s2, last, 'sip.Addr', 'Uri').obj, 'the last route is the target', fn)
            if prev is None:
                seen['strict1'] = 1
                c.ensures(e, t, e.res(t, M['Route']).null is True and last.obj == R.obj, 'no route is left of one', fn)
                c.ensures(e, t, set(changed) <= {last.obj}, 'nothing else changes', fn)
                continue
            seen['strictn'] = 1
            c.ensures(e, t, sameptr(e, t, M['Route'], R), 'the first routes stay', fn)
            c.ensures(e, t, set(changed) <= {prev.obj, last.obj} and prev.obj in changed, 'the other routes stay in order (%s)' % changed[:3], fn)
            a, b = t.heap[prev.obj].f, e.sym(ta, prev.obj[:-1]).f
            for i, (x, y) in enumerate(zip(a, b)):
                c.ensures(e, t, isinstance(x, Ptr) and x.null is True if i == nx else V.same(x, y), 'the list ends before the last route', fn)

    def walks(o):
        return {k: v for k, v in o.ghost.items() if isinstance(k, str) and k.startswith('walk:') and v is not None}

    def sameptr(e, t, a, b):
        a, b = e.res(t, a), e.res(t, b)
        if a.null is True or b.null is True:
            x = b if a.null is True else a
            return x.null is True or x.null is not False and x.null
        return a.obj == b.obj
    e, cut, lwalk = iterate(c, L, fn, final, which)
    if ADD in which:
        c.section('contract of ' + ADD, addreceived)
    if FIX in which:
        retry(c, walk, lambda: c.section('contract of ' + FIX, fix))
    need = {'end', 'drop', 'rport', 'received', 'usi', 'fill', 'own', 'strict1', 'strictn'}
    c.obligation(need <= set(seen) and cut.entries > 0 and walk.backs + lwalk.backs > 0, 'vacuity guard: every kind of fix-up is reached', str(seen))
