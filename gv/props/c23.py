"""C23: retransmission is bounded and fails over."""
from .common import *
from .lists import *
from .dlg import *

REPLAY = [('dialog', 'TestVerifC23')]
TRUSTED = TRUST + ['RouteMessage, RouteAddress: discharged under C19; PopulateMessage: under C20 (it keeps a branch that is there)',
                   'select takes an arbitrary ready case', 'ReceiveMessages delivers messages, not nil, until it reports an error (C24)']
ASSUME = ASSUM + ['the invariant of the dialog state between events (the socket is open, the request is set, an answered call has a remote side with contact) '
                  'is proved of each handler and assumed at the start of the next one']


def verify(c):
    L = Lists(c.prog)
    c.section('send', send, c, L)
    c.section('resendRequest', resend, c, L, 'resendRequest', 'request', 'requestResends', 'requestTimer')
    c.section('resendResponse', resend, c, L, 'resendResponse', 'response', 'responseResends', 'responseTimer')
    c.section('sendHangup', hangup, c, L)
    c.section('sendRequest', sendrequest, c, L)
    for alias in (True, False):
        c.section('popRoute for %s' % ('the INVITE' if alias else 'another request'), poproute, c, L, alias)
    c.section('connect', connect, c, L)
    c.section('populate', populate, c, L)
    c.section('run', run, c, L)


def transmit(D, s, fx, p, mf):
    """Effects of one transmission of a message with that hop count -> (sent?, result)."""
    e = D.e
    if B(e, s, lcmp('==', mf, 1)):
        return False, False
    tx = [t for t in fx if t[0] == 'send']
    return True, bool(tx) and B(e, s, tx[-1][3])


def checktx(c, D, o, s, fx, p, mf, sent, ret, fn, tx=None):
    P = lambda k, w: c.ensures(D.e, s, k, w, fn)
    tx = [t for t in fx if t[0] == 'send']
    er = [t for t in fx if t[0] == 'err']
    P(len(tx) == (1 if sent else 0), 'a message is sent once, unless its hop count would reach zero')
    P(len(er) == (0 if ret else 1), 'a message that cannot be sent is reported once')
    for t in tx:
        P(t[1].obj == p.obj, 'the right message is sent')
        n = D.at(t[2], t[1], 'MaxForwards', o)
        P(zbool(lcmp('==', n, lsub(mf, 1))) if B(D.e, s, lcmp('>', mf, 0)) else zbool(lcmp('==', n, mf)), 'each transmission lowers the hop count by one')


def send(c, L):
    fn = T + 'send'
    D = Dlg(c, L, fn)
    e, m = D.e, D.m
    D.pre('msg^', 'sip.Msg', Via=nn)
    st = D.state()
    mf = m.get(st, D.MSG, 'sip.Msg', 'MaxForwards')
    n = set()
    for o in c.call(e, fn, [DLS, D.MSG], st):
        fx = D.effects(o)
        for s, (sent, ret) in ev(e, initial(e, o), lambda s: transmit(D, s, fx, D.MSG, mf)):
            for s2, pos in ev(e, s, lambda s: B(e, s, lcmp('>', mf, 0))):
                n.add((sent, ret, pos))
                checktx(c, D, o, s2, fx, D.MSG, mf, sent, ret, fn)
                c.ensures(e, s2, e.equal(s2, o.result, ret, None) if not isinstance(o.result, bool) else o.result == ret, 'success is reported as such', fn)
                c.ensures(e, s2, not [t for t in fx if t[0] not in ('send', 'err')], 'nothing else happens', fn)
        D.keep(o, o, (), 'after sending')
        frame(c, e, o, fn, ['dls^', 'msg^', 'msg.Via^'])
    c.obligation(len(n) >= 5, 'vacuity guard: all kinds of transmission', str(n))


def resend(c, L, name, what, count, timer):
    fn = T + name
    D = Dlg(c, L, fn, ['popRoute'])
    e, m = D.e, D.m
    for x in ('request^', 'response^'):
        D.pre(x, 'sip.Msg', Via=nn)
    st = D.state()
    mx = e.objval(st, 'flag:maxResends^')
    cnt = D.d(st, count)
    p = D.d(st, what)
    mf = m.get(st, nn(p), 'sip.Msg', 'MaxForwards')
    seen = set()
    for o in c.call(e, fn, [DLS], st):
        fx = D.effects(o)
        tx = [t for t in fx if t[0] == 'send']
        er = [t for t in fx if t[0] == 'err']
        calls = [t for t in fx if t[0] == 'call']
        tm = [t for t in fx if t[0] == 'timer']

        def spec(s):
            if isnil(e, s, p):
                return 'none', False, True
            if B(e, s, lcmp('<', cnt, mx)):
                B(e, s, lcmp('>', mf, 0))
                return ('resend',) + transmit(D, s, fx, p, mf)
            return 'limit', False, None
        for s, (k, sent, ret) in ev(e, initial(e, o), spec):
            P = lambda a, w: c.ensures(e, s, a, w, fn)
            seen.add((k, ret))
            P(not [t for t in fx if t[0] in ('state', 'peer', 'close', 'sockclose')], 'a timer changes no call state')
            if k == 'limit':
                P(not tx, 'at the limit the message is not sent again')
                if what == 'response' and not calls:
                    P(len(er) == 1 and o.result is False, 'an unacknowledged response ends the dialog with an error')
                    continue
                P(len(calls) == 1 and not er, 'at the limit the next address is tried')
                for t in calls:
                    P(e.equal(s, o.result, t[4], None), 'the dialog goes on exactly when the attempt is under way')
                    dl = t[3].heap['dls^']
                    for f in D.fields:
                        a, b = dl.f[D.fields.index(f)], e.base['dls^'].f[D.fields.index(f)]
                        if f == 'b' or f == count:
                            continue
                        if f == 'routes' and what == 'response':
                            P(e.res(s, a).null is True, 'for an unacknowledged response no address is left, so that the dialog ends')
                        else:
                            P(D.same(s, a, b), 'the attempt starts from the same %s' % f)
                continue
            P(not calls, 'below the limit no other address is tried')
            if k == 'none':
                P(not fx and o.result is True, 'without a message there is nothing to do')
                D.keep(o, s, (), 'after a timer')
                continue
            checktx(c, D, o, s, fx, p, mf, sent, ret, fn)
            P(e.equal(s, o.result, ret, None) if not isinstance(o.result, bool) else o.result == ret, 'the dialog ends when sending fails')
            if ret:
                P(lcmp('==', D.d(o, count), ladd(cnt, 1)), 're-sending is counted')
                P(len(tm) == 1 and D.d(o, timer) == tm[0][1], 'the timer is set again')
                P(tx and tx[0][4].obj == 'dls.sock^', 're-sent to the same address')
                D.keep(o, s, (count, timer), 'after re-sending')
        frame(c, e, o, fn, ['dls^', what + '^', what + '.Via^'])
    need = {('resend', True), ('resend', False), ('limit', None)}
    c.obligation(need <= seen, 'vacuity guard: re-sending and giving up', str(seen))


def hangup(c, L):
    fn = T + 'sendHangup'
    D = Dlg(c, L, fn, ['sendRequest', 'popRoute'])
    e, m = D.e, D.m
    D.pre('invite^', 'sip.Msg', Via=nn)
    st = D.state()
    answered(D, st)
    I = m.obj(st, D.INV, 'sip.Msg')
    seen = set()
    for o in c.call(e, fn, [DLS], st):
        fx = D.effects(o)
        tx = [t for t in fx if t[0] == 'send']
        calls = [t for t in fx if t[0] == 'call']
        for s, up in ev(e, initial(e, o), lambda s: B(e, s, lcmp('==', D.d(s, 'state'), 2))):
            P = lambda a, w: c.ensures(e, s, a, w, fn)
            P(not [t for t in fx if t[0] in ('state', 'peer', 'timer', 'close', 'sockclose')], 'hanging up waits for the answer')
            seen.add(up)
            if up:
                P(len(calls) == 1 and not tx and calls[0][1] == 'sendRequest', 'an answered call is hung up by a request of its own')
                if not calls:
                    continue
                t = calls[0]
                q = e.res(s, t[2][0])
                at = lambda k: D.at(t[3], q, k, o)
                P(isnew(q.obj), 'the hang-up is a new message')
                P(D.text(s, at('Method'), 'BYE') and D.text(s, at('CSeqMethod'), 'BYE'), 'an answered call is hung up by BYE')
                P(lcmp('==', at('CSeq'), ladd(D.d(s, 'lseq'), 1)), 'with the next sequence number')
                P(lcmp('==', t[3].heap['dls^'].f[D.fields.index('lseq')], ladd(D.d(s, 'lseq'), 1)), 'which is used up')
                P(e.equal(s, at('CallID'), I['CallID'], None), 'it belongs to the call')
                P(e.equal(s, o.result, t[4], None), 'the dialog goes on exactly when it is under way')
            else:
                P(len(tx) == 1 and not calls, 'an unanswered call is cancelled')
                for t in tx:
                    at = lambda k: D.at(t[2], t[1], k, o)
                    P(D.text(s, at('Method'), 'CANCEL') and D.text(s, at('CSeqMethod'), 'CANCEL'), 'an unanswered call is cancelled by CANCEL')
                    P(same_val(e, s, at('CSeq'), I['CSeq']) and same_val(e, s, at('CallID'), I['CallID']) and D.same(s, at('Via'), I['Via']), 'the CANCEL belongs to the INVITE')
                    P(t[4].obj == 'dls.sock^', 'it is sent where the INVITE was')
                    for s2, w in ev(e, s, lambda s: B(e, s, t[3])):
                        c.ensures(e, s2, e.equal(s2, o.result, w, None) if not isinstance(o.result, bool) else o.result == w, 'the dialog goes on until the answer', fn)
                        c.ensures(e, s2, len([x for x in fx if x[0] == 'err']) == (0 if w else 1), 'a failure to send is reported', fn)
                D.keep(o, s, (), 'after cancelling')
    c.obligation(seen == {True, False}, 'vacuity guard: both ways of hanging up', str(seen))


def sendrequest(c, L):
    fn = T + 'sendRequest'
    D = Dlg(c, L, fn, ['popRoute', 'dialog.RouteMessage', 'dialog.RouteAddress'])
    e, m = D.e, D.m
    st = D.state()
    q = D.MSG
    seen = set()
    for o in c.call(e, fn, [DLS, q], st):
        fx = D.effects(o)
        rm = [t for t in o.trace if t[0] == 'routemsg']
        ra = [t for t in o.trace if t[0] == 'routeaddr']
        calls = [t for t in fx if t[0] == 'call']
        er = [t for t in fx if t[0] == 'err']

        def spec(s):
            if not rm or not B(e, s, rm[0][5]):
                return 'noroute'
            if not ra or not B(e, s, ra[0][5]):
                return 'noaddr'
            return 'ok'
        for s, k in ev(e, initial(e, o), spec):
            for s, early in ev(e, s, lambda s: B(e, s, lcmp('<', D.d(s, 'state'), 2))):
                P = lambda a, w: c.ensures(e, s, a, w, fn)
                seen.add(k)
                P(len(rm) == 1 and rm[0][3].obj == 'msg^', 'the request is routed')
                P(not [t for t in fx if t[0] not in ('err', 'call')], 'nothing else happens before')
                if k != 'ok':
                    P(len(er) == 1 and not calls and o.result is False, 'a request that cannot be routed is reported and ends the dialog')
                    continue
                P(len(ra) == 1 and e.equal(s, ra[0][1], ratom('host#%d' % rm[0][4]), None), 'the host of the route is looked up')
                P(V.same(ra[0][2], z3.BitVec('port#%d' % rm[0][4], 16)), 'with the port of the route')
                P(e.equal(s, ra[0][3], early, None) if not isinstance(ra[0][3], bool) else ra[0][3] == early, 'servers are looked up unless the call is answered')
                P(len(calls) == 1 and calls[0][1] == 'popRoute' and not er, 'the first address is tried')
                if calls:
                    t = calls[0]
                    g = lambda f: e.res(s, t[3].heap['dls^'].f[D.fields.index(f)])
                    P(g('request').obj == 'msg^', 'it becomes the current request')
                    P(g('routes').obj == 'addrs#%d' % ra[0][4], 'with all addresses to try')
                    P(V.same(e.res(s, o.result), t[4]), 'the dialog goes on exactly when the attempt is under way')
                    for f in ('invite', 'remote', 'state', 'lseq', 'rseq', 'response', 'sock'):
                        P(D.same(s, g(f), e.base['dls^'].f[D.fields.index(f)]), 'the %s stays' % f)
    c.obligation(seen == {'noroute', 'noaddr', 'ok'}, 'vacuity guard: routing succeeds and fails', str(seen))


class TailLoop:
    """A loop that does again what the function does from its start: going round is calling the function in the state reached.
    What is kept in variables at the head must follow from the state of the dialog as it did the first time."""

    def __init__(self, D, name):
        self.D, self.call, self.of = D, D.called(name), {}

    def __call__(self, e, st, fr, blk, body):
        D = self.D
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        dls = st.heap.get('dls^', e.base['dls^'])
        if fr.prev not in body:
            if len(st.frames) != 1 or st.trace or not V.same(dls, e.base['dls^']):
                raise Unsupported('a loop that is not at the start')
            params = {p['n'] for p in fr.fn.params} if fr.fn.params and isinstance(fr.fn.params[0], dict) else set(fr.fn.params)
            for n, v in fr.regs.items():
                if n in params or n in phis or isinstance(v, Ptr) and v.obj == 'dls^' and v.null is False:
                    continue
                raise Unsupported('the loop starts with %s' % n)
            for p in phis:
                fs = [i for i, x in enumerate(dls.f) if V.same(x, fr.regs[p])]
                if not fs:
                    raise Unsupported('the loop carries %s' % p)
                self.of[p] = fs
            return None
        if len(st.frames) != 1:
            raise Unsupported('a loop in a function called')
        for p in phis:
            now = [e.equal(st, fr.regs[p], dls.f[i], None) for i in self.of[p]]
            e.prove(st, any(x is True for x in now) or now[0], 'going round starts from the state of the dialog', 'invariant', fn=fr.fn.name)
        e.ret(st, self.call(e, st, [None], None))
        return [st]


def poproute(c, L, alias):
    fn = T + 'popRoute'
    D = Dlg(c, L, fn, ['connect', 'populate'], alias)
    e, m = D.e, D.m
    e.contracts[fn] = D.called('popRoute')
    e.inv[(c.fn(fn).name, 'loop')] = TailLoop(D, 'popRoute')
    v = e.base['dls^']
    e.base['dls^'] = D.put(v, sock=Ptr('dls.sock^', (), z3.Bool('dls.sock==nil')))
    st = D.state()
    q = D.REQ
    routes = D.d(st, 'routes')
    seen = set()
    for o in c.call(e, fn, [DLS], st):
        fx = D.effects(o)
        tx = [t for t in fx if t[0] == 'send']
        er = [t for t in fx if t[0] == 'err']
        calls = {t[1]: t for t in fx if t[0] == 'call'}
        tm = [t for t in fx if t[0] == 'timer']
        pop = calls.get('populate')
        mf = D.at(pop[3], q, 'MaxForwards', o) if pop else None

        def spec(s):
            if isnil(e, s, routes):
                return 'none', None, None, None
            head = m.obj(s, routes, 'dialog.AddressRoute')
            if 'connect' not in calls or not B(e, s, calls['connect'][4]):
                return 'skip', head, None, None
            B(e, s, lcmp('<', D.d(s, 'state'), 2))
            if mf is None:
                return 'up', head, None, None
            B(e, s, lcmp('>', mf, 0))
            return ('up', head) + transmit(D, s, fx, q, mf)
        for s, (k, head, sent, ret) in ev(e, initial(e, o), spec):
            P = lambda a, w: c.ensures(e, s, a, w, fn)
            seen.add((k, ret))
            P(not [t for t in fx if t[0] in ('state', 'peer', 'close', 'sockclose')], 'trying an address changes no call state')
            if k == 'none':
                P(len(er) == 1 and not tx and not calls and o.result is False, 'when no address is left an error is reported and the dialog ends')
                continue
            P('connect' in calls, 'the next address is contacted')
            if 'connect' not in calls:
                continue
            P(e.equal(s, calls['connect'][3].heap['dls^'].f[D.fields.index('addr')], head['Address'], None), 'the next address is contacted')
            if k == 'skip':
                P(not tx and not er and 'popRoute' in calls, 'an address that cannot be used is skipped')
                if 'popRoute' in calls:
                    t = calls['popRoute']
                    g = lambda f: e.res(s, t[3].heap['dls^'].f[D.fields.index(f)])
                    P(D.same(s, g('routes'), head['Next']), 'the addresses after it are tried next')
                    for f in ('request', 'invite', 'remote', 'state', 'lseq', 'rseq', 'response', 'dest'):
                        P(D.same(s, g(f), e.base['dls^'].f[D.fields.index(f)]), 'with the same %s' % f)
                    P(e.equal(s, o.result, t[4], None), 'as if it had not been there')
                continue
            P('popRoute' not in calls, 'one address is tried at a time')
            P(pop is not None and pop[2][0].obj == q.obj, 'the request gets a fresh branch')
            if pop is None:
                continue
            P(len(tm) == 1 and D.d(o, 'requestTimer') == tm[0][1], 'a timer for re-sending is set')
            P(D.same(s, D.d(o, 'routes'), head['Next']), 'the addresses after it are left')
            P(lcmp('==', D.d(o, 'requestResends'), 0), 'the count of re-sends starts anew')
            P(e.equal(s, o.result, ret, None) if not isinstance(o.result, bool) else o.result == ret, 'the dialog goes on exactly when the request is on its way')
            checktx(c, D, o, s, fx, q, mf, sent, ret, fn)
            for t in tx:
                P(t[4].obj == D.d(o, 'sock').obj, 'the request is sent there')
                P(fx.index(calls['connect']) < fx.index(pop) < fx.index(t), 'the request gets a fresh branch before it is sent')
                P(D.same(s, D.at(t[2], t[1], 'Via', o), D.at(pop[3], q, 'Via', o)), 'the branch stays')
            early = B(e, s, lcmp('<', D.d(s, 'state'), 2))
            but = ['addr', 'routes', 'requestResends', 'requestTimer', 'sock', 'sockMsgs', 'sockErrs', 'csock', 'csockMsgs', 'csockErrs']
            if early:
                P(lcmp('==', D.d(o, 'rseq'), 0) and e.res(o, D.d(o, 'remote')).null is True, 'nothing is known about the other side of an unanswered call')
                P(same_val(e, s, D.d(o, 'lseq'), m.get(o, q, 'sip.Msg', 'CSeq')), 'the sequence starts with the request')
                but += ['rseq', 'remote', 'lseq']
            D.keep(o, s, but, 'after trying an address')
            P(e.equal(s, D.d(o, 'addr'), head['Address'], None), 'the address tried is remembered')
    need = {('none', None), ('skip', None), ('up', True), ('up', False)}
    c.obligation(need <= seen, 'vacuity guard: all outcomes of trying an address', str(seen))


def connect(c, L):
    fn = T + 'connect'
    D = Dlg(c, L, fn, [])
    e, m = D.e, D.m
    v = e.base['dls^']
    e.base['dls^'] = D.put(v, sock=Ptr('dls.sock^', (), z3.Bool('dls.sock==nil')))
    st = D.state()
    seen = set()
    for o in c.call(e, fn, [DLS], st):
        dial = [t for t in o.trace if t[0] == 'dial']
        lst = [t for t in o.trace if t[0] == 'listen']
        cl = [t for t in o.trace if t[0] == 'sockclose']
        gos = [t for t in o.trace if t[0] == 'go']

        def spec(s):
            old = D.d(s, 'sock')
            none = isnil(e, s, old)
            if not none and B(e, s, e.equal(s, D.d(s, 'addr'), ratom('addr:remote:dls.sock^'), None)):
                return 'kept', none
            if dial and B(e, s, dial[0][3]) and all(B(e, s, x[2]) for x in lst):
                return 'new', none
            return 'failed', none
        for s, (k, none) in ev(e, initial(e, o), spec):
            P = lambda a, w: c.ensures(e, s, a, w, fn)
            seen.add(k)
            P(o.result is (k != 'failed'), 'success is reported as such')
            P(not [t for t in o.trace if t[0] in ('tx', 'send', 'close', 'timer')], 'connecting sends nothing')
            sock = D.d(o, 'sock')
            if k == 'kept':
                P(not dial and not cl and sock.obj == 'dls.sock^', 'a socket connected to the address is kept')
                D.keep(o, s, (), 'when already connected')
                continue
            P([t[1].obj for t in cl] == ([] if none else ['dls.sock^']), 'the former socket is closed')
            P(len(dial) == 1 and e.equal(s, dial[0][1], D.d(s, 'addr'), None), 'the address is contacted')
            if k == 'new':
                P(sock.obj == dial[0][2], 'through a socket of its own')
                for so, ms, es in (('sock', 'sockMsgs', 'sockErrs'), ('csock', 'csockMsgs', 'csockErrs')):
                    if so == 'csock' and not lst:
                        continue
                    x = D.d(o, so)
                    P([t for t in gos if t[2][0] == x and t[2][1] == D.d(o, ms) and t[2][2] == D.d(o, es) and t[1] and t[1].endswith('.ReceiveMessages')] != [], 'messages are received from %s' % so)
                P(len(gos) == 1 + len(lst), 'one receiver per socket')
            D.keep(o, s, ('sock', 'sockMsgs', 'sockErrs', 'csock', 'csockMsgs', 'csockErrs'), 'when connecting')
        frame(c, e, o, fn, ['dls^'])
    c.obligation(seen == {'kept', 'new', 'failed'}, 'vacuity guard: all outcomes of connecting', str(seen))


def populate(c, L):
    fn = T + 'populate'
    D = Dlg(c, L, fn, ['dialog.PopulateMessage'])
    e, m = D.e, D.m
    e.merge = True
    st = D.state()
    q = D.MSG
    get = L.C['(*sip.Param).Get']
    n = 0
    v0 = m.obj(st, q, 'sip.Msg')
    for o in c.call(e, fn, [DLS, q], st):
        n += 1
        pm = [t for t in o.trace if t[0] == 'populate']
        P = lambda a, w: c.ensures(e, o, a, w, fn)
        P(len(pm) == 1 and pm[0][3].obj == 'msg^', 'the rest is populated')
        P(not [t for t in o.trace if t[0] in ('tx', 'send', 'close', 'timer', 'sockclose')], 'populating sends nothing')
        now = m.obj(o, q, 'sip.Msg')
        for k in now:
            if k not in ('Via', 'Contact'):
                P(V.same(now[k], v0[k]), 'field %s of the request stays' % k)
        via = e.res(o, now['Via'])
        for x, b in ev(e, o.clone(), lambda x: get(e, x, [m.get(x, via, 'sip.Via', 'Param'), rlit(b'branch')], None)):
            b = e.res(x, b)
            c.ensures(e, x, bnot(b.null), 'the request has a branch', fn)
            c.ensures(e, x, isfresh(e.res(x, m.get(x, nn(b), 'sip.Param', 'Value')), 'branch'), 'the branch is fresh', fn)
        ct = e.res(o, now['Contact'])
        P(bnot(ct.null) if isinstance(ct, Ptr) else False, 'the request has a contact')
    c.obligation(n > 3, 'vacuity guard: paths of populate', str(n))


def run(c, L):
    fn = T + 'run'
    H = {'requestTimer': 'resendRequest', 'responseTimer': 'resendResponse', 'sockMsgs': 'handleMessage', 'csockMsgs': 'handleMessage', 'sendHangupChan': 'sendHangup'}
    D = Dlg(c, L, fn, ['sendRequest', 'popRoute', 'handleMessage', 'resendRequest', 'resendResponse', 'sendHangup'])
    e, m = D.e, D.m
    e.contracts['util.IsRefused'] = lambda e, st, a, ins: z3.Bool('refused')
    f = c.fn(fn)
    ends = []

    def havoc(e, st, fr, blk):
        if not all(isinstance(fr.regs[i['n']], bool) for i in blk['instrs'][:blk['nphi']]):
            raise Unsupported('the event loop carries %s' % blk['instrs'][0]['n'])
        st.ghost['flags'] = TupleV((i['n'], fr.regs[i['n']]) for i in blk['instrs'][:blk['nphi']])
        v = e.sym(e.objtypes['dls^'], 'L')
        for k in ('errChan', 'stateChan', 'peerChan', 'invite'):
            v = v.set(D.fields.index(k), e.base['dls^'].f[D.fields.index(k)])
        i = D.fields.index('sock')
        cs = D.fields.index('csock')
        v = v.set(i, nn(v.f[i])).set(cs, nn(v.f[cs]) if False else v.f[cs])
        st.heap['dls^'] = v
        st.ghost['before'] = list(st.trace)
        st.trace = []
        # a channel of the second socket only has something to deliver when there is one
        st.ghost['cs'] = v.f[cs]

    class Events(Cut):
        """The loop goes round when it gets to the select statement again (until then it may still find that it is over)."""
        def __call__(self, e, st, fr, blk, body):
            if fr.prev in body and blk['nphi'] and 'second' not in st.ghost:
                st.ghost['second'] = (blk, body)
                return None
            return Cut.__call__(self, e, st, fr, blk, body)
    cut = Events(f, outer_loop(f), havoc, lambda e, st, fr: ends.append((st, True)), frame=lambda st, o: o == 'dls^').install(e)
    orig = e.select

    def select(st, fr, ins):
        if 'second' in st.ghost:
            for p, v in st.ghost['flags']:
                e.prove(st, e.equal(st, fr.regs[p], v, None), 'the event loop keeps %s' % p, 'invariant', fn=fn)
            blk, body = st.ghost['second']
            fr.prev = next(iter(body))
            Cut.__call__(cut, e, st, fr, blk, body)
        r = orig(st, fr, ins)
        t = st.trace[-1]
        if t[0] == 'selrecv' and t[2] == Opaque('L.csockErrs'):
            e.assume(st, bnot(st.ghost['cs'].null))
        return r
    e.select = select
    st = D.state()
    for o in c.call(e, fn, [DLS], st):
        ends.append((o, False))
    seen = set()
    for o, back in ends:
        s = o
        P = lambda a, w: c.ensures(e, s, a, w, fn)
        if 'before' not in o.ghost:
            fx = D.effects(o)
            calls = [t for t in fx if t[0] == 'call']
            P(len(calls) == 1 and calls[0][1] == 'sendRequest' and calls[0][2][0].obj == 'invite^', 'the dialog begins with the INVITE')
            P(bnot(calls[0][4]) if calls else False, 'it ends at once only when the INVITE cannot be sent')
            ended(c, D, o, fn)
            seen.add('start')
            continue
        first = [t for t in o.ghost['before'] if t[0] == 'call']
        P(len(first) == 1 and first[0][1] == 'sendRequest' and first[0][2][0].obj == 'invite^', 'the dialog begins with the INVITE')
        P(first[0][4] if first else False, 'it goes on only when the INVITE was sent')
        rc = [t for t in o.trace if t[0] == 'selrecv']
        P(len(rc) == 1, 'one event is handled at a time')
        if len(rc) != 1:
            continue
        ch, val = rc[0][2], rc[0][3]
        k = ch.name[2:] if isinstance(ch, Opaque) and ch.name.startswith('L.') else repr(ch)
        seen.add(k)
        fx = D.effects(o)
        if not back:
            ended(c, D, o, fn)
            fx = [t for t in fx if t[0] != 'close']
        calls = [t for t in fx if t[0] == 'call' and t[1] != 'cleanup']
        er = [t for t in fx if t[0] == 'err']
        P(not [t for t in fx if t[0] in ('send', 'state', 'peer', 'timer')], 'events are handled by their handlers')
        if k in H:
            P([t[1] for t in calls] == [H[k]] and not er, '%s is handled by %s' % (k, H[k]))
            for t in calls:
                P(e.equal(s, t[4], back, None), 'the dialog goes on exactly when the handler says so')
                if H[k] == 'handleMessage':
                    P(D.same(s, t[2][0], val), 'the message received is handled')
        elif k in ('sockErrs', 'csockErrs'):
            for s, r in ev(e, o, lambda s: k == 'sockErrs' and B(e, s, z3.Bool('refused'))):
                P = lambda a, w: c.ensures(e, s, a, w, fn)
                if r:
                    seen.add('refused')
                    P([t[1] for t in calls] == ['popRoute'] and not er, 'upon refusal the next address is tried')
                    for t in calls:
                        P(e.equal(s, t[4], back, None), 'the dialog goes on exactly when the attempt is under way')
                        P(e.res(s, t[3].heap['dls^'].f[D.fields.index('sock')]).null is True, 'with a new socket')
                else:
                    P(not calls and len(er) == 1 and not back, 'other network errors are reported and end the dialog')
                    P(er and D.same(s, er[0][1], val), 'the error itself is reported')
        else:
            P(False, 'an event of unknown kind: ' + k)
    need = {'start', 'refused', 'sockErrs', 'csockErrs'} | set(H)
    c.obligation(need <= seen, 'vacuity guard: every kind of event is waited for', str(need - seen))


def ended(c, D, o, fn):
    fx = D.effects(o)
    cl = [t[1] for t in fx if t[0] == 'close']
    P = lambda a, w: c.ensures(D.e, o, a, w, fn)
    P(sorted(map(repr, cl)) == sorted(map(repr, [ERR, STATE, PEER])), 'at the end each channel to the application is closed once')
    last = [i for i, t in enumerate(fx) if t[0] in ('err', 'state', 'peer', 'call')]
    P(not last or not cl or max(last) < min(i for i, t in enumerate(fx) if t[0] == 'close'), 'nothing follows')
