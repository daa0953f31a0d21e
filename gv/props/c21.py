"""C21: a dialog reacts correctly to every response."""
from .common import *
from .lists import *
from .dlg import *

REPLAY = [('dialog', 'TestVerifC21')]
TRUSTED = TRUST + ['ResponseMatch: discharged under C18; popRoute, sendRequest: under C23']
ASSUME = ASSUM + ['success statuses other than 200 and provisional ones other than 100, 180 and 183 are only required not to move the call backwards']


def verify(c):
    L = Lists(c.prog)
    for alias in (True, False):
        c.section('responses to %s' % ('the INVITE' if alias else 'another request'), responses, c, L, alias)


def responses(c, L, alias):
    fn = T + 'handleMessage'
    D = Dlg(c, L, fn, ['sendRequest', 'popRoute', 'dialog.ResponseMatch'], alias)
    e, m = D.e, D.m
    D.pre('msg^', 'sip.Msg', Via=nn, VersionMajor=2, VersionMinor=0)
    D.pre(D.REQ.obj, 'sip.Msg', Via=nn)
    st = D.state()
    MSG, REQ = D.MSG, D.REQ
    M0, Q0 = m.obj(st, MSG, 'sip.Msg'), m.obj(st, REQ, 'sip.Msg')
    status = M0['Status']
    answered(D, st)
    e.assume(st, lcmp('>', status, 0))
    e.assume(st, e.equal(st, M0['CallID'], Q0['CallID'], None))
    seen = {}

    def spec(s, fx):
        """What has to happen: (acks, peer, states, call, error, result), and the facts needed to say so."""
        x = {'ack': False, 'peer': None, 'state': [], 'call': None, 'err': False, 'ret': True, 'match': B(e, s, z3.Bool('match')), 'fields': {}}
        if not x['match']:
            return x
        lt = lambda a, b: B(e, s, lcmp('<', a, b))
        eq = lambda a, b: B(e, s, lcmp('==', a, b))
        inv = B(e, s, D.text(s, Q0['Method'], 'INVITE'))
        nocontact = isnil(e, s, M0['Contact'])
        if inv and not lt(status, 200):
            if lt(status, 300) and nocontact:
                return dict(x, err=True, ret=False, fields=None)
            x['ack'] = True
            tx = [t for t in fx if t[0] == 'send']
            if not tx:
                return x
            if not B(e, s, tx[0][3]):
                return dict(x, err=True, ret=False, fields=None)
        x['fields'] = f = {'requestTimer': NIL}
        if not eq(status, 503):
            f['routes'] = NIL
        if not lt(200, status):
            x['peer'] = D.peer(s)
        state = D.d(s, 'state')
        if eq(status, 100):
            if not lt(0, state):
                x['state'], f['state'] = [0], 0
        elif eq(status, 180) or eq(status, 183):
            if not lt(1, state):
                x['state'], f['state'] = [1], 1
        elif eq(status, 200):
            if B(e, s, D.text(s, M0['CSeqMethod'], 'INVITE')):
                if isnil(e, s, D.d(s, 'remote')):
                    x['state'], f['state'] = [2], 2
                f['remote'] = MSG
            elif B(e, s, D.text(s, M0['CSeqMethod'], 'BYE')) or B(e, s, D.text(s, M0['CSeqMethod'], 'CANCEL')):
                x['state'], x['ret'], x['fields'] = [3], False, None
        elif eq(status, 503) and alias:
            x['call'] = 'popRoute'
        elif (eq(status, 301) or eq(status, 302)) and not nocontact:
            x['call'] = 'sendRequest'
        elif lt(299, status):
            return dict(x, err=True, ret=False, fields=None)
        else:
            x['loose'] = True
        return x
    for o in c.call(e, fn, [DLS, MSG], st):
        fx = D.effects(o)
        for s, x in ev(e, initial(e, o), spec, fx):
            for k in ('match', 'ack', 'err', 'call', 'loose') + tuple('state%d' % i for i in x['state']):
                if x.get(k) or k.startswith('state'):
                    seen[k if k != 'call' else x[k]] = 1
            if x['peer'] is not None:
                seen['peer'] = 1
            tx = [t for t in fx if t[0] == 'send']
            er = [t for t in fx if t[0] == 'err']
            sts = [t for t in fx if t[0] == 'state']
            pe = [t for t in fx if t[0] == 'peer']
            calls = [t for t in fx if t[0] == 'call']
            other = [t for t in fx if t[0] in ('close', 'sockclose', 'timer')]
            P = lambda k, w: c.ensures(e, s, k, w, fn)
            if x.get('loose') and sts:
                P(len(sts) == 1 and zbool(X.band2(lcmp('>=', sts[0][1], D.d(s, 'state')), lcmp('<=', sts[0][1], 1))), 'other provisional responses only move the call forward')
                continue
            if x.get('loose') and er:
                P(lcmp('>', status, 200), 'provisional responses are no errors')
                continue
            P(not other, 'a response by itself closes nothing and sets no timer')
            P(len(tx) == (1 if x['ack'] else 0), 'a final response to an INVITE is acknowledged once, nothing else is sent')
            if x['ack'] and tx:
                a, sn = tx[0][1], tx[0][2]
                P(D.text(s, D.at(sn, a, 'Method', o), 'ACK'), 'final responses are answered by ACK')
                P(same_val(e, s, D.at(sn, a, 'CSeq', o), M0['CSeq']), 'the ACK has the number of the response')
                P(same_val(e, s, D.at(sn, a, 'CallID', o), M0['CallID']), 'the ACK belongs to the call')
                P(tx[0][4].obj == 'dls.sock^', 'the ACK is sent over the socket of the dialog')
            P(len(er) == (1 if x['err'] else 0), 'failures, and only they, are reported as errors')
            P(len(sts) == len(x['state']), 'the state is reported exactly when the call moves')
            for a, b in zip(sts, x['state']):
                P(lcmp('==', a[1], b), 'the right state is reported')
            D.checkpeer(o, s, pe, x['peer'])
            P([t[1] for t in calls] == ([x['call']] if x['call'] else []), 'the next address or a new target is tried exactly upon 503 or redirection (%s, %s)' % (calls and calls[0][1], x['call']))
            r = o.result
            if x['call'] and calls:
                t = calls[0]
                P(V.same(r, t[4]) or e.equal(s, r, t[4], None), 'the dialog goes on exactly when the attempt is under way')
                dl = t[3].heap['dls^']
                g = lambda k: dl.f[D.fields.index(k)]
                P(D.same(s, g('request'), REQ) and D.same(s, g('remote'), e.base['dls^'].f[D.fields.index('remote')]), 'the attempt starts from the same request')
                if x['call'] == 'popRoute':
                    P(D.same(s, g('routes'), e.base['dls^'].f[D.fields.index('routes')]), 'the remaining addresses are kept for the next attempt')
                else:
                    i = e.res(s, t[2][0])
                    P(isinstance(i, Ptr) and i.obj == 'invite^', 'a redirection re-sends the INVITE')
                    req = e.res(s, D.at(t[3], D.INV, 'Request', o))
                    P(req.obj == m.get(s, M0['Contact'], 'sip.Addr', 'Uri').obj, 'to the contact of the response')
                    P(e.res(s, D.at(t[3], D.INV, 'Route', o)).null is True, 'without route')
            else:
                P(e.equal(s, r, x['ret'], None) if not isinstance(r, bool) else r == x['ret'], 'the dialog ends exactly upon failure or hang-up')
            if x['fields'] is not None and not calls:
                for k, w in x['fields'].items():
                    P(D.same(s, D.d(o, k), w) if k != 'state' else lcmp('==', D.d(o, k), w), 'the dialog has the right %s' % k)
                D.keep(o, s, x['fields'], 'after a response')
                if x['ret'] is True and x['match']:
                    for s2, up in ev(e, s, lambda s: B(e, s, lcmp('==', D.d(o, 'state'), 2)) if not isinstance(D.d(o, 'state'), int) else D.d(o, 'state') == 2):
                        r = e.res(s2, D.d(o, 'remote'))
                        if up:
                            c.ensures(e, s2, isinstance(r, Ptr) and X.band2(bnot(r.null), bnot(m.get(s2, nn(r), 'sip.Msg', 'Contact').null)),
                                      'an answered call has a remote side with a contact', fn)
        frame(c, e, o, fn, ['dls^', 'invite^'] + [k for k in o.heap if k.startswith('last:')])
    need = {'match', 'err', 'loose', 'peer', 'state0', 'state1', 'state2', 'state3'} | ({'popRoute'} if alias else set()) | {'sendRequest', 'ack'}
    c.obligation(need <= set(seen), 'vacuity guard: every reaction is reached', str(need - set(seen)))
