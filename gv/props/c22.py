"""C22: a dialog answers every request correctly."""
from .common import *
from .lists import *
from .dlg import *

REPLAY = [('dialog', 'TestVerifC22')]
TRUSTED = TRUST
ASSUME = ASSUM


def verify(c):
    L = Lists(c.prog)
    c.section('messages of another SIP version', run, c, L, 'version')
    c.section('messages of another minor SIP version', run, c, L, 'minor')
    c.section('messages of another call', run, c, L, 'foreign')
    c.section('requests of the call', run, c, L, 'request')


def run(c, L, kind):
    fn = T + 'handleMessage'
    D = Dlg(c, L, fn, ['sendRequest', 'popRoute', 'dialog.ResponseMatch'], False)
    e, m = D.e, D.m
    D.pre('msg^', 'sip.Msg', Via=nn)
    if kind != 'version':
        D.pre('msg^', 'sip.Msg', VersionMajor=2)
    if kind not in ('version', 'minor'):
        D.pre('msg^', 'sip.Msg', VersionMinor=0)
    D.pre(D.REQ.obj, 'sip.Msg', Via=nn)
    st = D.state()
    MSG, REQ = D.MSG, D.REQ
    M0, Q0 = m.obj(st, MSG, 'sip.Msg'), m.obj(st, REQ, 'sip.Msg')
    sameid = e.equal(st, M0['CallID'], Q0['CallID'], None)
    if kind == 'version':
        e.assume(st, bnot(e.equal(st, M0['VersionMajor'], 2, None)))
    elif kind == 'minor':
        e.assume(st, bnot(e.equal(st, M0['VersionMinor'], 0, None)))
        kind = 'version'
    elif kind == 'foreign':
        e.assume(st, bnot(sameid))
    else:
        e.assume(st, sameid)
        e.assume(st, lcmp('<=', M0['Status'], 0))
    seen = {}

    def spec(s, fx):
        x = {'code': None, 'err': False, 'state': [], 'peer': None, 'ret': True, 'fields': {}}
        tx = [t for t in fx if t[0] == 'send']

        def answer(code, **kw):
            x.update(code=code)
            if tx and not B(e, s, tx[0][3]):
                x.update(failed=True, err=True, ret=False)
            else:
                x.update(**kw)
            return x
        if kind == 'version':
            return answer(505, err=True, ret=False)
        if kind == 'foreign':
            return answer(481)
        lt = lambda a, b: B(e, s, lcmp('<', a, b))
        if not lt(0, M0['MaxForwards']):
            return answer(483, err=True, ret=False)
        f = x['fields']
        rseq = D.d(s, 'rseq')
        if not B(e, s, lcmp('==', rseq, 0)) and lt(M0['CSeq'], rseq):
            return answer(500)
        f['rseq'] = M0['CSeq']
        is_ = lambda t: B(e, s, D.text(s, M0['Method'], t))
        if is_('BYE'):
            f['state'] = 3
            return answer(200, state=[3], ret=False)
        if is_('OPTIONS'):
            return answer(200)
        if is_('INVITE'):
            x['peer'] = D.peer(s)
            x['renew'] = not isnil(e, s, D.d(s, 'remote')) and not isnil(e, s, M0['Contact'])
            x['reliable'] = True
            return answer(200)
        if is_('ACK'):
            f['response'] = f['responseTimer'] = NIL
            return x
        return answer(405)
    for o in c.call(e, fn, [DLS, MSG], st):
        fx = D.effects(o)
        for s, x in ev(e, initial(e, o), spec, fx):
            seen[x['code']] = seen['renew'] = 1
            seen['renew%s' % x.get('renew')] = seen['peer%d' % (x['peer'] is not None)] = 1
            tx = [t for t in fx if t[0] == 'send']
            er = [t for t in fx if t[0] == 'err']
            sts = [t for t in fx if t[0] == 'state']
            pe = [t for t in fx if t[0] == 'peer']
            P = lambda k, w: c.ensures(e, s, k, w, fn)
            P(not [t for t in fx if t[0] in ('call', 'close', 'sockclose')], 'a request closes nothing and starts no other transaction')
            P(len(tx) == (0 if x['code'] is None else 1), 'every request but ACK is answered once')
            for t in tx:
                p, sn = t[1], t[2]
                at = lambda k: D.at(sn, p, k, o)
                P(lcmp('==', at('Status'), x['code'] or 0), 'answered by %s' % x['code'])
                P(same_val(e, s, at('CSeq'), M0['CSeq']) and same_val(e, s, at('CallID'), M0['CallID']), 'the answer belongs to the request')
                P(e.equal(s, at('CSeqMethod'), M0['CSeqMethod'], None), 'the answer names the method of the request')
                P(D.same(s, at('Via'), M0['Via']), 'the answer goes back the way of the request')
                P(t[4].obj == 'dls.sock^', 'the answer is sent over the socket of the dialog')
            P(len(er) == (1 if x['err'] else 0), 'failures, and only they, are reported as errors')
            if not x.get('failed'):
                P([t[1] for t in sts] == x['state'], 'a hang-up is reported, and nothing else')
                D.checkpeer(o, s, pe, x['peer'])
            P(e.equal(s, o.result, x['ret'], None) if not isinstance(o.result, bool) else o.result == x['ret'], 'the dialog ends exactly upon failure or hang-up')
            tm = [t for t in fx if t[0] == 'timer']
            but = dict(x['fields'])
            if x['failed'] if 'failed' in x else False:
                continue
            for k, w in but.items():
                P(lcmp('==', D.d(o, k), w) if k in ('rseq', 'state') else D.same(s, D.d(o, k), w), 'the dialog has the right %s' % k)
            if x.get('reliable'):
                P(len(tm) == 1 and D.d(o, 'responseTimer') == tm[0][1], 'a timer for re-sending the answer is set')
                P(lcmp('==', D.d(o, 'responseResends'), 0), 'the answer has not been re-sent yet')
                r = D.d(o, 'response')
                P(bool(tx) and isinstance(r, Ptr) and r.obj == tx[0][1].obj, 'the answer is kept for re-sending')
                but.update(responseTimer=1, responseResends=1, response=1)
                r = D.d(o, 'remote')
                if x['renew']:
                    but['remote'] = 1
                    P(isinstance(r, Ptr) and r.null is False, 'the remote side stays known')
                    new, old = m.obj(o, r, 'sip.Msg'), m.obj(s, Ptr('remote^', (), False), 'sip.Msg')
                    for k in new:
                        P(D.same(s, new[k], M0['Contact'] if k == 'Contact' else old[k]), 'of the remote side, only the contact is renewed (%s)' % k)
            else:
                P(not tm, 'no other timer is set')
            D.keep(o, s, but, 'after a request')
        frame(c, e, o, fn, ['dls^', 'msg.Via^'] + [k for k in o.heap if k.startswith('last:')])
    need = {'version': {505}, 'foreign': {481}, 'request': {483, 500, 200, 405, None, 'renewTrue', 'renewFalse', 'peer0', 'peer1'}}[kind]
    c.obligation(need <= set(seen), 'vacuity guard: every reaction is reached', str(need - set(seen)))
