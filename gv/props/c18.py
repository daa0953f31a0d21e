"""C18: responses and acknowledgements match exactly."""
from .common import *
from .lists import *

REPLAY = [('dialog', 'TestVerifC18')]
ASSUME = ['lists are finite and acyclic']


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Via).Last', '(*sip.Param).Get'])
    c.section('ResponseMatch', match, c, L, True)
    c.section('AckMatch', match, c, L, False)


def match(c, L, resp):
    fn = 'dialog.ResponseMatch' if resp else 'dialog.AckMatch'
    e = c.engine(fn, L.C)
    m = Msgs(c, e)
    a, b = m.ptr('own', 'sip.Msg', False), m.ptr('got', 'sip.Msg', False)
    seen = {True: 0, False: 0}

    def spec(s):
        A, G = m.obj(s, a, 'sip.Msg'), m.obj(s, b, 'sip.Msg')
        isresp = B(e, s, lcmp('>', G['Status'], 0))
        if isresp != resp or not B(e, s, lcmp('==', G['CSeq'], A['CSeq'])):
            return False
        if resp:
            if not B(e, s, e.equal(s, G['CSeqMethod'], A['Method'], None)):
                return False
        else:
            if not B(e, s, e.equal(s, G['Method'], rlit(b'ACK'), None)) or not B(e, s, e.equal(s, G['CSeqMethod'], rlit(b'ACK'), None)):
                return False
        v, w = L.C['(*sip.Via).Last'](e, s, [G['Via']], None), A['Via']
        if isnil(e, s, v) or isnil(e, s, w):
            return False
        v, w = m.obj(s, v, 'sip.Via'), m.obj(s, w, 'sip.Via')
        if not B(e, s, e.equal(s, v['Host'], w['Host'], None)) or not B(e, s, to_bv(v['Port'], 16) == to_bv(w['Port'], 16)):
            return False
        if resp:
            g = L.C['(*sip.Param).Get']
            x, y = g(e, s, [v['Param'], rlit(b'branch')], None), g(e, s, [w['Param'], rlit(b'branch')], None)
            if isnil(e, s, x) or isnil(e, s, y):
                return False
            return B(e, s, e.equal(s, m.get(s, x, 'sip.Param', 'Value'), m.get(s, y, 'sip.Param', 'Value'), None))
        return True
    for o in c.call(e, fn, [a, b]):
        frame(c, e, o, fn, what='matching modifies no message')
        for s, want in ev(e, initial(e, o), spec):
            for s2, got in ev(e, s, lambda s: B(e, s, o.result)):
                seen[want] += 1
                c.ensures(e, s2, got == want, 'matches exactly when sequence number, method, host, port%s agree' % (' and branch' if resp else ''), fn)
    c.obligation(seen[True] > 0 and seen[False] > 0, 'vacuity guard: matching and not matching are both possible')
