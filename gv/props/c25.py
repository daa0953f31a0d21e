"""C25: copies equal the original and are independent."""
from .common import *
from .lists import *
from .c19 import uris

REPLAY = [('sip', 'TestVerifC25')]
ASSUME = ['lists are finite and acyclic']


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Via).Copy', '(*sip.Addr).Copy', '(*sip.URI).Copy', '(*sip.Addr).Reversed', '(*sip.Via).Last', '(*sip.Addr).Last'])
    c.section('Msg.Copy', msgcopy, c, L)
    c.section('Detach', detach, c, L)
    c.section('Tag', add, c, L, '(*sip.Addr).Tag', 'sip.Addr', b'tag', 'tag')
    c.section('Branch', add, c, L, '(*sip.Via).Branch', 'sip.Via', b'branch', 'branch')


def msgcopy(c, L):
    fn = '(*sip.Msg).Copy'

    def lazy(t):
        def h(e, st, a, ins):
            p = e.res(st, a[0])
            if p.null is True:
                return NIL
            o = 'fresh copy of:' + p.obj
            e.objtypes[o] = e.p.type_by_name('@sip.' + t)
            return Ptr(o, (), p.null)
        return h
    e = c.engine(fn, {'(*sip.%s).Copy' % t: lazy(t) for t in ('URI', 'Addr', 'Via')})
    m = Msgs(c, e)
    msg = m.ptr('msg', 'sip.Msg')
    st = c.state(e)
    fl = m.fields('sip.Msg')
    v0 = e.objval(st, 'msg^')
    types = {n: c.prog.types[ftype(e, 'sip.Msg', n)] for n in fl}
    kinds = {c.prog.type_by_name('@sip.' + t) for t in ('URI', 'Addr', 'Via')}
    npointers = 0
    nils = set()
    for o in c.call(e, fn, [msg], st):
        frame(c, e, o, fn)
        for s, isn in ev(e, o, lambda s: isnil(e, s, msg)):
            nils.add(isn)
            r = e.res(s, s.result)
            c.ensures(e, s, isnil(e, s, r) == isn, 'the copy of no message is no message', fn)
            if isn:
                continue
            c.ensures(e, s, isnew(r.obj), 'the copy is a new message', fn)
            v = s.heap[r.obj]
            for n, a, b in zip(fl, v.f, v0.f):
                a, b = e.res(s, a), e.res(s, b)
                if types[n].get('k') == 'ptr' and types[n]['e'] in kinds:
                    npointers += 1
                    ok = isinstance(a, Ptr) and a.obj == 'fresh copy of:' + b.obj and (a.null is b.null or V.same(a.null, b.null) or e.decide(s, a.null) == e.decide(s, b.null) is not None)
                    c.ensures(e, s, ok, '%s of the copy is its own copy' % n, fn)
                else:
                    c.ensures(e, s, V.same(a, b) or same_val(e, s, a, b), '%s of the copy equals the original' % n, fn)
    c.obligation(npointers >= 9 and nils == {True, False}, 'vacuity guard: the message has address, Via and URI fields')


def detach(c, L):
    fn = '(*sip.Via).Detach'
    e = c.engine(fn, L.C)
    m = Msgs(c, e)
    via = m.ptr('via', 'sip.Via', False)
    for o in c.call(e, fn, [via]):
        frame(c, e, o, fn)
        r = e.res(o, o.result)
        c.ensures(e, o, isinstance(r, Ptr) and r.null is False and isnew(r.obj), 'the detached Via is a new one', fn)
        old = m.obj(initial(e, o), via, 'sip.Via')
        for n, a in m.obj(o, r, 'sip.Via').items():
            c.ensures(e, o, e.res(o, a).null is True if n == 'Next' else same_val(e, o, a, old[n]), 'the detached Via is that Via alone (%s)' % n, fn)


def add(c, L, fn, t, name, kind):
    """Adding a parameter changes the node it is added to and nothing else, not even the list of parameters."""
    e = c.engine(fn, L.C)
    m = Msgs(c, e)
    p = m.ptr('p', t, False)
    for o in c.call(e, fn, [p]):
        frame(c, e, o, fn, ('p^',))
        r = e.res(o, o.result)
        c.ensures(e, o, isinstance(r, Ptr) and r.obj == 'p^', 'returns itself', fn)
        old = m.obj(initial(e, o), p, t)
        for n, a in m.obj(o, p, t).items():
            if n != 'Param':
                c.ensures(e, o, same_val(e, o, a, old[n]), 'keeps %s' % n, fn)
                continue
            a = e.res(o, a)
            c.ensures(e, o, isinstance(a, Ptr) and a.null is False and isnew(a.obj), 'the parameter is a new node', fn)
            q = m.obj(o, a, 'sip.Param')
            c.ensures(e, o, e.equal(o, q['Name'], rlit(name), None), 'the parameter has its name', fn)
            c.ensures(e, o, isfresh(q['Value'], kind), 'the parameter is freshly generated', fn)
            c.ensures(e, o, same_val(e, o, q['Next'], old[n]), 'the parameters there were follow', fn)
