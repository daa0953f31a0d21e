"""C20: outgoing requests are completed, never overwritten."""
from .common import *
from .lists import *
from .c19 import uris

REPLAY = [('dialog', 'TestVerifC20')]
ASSUME = ['lists are finite and acyclic', 'the templates and the message do not share nodes, addresses have a URI',
          'a message that lacks Via or contact is completed from templates that exist']


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Via).Copy', '(*sip.Addr).Copy', '(*sip.URI).Copy', '(*sip.Param).Get'])
    c.section('PopulateMessage', populate, c, L)


def fresh(x, kind):
    return isinstance(x, Rope) and repr(x).find('fresh:%s#' % kind) >= 0 and len(x) == 1


def populate(c, L):
    fn = 'dialog.PopulateMessage'
    e = c.engine(fn, L.C)
    m = Msgs(c, e)
    uris(e, None, m)
    via, contact, msg = m.ptr('via', 'sip.Via', False), m.ptr('contact', 'sip.Addr', False), m.ptr('msg', 'sip.Msg', False)
    st = c.state(e)
    fl = m.fields('sip.Msg')
    v0 = e.objval(st, 'msg^')
    get = L.C['(*sip.Param).Get']
    seen = set()

    def eq(s, a, b):
        return V.same(a, b) or same_val(e, s, a, b)

    def iscopy(s, x, old, t, what, but=()):
        """x is a fresh copy of old (but for some fields)."""
        c.ensures(e, s, isinstance(x, Ptr) and x.null is False and isnew(x.obj), '%s is a fresh copy' % what, fn)
        A, O = m.obj(s, x, t), m.obj(s, old, t)
        for n in A:
            if n in but:
                continue
            if n == 'Next':
                a, b = e.res(s, A[n]), e.res(s, O[n])
                c.ensures(e, s, isinstance(a, Ptr) and (a.obj == 'copy:%s' % b.obj or a.null is True and e.decide(s, b.null) is True), '%s: the rest is copied' % what, fn)
            elif n == 'Uri':
                iscopy(s, e.res(s, A[n]), O[n], 'sip.URI', what + ': the URI', ('Param',) if 'Uri.Param' in but else ())
            else:
                c.ensures(e, s, eq(s, A[n], O[n]), '%s: field %s is copied' % (what, n), fn)

    def param(s, now, old, name, kind, what):
        """The parameter list is the old one, with a fresh parameter in front when it had none of that name."""
        g = get(e, s, [old, rlit(name)], None)
        if isnil(e, s, g):
            p = m.obj(s, now, 'sip.Param')
            c.ensures(e, s, isnew(e.res(s, now).obj), '%s is new' % what, fn)
            c.ensures(e, s, e.equal(s, p['Name'], rlit(name), None), '%s has its name' % what, fn)
            c.ensures(e, s, fresh(p['Value'], kind), '%s is freshly generated' % what, fn)
            c.ensures(e, s, eq(s, e.res(s, p['Next']), old), '%s comes before the parameters there were' % what, fn)
            seen.add(what)
        else:
            c.ensures(e, s, eq(s, now, old), 'parameters stay as they are when there is %s' % what, fn)
            seen.add('no ' + what)

    def check(s, o, resp):
        now, old = m.obj(s, msg, 'sip.Msg'), dict(zip(fl, v0.f))
        if resp:
            for n in fl:
                c.ensures(e, s, eq(s, now[n], old[n]), 'a response stays as it is (%s)' % n, fn)
            return
        pl = {'CallID': 'callid'}
        for n in fl:
            a, b = now[n], old[n]
            if n == 'CallID':
                if B(e, s, e.equal(s, b, EMPTY, None)):
                    c.ensures(e, s, fresh(a, 'callid'), 'a missing Call-ID is generated', fn)
                else:
                    c.ensures(e, s, eq(s, a, b), 'Call-ID stays', fn)
            elif n == 'CSeq':
                if B(e, s, lcmp('==', b, 0)):
                    c.ensures(e, s, 'fresh:cseq' in repr(a), 'a missing sequence number is generated', fn)
                else:
                    c.ensures(e, s, eq(s, a, b), 'CSeq stays', fn)
            elif n == 'CSeqMethod':
                c.ensures(e, s, eq(s, a, old['Method']) if B(e, s, e.equal(s, b, EMPTY, None)) else eq(s, a, b), 'the method of CSeq is completed or stays', fn)
            elif n == 'MaxForwards':
                if B(e, s, lcmp('==', b, 0)):
                    c.ensures(e, s, lcmp('>', a, 0), 'a missing hop count is filled in', fn)
                else:
                    c.ensures(e, s, eq(s, a, b), 'the hop count stays', fn)
            elif n == 'UserAgent':
                if B(e, s, e.equal(s, b, EMPTY, None)):
                    c.ensures(e, s, lcmp('>', rlen(a), 0), 'a missing user agent is filled in', fn)
                else:
                    c.ensures(e, s, eq(s, a, b), 'the user agent stays', fn)
            elif n == 'Via':
                a = e.res(s, a)
                if isnil(e, s, b):
                    iscopy(s, a, via, 'sip.Via', 'Via', ('Param',))
                    src = m.obj(initial(e, s), via, 'sip.Via')['Param']
                else:
                    c.ensures(e, s, a.obj == b.obj, 'Via stays', fn)
                    for k, x in m.obj(s, a, 'sip.Via').items():
                        if k != 'Param':
                            c.ensures(e, s, eq(s, x, m.obj(initial(e, s), b, 'sip.Via')[k]), 'Via stays (%s)' % k, fn)
                    src = m.obj(initial(e, s), b, 'sip.Via')['Param']
                param(s, m.get(s, a, 'sip.Via', 'Param'), src, b'branch', 'branch', 'a branch')
            elif n == 'Contact':
                a = e.res(s, a)
                if isnil(e, s, b):
                    iscopy(s, a, contact, 'sip.Addr', 'contact')
                else:
                    c.ensures(e, s, a.obj == b.obj, 'the contact stays', fn)
            elif n == 'To':
                a = e.res(s, a)
                if isnil(e, s, b):
                    c.ensures(e, s, isinstance(a, Ptr) and isnew(a.obj), 'a missing recipient is filled in', fn)
                    A = m.obj(s, a, 'sip.Addr')
                    c.ensures(e, s, eq(s, e.res(s, A['Uri']), old['Request']) and e.res(s, A['Next']).null is True, 'the recipient is the target', fn)
                else:
                    c.ensures(e, s, a.obj == b.obj, 'the recipient stays', fn)
            elif n == 'From':
                a = e.res(s, a)
                if isnil(e, s, b):
                    cn = e.res(s, now['Contact'])
                    iscopy(s, a, cn, 'sip.Addr', 'sender', ('Param', 'Uri.Param'))
                    src = m.obj(s, cn, 'sip.Addr')['Param']
                else:
                    c.ensures(e, s, a.obj == b.obj, 'the sender stays', fn)
                    for k, x in m.obj(s, a, 'sip.Addr').items():
                        if k != 'Param':
                            c.ensures(e, s, eq(s, x, m.obj(initial(e, s), b, 'sip.Addr')[k]), 'the sender stays (%s)' % k, fn)
                    src = m.obj(initial(e, s), b, 'sip.Addr')['Param']
                param(s, m.get(s, a, 'sip.Addr', 'Param'), src, b'tag', 'tag', 'a tag')
            else:
                c.ensures(e, s, eq(s, a, b), 'other parts stay as they are (%s)' % n, fn)
        return True
    for o in c.call(e, fn, [via, contact, msg], st):
        allowed = ['msg^', 'msg.Via^', 'msg.From^']
        frame(c, e, o, fn, allowed, 'templates and everything else the message refers to stay as they are')
        for s, resp in ev(e, o, lambda s: B(e, s, lcmp('>', v0.f[fl.index('Status')], 0))):
            seen.add(resp)
            ev(e, s, check, o, resp)
    c.obligation(seen >= {True, False, 'a tag', 'no a tag', 'a branch', 'no a branch'}, 'vacuity guard: all cases occur', str(seen))
