"""C19: messages are routed to the right next hop."""
from .common import *
from .lists import *

REPLAY = [('dialog', 'TestVerifC19')]
ASSUME = ['lists are finite and acyclic', 'the addresses of a message have a URI, a request has a target (types: "never nil")',
          'route headers and messages do not share nodes']
TRUSTED = ['net.ParseIP yields nil exactly when the host is no literal IP address', 'net.JoinHostPort joins host and port']


def verify(c):
    L = Lists(c.prog)
    L.discharge(c, ['(*sip.Via).Copy', '(*sip.Addr).Copy', '(*sip.Addr).Last', '(*sip.URI).Copy', '(*sip.Param).Get', '(*sip.URIParam).Get'])
    c.section('RouteMessage', route, c, L)
    c.section('RouteAddress for literal addresses', address, c, L)


def uris(e, st, m):
    """Addresses have URIs."""
    orig = e.sym
    uri = e.p.field('sip.Addr', 'Uri')
    ta = e.p.type_by_name('@sip.Addr')

    def sym(t, name):
        v = orig(t, name)
        if t == ta and isinstance(v, StructV):
            p = v.f[uri]
            v = v.set(uri, Ptr(p.obj, p.path, False))
        return v
    e.sym = sym


def route(c, L):
    fn = 'dialog.RouteMessage'
    e = c.engine(fn, L.C)
    m = Msgs(c, e)
    uris(e, None, m)
    via, contact, msg = m.ptr('via', 'sip.Via'), m.ptr('contact', 'sip.Addr'), m.ptr('msg', 'sip.Msg', False)
    st = c.state(e)
    v0 = e.objval(st, 'msg^')
    req = v0.f[m.fields('sip.Msg').index('Request')]
    e.assume(st, z3.Implies(zbool(lcmp('<=', m.get(st, msg, 'sip.Msg', 'Status'), 0)), z3.Not(req.null)))
    get, uget = L.C['(*sip.Param).Get'], L.C['(*sip.URIParam).Get']

    def samehp(s, x, y):
        return B(e, s, e.equal(s, x['Host'], y['Host'], None)) and B(e, s, to_bv(x['Port'], 16) == to_bv(y['Port'], 16))

    def port(s, u):
        p = to_bv(u['Port'], 16)
        if B(e, s, p == 0):
            return z3.BitVecVal(5061 if B(e, s, e.equal(s, u['Scheme'], rlit(b'sips'), None)) else 5060, 16)
        return p

    def spec(s):
        M = m.obj(s, msg, 'sip.Msg')
        r = {'Via': M['Via'], 'Route': M['Route'], 'Request': M['Request']}
        if B(e, s, lcmp('>', M['Status'], 0)):
            v = M['Via']
            if not isnil(e, s, via) and not isnil(e, s, v) and samehp(s, m.obj(s, via, 'sip.Via'), m.obj(s, v, 'sip.Via')):
                v = m.get(s, v, 'sip.Via', 'Next')
            r['Via'] = v
            if isnil(e, s, v):
                return 'refused', None, None, r
            V_ = m.obj(s, v, 'sip.Via')
            h, p = V_['Host'], to_bv(V_['Port'], 16)
            x = get(e, s, [V_['Param'], rlit(b'received')], None)
            if not isnil(e, s, x):
                h = m.get(s, x, 'sip.Param', 'Value')
            x = get(e, s, [V_['Param'], rlit(b'rport')], None)
            if not isnil(e, s, x):
                t = m.get(s, x, 'sip.Param', 'Value')
                if B(e, s, lcmp('>', rlen(t), 0)):
                    q = models.M['strconv.ParseUint'](e, s, [t, 10, 16], None)
                    if not isnil(e, s, q[1]):
                        return 'refused', None, None, r
                    p = z3.Extract(15, 0, to_bv(q[0], 64))
            return 'ok', h, p, r
        R = M['Route']
        if not isnil(e, s, contact) and not isnil(e, s, R):
            x, y = m.obj(s, m.get(s, contact, 'sip.Addr', 'Uri'), 'sip.URI'), m.obj(s, m.get(s, R, 'sip.Addr', 'Uri'), 'sip.URI')
            if B(e, s, e.equal(s, x['Host'], y['Host'], None)) and B(e, s, port(s, x) == port(s, y)):
                R = m.get(s, R, 'sip.Addr', 'Next')
        r['Route'] = R
        if isnil(e, s, R):
            u = m.obj(s, M['Request'], 'sip.URI')
            return 'ok', u['Host'], to_bv(u['Port'], 16), r
        if B(e, s, e.equal(s, M['Method'], rlit(b'REGISTER'), None)):
            return 'refused', None, None, r
        u = m.obj(s, m.get(s, R, 'sip.Addr', 'Uri'), 'sip.URI')
        lr = uget(e, s, [u['Param'], rlit(b'lr')], None)
        if isnil(e, s, lr):
            r['Route'] = ('strict', R)
            r['Request'] = m.get(s, R, 'sip.Addr', 'Uri')
        return 'ok', u['Host'], to_bv(u['Port'], 16), r
    kinds = {}
    for o in c.call(e, fn, [via, contact, msg], st):
        host, prt, err = o.result
        now = m.obj(o, msg, 'sip.Msg')
        for s, (k, h, p, r) in ev(e, initial(e, o), spec):
            kinds[k] = kinds.get(k, 0) + 1
            s.heap = dict(list(o.heap.items()) + [(a, b) for a, b in s.heap.items() if a not in o.heap])
            for s2, en in ev(e, s, lambda s: isnil(e, s, err)):
                c.ensures(e, s2, en == (k == 'ok'), 'refused exactly when it has no Via left, no port number in rport, or is a REGISTER with a route', fn)
                if k != 'ok' or not en:
                    continue
                c.ensures(e, s2, e.equal(s2, host, h, None), 'the next hop has the right host', fn)
                c.ensures(e, s2, to_bv(prt, 16) == p, 'the next hop has the right port', fn)
                for f in now:
                    w = r.get(f, v0.f[m.fields('sip.Msg').index(f)])
                    x = e.res(s2, now[f]) if f in r else now[f]
                    if type(w) is tuple:
                        strict(c, e, s2, m, fn, x, w[1], v0)
                        kinds['strict'] = 1
                    elif f == 'Request' and type(r['Route']) is tuple:
                        ua, ub = m.obj(s2, x, 'sip.URI'), m.obj(s2, w, 'sip.URI')
                        for n in ua:
                            c.ensures(e, s2, same_val(e, s2, ua[n], ub[n]), 'the strict router is the new target', fn)
                    else:
                        c.ensures(e, s2, V.same(x, w) or same_val(e, s2, x, w), 'the rest of the message stays as it is (%s)' % f, fn)
        allowed = ['msg^'] + [k for k in o.heap if k.startswith('last:copy:')]
        frame(c, e, o, fn, allowed)
    c.obligation({'ok', 'refused', 'strict'} <= set(kinds), 'vacuity guard: all kinds of routing occur', str(kinds))


def strict(c, e, s, m, fn, got, old, v0):
    """got = copy of the routes after old, and then the old target."""
    tgt = v0.f[m.fields('sip.Msg').index('Request')]
    for s2, end in ev(e, s, lambda s: isnil(e, s, m.get(s, old, 'sip.Addr', 'Next'))):
        if end:
            last = e.res(s2, got)
        else:
            rest = m.get(s2, old, 'sip.Addr', 'Next')
            g = e.res(s2, got)
            c.ensures(e, s2, isinstance(g, Ptr) and g.obj == 'copy:' + rest.obj, 'the remaining routes follow the strict router', fn)
            lo = [k for k in s2.heap if k.startswith('last:copy:')]
            c.ensures(e, s2, lo == ['last:copy:' + rest.obj], 'the old target is put after the last route', fn)
            if not lo:
                return
            last = e.res(s2, s2.heap[lo[0]].f[m.fields('sip.Addr').index('Next')])
        c.ensures(e, s2, isinstance(last, Ptr) and last.null is False and isnew(last.obj), 'the last route is new', fn)
        L = m.obj(s2, last, 'sip.Addr')
        c.ensures(e, s2, isinstance(e.res(s2, L['Uri']), Ptr) and e.res(s2, L['Uri']).obj == tgt.obj and e.res(s2, L['Next']).null is True, 'the old target is the last route', fn)


def address(c, L):
    fn = 'dialog.RouteAddress'

    def parseip(e, st, a, ins):
        b = z3.Bool('literal')
        o = e.alloc(st, BytesObj(ratom('ip'), 16), 'ip')
        return SliceV(o, 0, 16, 16) if B(e, st, b) else NILSLICE

    def join(e, st, a, ins):
        r = ratom('hostport')
        st.ghost['join'] = (e.res(st, a[0]), e.res(st, a[1]))
        return r

    def no(e, st, a, ins):
        c.ensures(e, st, z3.Not(z3.Bool('literal')), 'a literal address is not looked up', fn)
        raise X.PathDone()
    e = c.engine(fn, L.C, {'net.ParseIP': parseip, 'net.JoinHostPort': join, 'net.LookupSRV': no, 'net.ResolveUDPAddr': no})
    m = Msgs(c, e)
    st = c.state(e)
    port = z3.BitVec('port', 16)
    n = 0
    for o in c.call(e, fn, [ratom('host'), port, z3.Bool('srv')], st):
        if e.decide(o, z3.Bool('literal')) is not True:
            c.ensures(e, o, z3.Bool('literal'), 'other addresses are looked up', fn)
            continue
        n += 1
        r, err = o.result
        for s, (en, rn) in ev(e, o, lambda s: (isnil(e, s, err), isnil(e, s, r))):
            c.ensures(e, s, en and not rn, 'a literal address resolves', fn)
            if rn:
                continue
            R = m.obj(s, r, 'dialog.AddressRoute')
            c.ensures(e, s, e.res(s, R['Next']).null is True, 'to one address', fn)
            h, p = s.ghost.get('join', (None, None))
            c.ensures(e, s, e.equal(s, R['Address'], ratom('hostport'), None), 'made of host and port', fn)
            c.ensures(e, s, h is not None and e.equal(s, h, ratom('host'), None), 'it is exactly that address', fn)
            want = models.M['strconv.FormatInt'](e, s, [e.conv_int(z3.If(port == 0, z3.BitVecVal(5060, 16), port), 'uint16', 'int64'), 10], None)
            z = B(e, s, port == 0) if e.decide(s, port == 0) is not None else None
            if z is True:
                c.ensures(e, s, e.equal(s, p, rlit(b'5060'), None), 'port 5060 when none is given', fn)
            else:
                c.ensures(e, s, port != 0, 'the given port is used only when there is one', fn)
                w = models.M['strconv.FormatInt'](e, s, [e.conv_int(port, 'uint16', 'int64'), 10], None)
                c.ensures(e, s, e.equal(s, p, w, None), 'the given port', fn)
    c.obligation(n >= 2, 'vacuity guard: literal addresses with and without port')
