"""C27: generated identifiers are well-formed and unguessable."""
from .common import *

REPLAY = [('util', 'TestVerifC27')]
SECS = 5
TRUSTED = {'crypto/rand.Read': 'fills the slice with fresh independent random bytes',
           'crypto/rand.Int': 'a fresh uniform number below its bound',
           'math/big': 'NewInt, Int64 and String keep the number'}

HEX = '0123456789abcdef'


def models_():
    m = {}

    def draw(e, st, n):
        st.n += 1
        k = 'rnd%d' % st.n
        out = []
        for i in range(n):
            b = V.FB('%s.%d' % (k, i))
            out.append(b)
            st.trace.append(('rnd', b.id))
        return out

    def fill(e, st, s):
        s = e.res(st, s)
        n = s.len
        if not isinstance(n, int):
            raise Unsupported('random bytes of unknown number')
        if n == 0:
            return 0
        bs = draw(e, st, n)
        o = e.getpath(st, e.objval(st, s.obj), s.path)
        if isinstance(o, BytesObj):
            dec = lambda c: e.decide(st, c)
            new = BytesObj(rcat(rslice(o.rope, 0, s.off, dec), mkrope([('B', b.lin()) for b in bs]),
                                rslice(o.rope, ladd(s.off, n), rlen(o.rope), dec)), o.size, o.ro)
        else:
            x = list(o.e)
            x[s.off:s.off + n] = [b.lin() for b in bs]
            new = ArrV(x)
        st.heap[s.obj] = e.setpath(st, e.objval(st, s.obj), s.path, new)
        return n

    def rread(e, st, a, ins):
        return TupleV([fill(e, st, a[-1]), NILIFACE])
    m['crypto/rand.Read'] = rread
    m['io.ReadFull'] = rread

    def hexenc(e, st, a, ins):
        r = e.slice_rope(st, a[0])
        return hexrope(r)
    m['encoding/hex.EncodeToString'] = hexenc
    bound = {}

    def newint(e, st, a, ins):
        return Ptr(e.alloc(st, StructV([a[0]]), 'big'), (), False)
    m['math/big.NewInt'] = newint

    def rint(e, st, a, ins):
        mx = e.load(st, e.res(st, a[1])).f[0]
        if not isinstance(mx, int) or mx <= 0:
            raise Unsupported('bound of rand.Int: %r' % (mx,))
        st.n += 1
        k = 'rndint%d' % st.n
        st.trace.append(('rnd', k))
        return TupleV([Ptr(e.alloc(st, StructV([atom(k, 0, mx - 1)]), 'big'), (), False), NILIFACE])
    m['crypto/rand.Int'] = rint
    num = lambda e, st, a, ins: e.load(st, e.res(st, a[0])).f[0]
    m['(*math/big.Int).Int64'] = m['(*math/big.Int).Uint64'] = num

    def dec(e, st, a, ins):
        x = num(e, st, a, ins)
        return Rope((('D', x),)) if not isinstance(x, int) else rlit(b'%d' % x)
    m['(*math/big.Int).String'] = dec
    return m


def tab(x):
    """-> (id of the random byte, table) of a byte of text."""
    if isinstance(x, int):
        return None, x
    if isinstance(x, V.FB):
        return x.id, x.tab
    if isinstance(x, Lin) and len(x.t) == 1:
        f = V.ATOMS[x.t[0][0]].meta
        if isinstance(f, V.FB):
            return f.id, tuple(v * x.t[0][1] + x.c for v in f.tab)
    raise Unsupported('text byte %r' % (x,))


def chars(r):
    """Text as a list of (random byte, table) or characters."""
    out = []
    for s in r:
        if s[0] == 'L':
            out += [(None, x) for x in s[1]]
        elif s[0] == 'B':
            out.append(tab(s[1]))
        else:
            raise Unsupported('text %r' % (s,))
    return out


def hexrope(r):
    out = []
    for k, t in chars(r):
        for sh in (4, 0):
            if k is None:
                out.append(('L', HEX[t >> sh & 15].encode()))
            else:
                out.append(('B', V.FB(k, tuple(ord(HEX[v >> sh & 15]) for v in t)).lin()))
    return mkrope(out)


def verify(c):
    h = set(map(ord, HEX))
    tag = [h] * 12
    uuid = [h] * 8 + [{45}] + [h] * 4 + [{45}, {ord('4')}] + [h] * 3 + [{45}, set(map(ord, '89ab'))] + [h] * 3 + [{45}] + [h] * 12
    c.section('GenerateTag', text, c, 'util.GenerateTag', lambda cs: check(cs, tag))
    c.section('GenerateBranch', text, c, 'util.GenerateBranch', lambda cs: bytes(x if k is None else 0 for k, x in cs[:7]) == b'z9hG4bK' and
              check(cs[-12:], tag) and all(k is None and chr(x).isalnum() or chr(x) in '-._' for k, x in cs[7:-12]))
    c.section('GenerateCallID', text, c, 'util.GenerateCallID', lambda cs: check(cs, uuid))
    c.section('GenerateCSeq', number, c, 'util.GenerateCSeq', 49999, False)
    c.section('GenerateOriginID', number, c, 'util.GenerateOriginID', (1 << 32) - 1, True)


def check(cs, form):
    return len(cs) == len(form) and all((set(t) if k is not None else {t}) <= f for (k, t), f in zip(cs, form))


def text(c, fn, form):
    e = c.engine(fn, {}, models_())
    for o in c.call(e, fn, []):
        cs = chars(o.result)
        c.ensures(e, o, form(cs), 'has its prescribed form: %r' % (o.result,) if not form(cs) else 'has its prescribed form', fn)
        drawn = [x[1] for x in o.trace if x[0] == 'rnd']
        c.ensures(e, o, len(drawn) > 0 and all(k is None or k in drawn for k, t in cs), 'is made of randomness drawn in this call', fn)
        for b in drawn:
            ts = [t for k, t in cs if k == b]
            inj = len({tuple(t[v] for t in ts) for v in range(256)}) == 256
            c.ensures(e, o, inj, 'is an injective function of random byte %s' % b, fn)


def number(c, fn, top, decimal):
    e = c.engine(fn, {}, models_())
    for o in c.call(e, fn, []):
        r = o.result
        if decimal:
            c.ensures(e, o, isinstance(r, Rope) and len(r) == 1 and r[0][0] == 'D', 'is a decimal number', fn)
            r = r[0][1]
        drawn = [x[1] for x in o.trace if x[0] == 'rnd']
        r = V.lin(r)
        c.ensures(e, o, lcmp('>=', r, 0), 'is not negative', fn)
        c.ensures(e, o, lcmp('<=', r, top), 'is at most %d' % top, fn)
        c.ensures(e, o, len(drawn) == 1 and len(r.t) == 1 and r.t[0][0] == drawn[0], 'is an injective function of one number drawn in this call', fn)
