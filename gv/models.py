"""Assumed contracts of built-ins and of the standard library (the trusted base)."""
import z3
from .vals import *
from . import vals as V
from .exec import Inline, Fork, strterm, AXIOMS, STR
from .ir import MOD

TRUSTED = {}


def reg(d, name, doc):
    def w(f):
        d[name] = f
        TRUSTED[name] = doc
        return f
    return w


M = {}


def vlen(e, st, x):
    x = e.res(st, x)
    if isinstance(x, Rope):
        return rlen(x)
    if isinstance(x, SliceV):
        return x.len
    if isinstance(x, Ptr) and x.null is True:
        return 0
    if isinstance(x, ArrV):
        return len(x.e)
    if isinstance(x, Ptr):
        o = e.objval(st, x.obj)
        if isinstance(o, MapV):
            return len(o.d)
    raise Unsupported('len of %r' % (x,))


@reg(M, 'len', 'built-in')
def _(e, st, a, ins):
    return vlen(e, st, a[0])


@reg(M, 'cap', 'built-in')
def _(e, st, a, ins):
    x = e.res(st, a[0])
    return x.cap if isinstance(x, SliceV) else 0


@reg(M, 'close', 'built-in')
def _(e, st, a, ins):
    st.trace.append(('close', a[0]))


@reg(M, 'ssa:wrapnilchk', 'built-in')
def _(e, st, a, ins):
    e.nonnil(st, a[0])
    return a[0]


def isbytes(e, t):
    r = e.p.u(t)
    if r['k'] != 'slice':
        return False
    q = e.p.u(r['e'])
    return q['k'] == 'basic' and q['name'] in ('byte', 'uint8')


@reg(M, 'append', 'built-in')
def _(e, st, a, ins):
    s, x = e.res(st, a[0]), e.res(st, a[1])
    if isinstance(s, Ptr):
        s = NILSLICE
    if isinstance(x, Ptr):
        x = NILSLICE
    if isbytes(e, ins['t']):
        add = x if isinstance(x, Rope) else e.slice_rope(st, x)
        n = rlen(add)
        L = ladd(s.len, n)
        fits = lcmp('<=', L, s.cap)
        d = e.decide(st, fits)
        if d is None:
            raise Fork(fits)
        if d and s.obj is not None:
            o = e.getpath(st, e.objval(st, s.obj), s.path)
            if isinstance(o, BytesObj):
                dec = lambda c: e.decide(st, c)
                have = rlen(o.rope)
                end = ladd(s.off, s.len)
                pre = rslice(o.rope, 0, end, dec)
                end2 = ladd(end, n)
                more = e.decide(st, lcmp('<=', have, end2))
                post = EMPTY
                if more is False:
                    post = rslice(o.rope, end2, have, dec)
                elif more is None:
                    post = rapp('unknown', '%s#%d' % (s.obj, st.n))   # overwritten tail: unknown
                st.heap[s.obj] = e.setpath(st, e.objval(st, s.obj), s.path, BytesObj(rcat(pre, add, post), o.size, o.ro)) \
                    if s.path else BytesObj(rcat(pre, add, post), o.size, o.ro)
                return SliceV(s.obj, s.off, L, s.cap, s.path)
            if isinstance(o, ArrV):
                new = list(o.e)
                bs = rope_bytes(add)
                if bs is None or not isinstance(s.off, int):
                    raise Unsupported('append to array')
                for i, b in enumerate(bs):
                    new[s.off + s.len + i] = b
                st.heap[s.obj] = e.setpath(st, e.objval(st, s.obj), s.path, ArrV(new))
                return SliceV(s.obj, s.off, L, s.cap, s.path)
        if d and L == 0:
            return s
        rope = rcat(e.slice_rope(st, s), add)
        st.n += 1
        cap = ladd(L, atom('grow#%d' % st.n, 0, V.MAXLEN))
        return e.new_bytes(st, rope, cap)
    # general slices of concrete length
    ys = seq_elems(e, st, x)
    xs = seq_elems(e, st, s)
    d = e.decide(st, lcmp('<=', len(xs) + len(ys), s.cap))
    if not ys:
        return s
    if d and s.obj is not None:
        o = e.getpath(st, e.objval(st, s.obj), s.path)
        new = list(o.e)
        for i, v in enumerate(ys):
            new[s.off + s.len + i] = v
        st.heap[s.obj] = e.setpath(st, e.objval(st, s.obj), s.path, ArrV(new))
        return SliceV(s.obj, s.off, s.len + len(ys), s.cap, s.path)
    o = e.alloc(st, ArrV(xs + ys), 'append')
    return SliceV(o, 0, len(xs) + len(ys), len(xs) + len(ys))


def rope_bytes(r):
    out = []
    for s in r:
        if s[0] == 'L':
            out += list(s[1])
        elif s[0] == 'B':
            out.append(s[1])
        else:
            return None
    return out


def seq_elems(e, st, s):
    s = e.res(st, s)
    if isinstance(s, Ptr) or s.len == 0:
        return []
    o = e.getpath(st, e.objval(st, s.obj), s.path)
    if not isinstance(o, ArrV) or not isinstance(s.off, int) or not isinstance(s.len, int):
        raise Unsupported('elements of %r' % (s,))
    return list(o.e[s.off:s.off + s.len])


@reg(M, 'copy', 'built-in')
def _(e, st, a, ins):
    d, s = e.res(st, a[0]), e.res(st, a[1])
    src = s if isinstance(s, Rope) else e.slice_rope(st, s)
    n = rlen(src)
    if d.len == n:
        c = True
    else:
        c = lcmp('<=', n, d.len)
    dd = e.decide(st, c)
    if dd is None:
        raise Fork(c)
    if not dd:
        src = rslice(src, 0, d.len, lambda c: e.decide(st, c))
        n = d.len
    if n == 0:
        return 0
    o = e.getpath(st, e.objval(st, d.obj), d.path)
    if isinstance(o, ArrV):
        bs = rope_bytes(src)
        new = list(o.e)
        for i, b in enumerate(bs):
            new[d.off + i] = b
        st.heap[d.obj] = e.setpath(st, e.objval(st, d.obj), d.path, ArrV(new))
        return n
    dec = lambda c: e.decide(st, c)
    pre = rslice(o.rope, 0, d.off, dec)
    have = rlen(o.rope)
    end = ladd(d.off, n)
    post = rslice(o.rope, end, have, dec) if e.decide(st, lcmp('<', end, have)) else EMPTY
    st.heap[d.obj] = BytesObj(rcat(pre, src, post), o.size, o.ro)
    return n


# ---------------------------------------------------------------- bytes.Buffer
def buf(e, st, p):
    p = e.res(st, p)
    e.nonnil(st, p)
    b = e.getpath(st, e.objval(st, p.obj), p.path)
    if not isinstance(b, BufV):
        raise Unsupported('buffer %r' % (b,))
    return p, b


def bufset(e, st, p, r):
    st.heap[p.obj] = e.setpath(st, e.objval(st, p.obj), p.path, BufV(r))


@reg(M, '(*bytes.Buffer).WriteByte', 'appends the byte, nil error')
def _(e, st, a, ins):
    p, b = buf(e, st, a[0])
    bufset(e, st, p, rcat(b.rope, mkrope([('B', a[1])])))
    return NILIFACE


@reg(M, '(*bytes.Buffer).WriteString', 'appends the text, nil error')
def _(e, st, a, ins):
    p, b = buf(e, st, a[0])
    r = e.res(st, a[1])
    bufset(e, st, p, rcat(b.rope, r))
    return TupleV([rlen(r), NILIFACE])


@reg(M, '(*bytes.Buffer).Write', 'appends the bytes, nil error')
def _(e, st, a, ins):
    p, b = buf(e, st, a[0])
    r = e.slice_rope(st, a[1])
    bufset(e, st, p, rcat(b.rope, r))
    return TupleV([rlen(r), NILIFACE])


@reg(M, '(*bytes.Buffer).String', 'the unread contents')
def _(e, st, a, ins):
    return buf(e, st, a[0])[1].rope


@reg(M, '(*bytes.Buffer).Bytes', 'the unread contents')
def _(e, st, a, ins):
    return e.new_bytes(st, buf(e, st, a[0])[1].rope)


@reg(M, '(*bytes.Buffer).Len', 'length of the contents')
def _(e, st, a, ins):
    return rlen(buf(e, st, a[0])[1].rope)


@reg(M, '(*bytes.Buffer).Reset', 'empties the buffer')
def _(e, st, a, ins):
    p, b = buf(e, st, a[0])
    bufset(e, st, p, EMPTY)


# ---------------------------------------------------------------- errors, fmt, log
def ekey(x):
    return repr(x)


for n in ('strings.Repeat', 'bytes.Repeat'):
    @reg(M, n, 'that many copies')
    def _(e, st, a, ins, n=n):
        r = e.res(st, a[0])
        r = r if isinstance(r, Rope) else e.slice_rope(st, r)
        k = a[1]
        e.prove(st, lcmp('>=', k, 0), 'Repeat count is not negative', 'bounds')
        if isinstance(k, int):
            r = rcat(*([r] * k))
        elif len(r) == 1 and r[0][0] == 'L' and len(r[0][1]) == 1:
            r = rep(r[0][1], k)
        else:
            r = rapp('repeat', r, k)
        return e.new_bytes(st, r) if n.startswith('bytes') else r


def rep(b, k):
    return EMPTY if k == 0 else rapp('rep', b, k)


@reg(M, 'errors.New', 'a fresh non-nil error with that text')
def _(e, st, a, ins):
    o = e.alloc(st, StructV([a[0]]), 'error')
    return Iface(e.p.tid.get('*errors.errorString', -1), Ptr(o))


def deepargs(e, st, v):
    """Variadic interface arguments as a key."""
    try:
        return [repr(x.v if isinstance(x, Iface) else x) for x in seq_elems(e, st, v)]
    except Unsupported:
        return [repr(v)]


for n in ('WriteByte', 'WriteString', 'Write', 'String', 'Len', 'Reset'):
    M['(*strings.Builder).' + n] = M['(*bytes.Buffer).' + n]
    TRUSTED['(*strings.Builder).' + n] = TRUSTED['(*bytes.Buffer).' + n]


# ---------------------------------------------------------------- encoding/binary
def byteorder(n, big):
    def get(e, st, a, ins):
        s = e.res(st, a[1])
        if not isinstance(s, SliceV):
            raise Unsupported('bytes %r' % (s,))
        e.inrange(st, n - 1, s.len)
        bs = [e.load(st, Ptr(s.obj, s.path + (ladd(s.off, i),))) for i in range(n)]
        bs = bs if big else bs[::-1]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'big')
        return z3.simplify(z3.Concat(*[z3.BitVecVal(b, 8) if isinstance(b, int) else b.bv(8) if isinstance(b, FB) else b for b in bs]))

    def put(e, st, a, ins):
        s, v = e.res(st, a[1]), a[2]
        if not isinstance(s, SliceV):
            raise Unsupported('bytes %r' % (s,))
        e.inrange(st, n - 1, s.len)
        for i in range(n):
            k = 8 * (n - 1 - i if big else i)
            b = v >> k & 255 if isinstance(v, int) else z3.simplify(z3.Extract(k + 7, k, v))
            e.store(st, Ptr(s.obj, s.path + (ladd(s.off, i),)), b.as_long() if z3.is_bv_value(b) else b)
        return None
    return get, put


for order in ('big', 'little'):
    for n in (2, 4, 8):
        for k, f in zip(('Uint%d', 'PutUint%d'), byteorder(n, order == 'big')):
            reg(M, '(encoding/binary.%sEndian).%s' % (order, k % (8 * n)), 'reads or writes the bytes in that order; the slice must be long enough')(f)


def text(e, st, x):
    """The bytes of a constant text."""
    r = e.res(st, x)
    r = e.slice_rope(st, r) if isinstance(r, SliceV) else r
    if not isinstance(r, Rope) or any(x[0] != 'L' for x in r):
        raise Unsupported('a search in %r' % (r,))
    return b''.join(x[1] for x in r)


def position(e, st, a, ins):
    """Least position of a byte in a constant text."""
    c = a[1]
    for i, b in enumerate(text(e, st, a[0])):
        if isinstance(c, FB):
            q = FBool(c.id, mask_of(lambda v: c.tab[v] == b))
        elif isinstance(c, int):
            q = c == b
        else:
            q = c == z3.BitVecVal(b, c.size()) if z3.is_bv(c) else lcmp('==', c, b)
        d = e.decide(st, q)
        if d is None:
            raise Fork(q)
        if d:
            return i
    return -1


for n in ('strings.IndexByte', 'bytes.IndexByte'):
    reg(M, n, 'least position of the byte or -1 (in a constant text)')(position)


def ascii(e, st, a, ins):
    if any(b > 127 for b in text(e, st, a[0])):
        raise Unsupported('a search for a character beyond ASCII')
    return position(e, st, a, ins)


reg(M, 'strings.IndexRune', 'least position of the character or -1 (in a constant ASCII text)')(ascii)
reg(M, 'strings.ContainsRune', 'whether the character occurs (in a constant ASCII text)')(lambda e, st, a, ins: ascii(e, st, a, ins) >= 0)


def sprintf(e, st, f, args):
    """The text for the plain verbs, None when there are others."""
    if len(f) > 1 or f and f[0][0] != 'L':
        return None
    f = f[0][1] if f else b''
    try:
        xs = [e.res(st, x) for x in seq_elems(e, st, args)]
    except Unsupported:
        return None
    out, i = [], 0
    while i < len(f):
        j = f.find(b'%', i)
        if j < 0:
            out.append(rlit(f[i:]))
            break
        out.append(rlit(f[i:j]))
        v = f[j + 1:j + 2]
        i = j + 2
        if v == b'%':
            out.append(rlit(b'%'))
            continue
        if not xs or v not in (b'd', b's', b'v', b'x'):
            return None
        x = xs.pop(0)
        if v == b'x':
            x = e.res(st, x.v) if isinstance(x, Iface) and x.t is not None else x
            h = e.models.get('encoding/hex.EncodeToString')
            if h is None or not isinstance(x, SliceV):
                return None
            out.append(h(e, st, [x], None))
            continue
        ty = e.p.u(x.t) if isinstance(x, Iface) and x.t is not None else {}
        x = e.res(st, x.v) if isinstance(x, Iface) and x.t is not None else x
        if (isinstance(x, FB) or z3.is_bv(x)) and ty.get('name') in ('uint8', 'byte', 'uint16', 'int16', 'uint32', 'int32', 'int8') and v in (b'd', b'v'):
            x = e.conv_int(x, ty['name'], 'int')
        if isinstance(x, int) and not isinstance(x, bool):
            out.append(rlit(b'%d' % x))
        elif isinstance(x, Lin) and v in (b'd', b'v'):
            out.append(Rope((('D', x),)))
        elif isinstance(x, Rope) and v in (b's', b'v'):
            out.append(x)
        elif isinstance(x, SliceV) and v == b's':
            try:
                out.append(e.slice_rope(st, x))
            except Exception:
                return None
        else:
            return None
    return rcat(*out) if not xs else None


@reg(M, 'fmt.Sprintf', 'the text for %d %s %v of numbers and text, otherwise some text determined by its arguments; never fails')
def _(e, st, a, ins):
    r = sprintf(e, st, e.res(st, a[0]), a[1])
    if r is not None:
        return r
    return ratom('sprintf(%r;%s)' % (a[0], ','.join(deepargs(e, st, a[1]))))


@reg(M, 'strings.Join', 'the texts with the separator between them')
def _(e, st, a, ins):
    xs = [e.res(st, x) for x in seq_elems(e, st, e.res(st, a[0]))]
    out = EMPTY
    for i, x in enumerate(xs):
        out = rcat(out, e.res(st, a[1]), x) if i else x
    return out


@reg(M, 'fmt.Fprintf', 'writes that text; a buffer does not fail')
def _(e, st, a, ins):
    w = e.res(st, a[0])
    r = M['fmt.Sprintf'](e, st, a[1:], ins)
    p, b = buf(e, st, w.v if isinstance(w, Iface) and w.t is not None else w)
    bufset(e, st, p, rcat(b.rope, r))
    return TupleV([rlen(r), NILIFACE])


@reg(M, 'fmt.Sprint', 'some text determined by its arguments; never fails')
def _(e, st, a, ins):
    return ratom('sprint(%s)' % ','.join(deepargs(e, st, a[0])))


@reg(M, 'fmt.Errorf', 'a fresh non-nil error')
def _(e, st, a, ins):
    o = e.alloc(st, StructV([ratom('sprintf(%r;%s)' % (a[0], ','.join(deepargs(e, st, a[1]))))]), 'error')
    return Iface(e.p.tid.get('*errors.errorString', -1), Ptr(o))


for n in ('log.Println', 'log.Printf', 'log.Print', 'fmt.Println', 'fmt.Printf', '(*log.Logger).Printf', '(*log.Logger).Println'):
    @reg(M, n, 'output only')
    def _(e, st, a, ins):
        return None


# ---------------------------------------------------------------- strings, strconv
def colon(e, st, r):
    """Condition that the rope contains ':'."""
    c = False
    for s in r:
        if s[0] == 'L':
            x = b':' in s[1]
        elif s[0] == 'A':
            m = e.atommask.get(s[1], V.ALL)
            x = z3.Bool('colon:%s' % (skey(s),)) if m >> 58 & 1 else False
            if x is not False:
                k = 'colon0:%s' % skey(s)
                if k not in AXIOMS:
                    AXIOMS[k] = z3.Implies(x, zint(seg_len(s)) > 0)
        elif s[0] == 'I':
            x = z3.Or(z3.And(s[1], zbool(colon(e, st, s[2]))), z3.And(z3.Not(s[1]), zbool(colon(e, st, s[3]))))
        elif s[0] == 'D':
            x = False
        elif s[0] == 'B':
            x = e.equal(st, s[1], 58, None)
        else:
            x = z3.Bool('colon:%s' % (skey(s),))
        c = x if c is False else c if x is False else True if (c is True or x is True) else z3.Or(zbool(c), zbool(x))
    return c


@reg(M, 'strings.Contains', 'whether the substring occurs')
def _(e, st, a, ins):
    s, sub = e.res(st, a[0]), e.res(st, a[1])
    if sub == rlit(b':'):
        return colon(e, st, s)
    if all(x[0] == 'L' for x in s) and all(x[0] == 'L' for x in sub):
        return b''.join(x[1] for x in sub) in b''.join(x[1] for x in s)
    return z3.Bool('contains(%r,%r)' % (s, sub))


@reg(M, 'strings.Index', 'least position of the substring or -1')
def _(e, st, a, ins):
    s, sub = e.res(st, a[0]), e.res(st, a[1])
    if all(x[0] == 'L' for x in s) and all(x[0] == 'L' for x in sub):
        return b''.join(x[1] for x in s).find(b''.join(x[1] for x in sub))
    n = 'index(%r,%r)' % (s, sub)
    v = atom(n, -1, V.MAXLEN)
    k = 'ax:' + n
    if k not in AXIOMS:
        AXIOMS[k] = zint(v) <= zint(rlen(s))
        if sub == rlit(b':'):
            AXIOMS[k + 'c'] = (zint(v) >= 0) == zbool(colon(e, st, s))
    return v


@reg(M, 'strings.EqualFold', 'equality under ASCII case folding (names here are ASCII)')
def _(e, st, a, ins):
    s, t = e.res(st, a[0]), e.res(st, a[1])
    if s == t:
        return True
    if all(x[0] == 'L' for x in s) and all(x[0] == 'L' for x in t):
        return b''.join(x[1] for x in s).lower() == b''.join(x[1] for x in t).lower()
    return foldeq(s, t)


def foldeq(s, t):
    if len(s) and s[0][0] == 'L' and len(s) == 1:
        s, t = t, s
    if len(t) == 1 and t[0][0] == 'L':
        c = z3.Const('fold:' + repr(t[0][1].lower()), STR)
        FOLDC[t[0][1].lower()] = c
        if len(FOLDC) > 1:
            AXIOMS['distinctfold'] = z3.Distinct(*FOLDC.values())
    else:
        c = z3.Const('fold:%r' % (t,), STR)
    return z3.Const('fold:%r' % (s,), STR) == c


FOLDC = {}


@reg(M, 'strings.ToLower', 'lower case')
def _(e, st, a, ins):
    s = e.res(st, a[0])
    if all(x[0] == 'L' for x in s):
        return rlit(b''.join(x[1] for x in s).lower())
    return ratom('lower(%r)' % (s,))


def digits(x):
    if isinstance(x, int):
        return rlit(str(x).encode())
    return mkrope([('D', x)])


@reg(M, 'strconv.Itoa', 'decimal digits')
def _(e, st, a, ins):
    return digits(e.res(st, a[0]))


@reg(M, 'strconv.FormatInt', 'decimal digits (base 10)')
def _(e, st, a, ins):
    if a[1] != 10:
        return ratom('fmtint(%r,%r)' % (a[0], a[1]))
    return digits(e.res(st, a[0]))


@reg(M, 'strconv.FormatUint', 'decimal digits (base 10)')
def _(e, st, a, ins):
    if a[1] != 10:
        return ratom('fmtuint(%r,%r)' % (a[0], a[1]))
    return digits(e.as_lin(e.res(st, a[0])))


def errval(e, st, name):
    return SymIface(name, z3.Bool(name + '==nil'))


@reg(M, 'strconv.Atoi', 'the number, or an error and no meaning')
def _(e, st, a, ins):
    n = 'atoi(%r)' % (a[0],)
    return TupleV([atom(n, -(1 << 63), (1 << 63) - 1), errval(e, st, n + '.err')])


@reg(M, 'strconv.ParseUint', 'the number below 2^bits, or an error')
def _(e, st, a, ins):
    n = 'parseuint(%r,%r,%r)' % tuple(a)
    v = z3.BitVec(n, 64)
    err = errval(e, st, n + '.err')
    if isinstance(a[2], int) and a[2] < 64 and a[2] > 0:
        AXIOMS['ax:' + n] = z3.ULT(v, z3.BitVecVal(1 << a[2], 64))
    return TupleV([v, err])


@reg(M, 'math.Pow', 'some float')
def _(e, st, a, ins):
    return z3.FP('pow(%s)' % (a,), z3.Float64())


@reg(M, 'math.Sqrt', 'some float')
def _(e, st, a, ins):
    st.n += 1
    return z3.FP('sqrt#%d' % st.n, z3.Float64())


@reg(M, 'math.Log', 'some float')
def _(e, st, a, ins):
    st.n += 1
    return z3.FP('log#%d' % st.n, z3.Float64())
