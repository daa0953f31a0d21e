"""Symbolic values: integers, bytes, ropes (strings), pointers, aggregates."""
import z3

MAXLEN = 1 << 40


class Unsupported(Exception):
    pass


class Fork(Exception):
    """The current instruction needs this condition to be decided."""
    def __init__(self, cond):
        self.cond = cond


# ---------------------------------------------------------------- z3 helpers
_keep = {}


def zid(e):
    i = e.get_id()
    _keep[i] = e
    return i


# ---------------------------------------------------------------- integers
class AtomInfo:
    __slots__ = ('name', 'expr', 'lo', 'hi', 'meta')

    def __init__(self, name, expr, lo, hi, meta=None):
        self.name, self.expr, self.lo, self.hi, self.meta = name, expr, lo, hi, meta


ATOMS = {}


def atom(name, lo=None, hi=None, expr=None, meta=None):
    a = ATOMS.get(name)
    if a is None:
        a = AtomInfo(name, expr if expr is not None else z3.Int(name), lo, hi, meta)
        ATOMS[name] = a
    return Lin(0, ((name, 1),))


class Lin:
    """c + sum of coefficient * atom, over the mathematical integers."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t=()):
        self.c, self.t = c, t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.t))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = ' + '.join((n if k == 1 else '%d*%s' % (k, n)) for n, k in self.t)
        if self.c or not s:
            s = (s + ' + ' if s else '') + str(self.c)
        return s

    def bounds(self):
        lo = hi = self.c
        for n, k in self.t:
            a = ATOMS[n]
            l, h = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    def z3(self):
        e = z3.IntVal(self.c)
        for n, k in self.t:
            x = ATOMS[n].expr
            e = e + (x if k == 1 else k * x)
        return e


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return Lin(x)
    if isinstance(x, FB):
        return x.lin()
    if isinstance(x, z3.ArithRef):
        return lin_of_z3(x)
    raise Unsupported('not an integer: %r' % (x,))


def lin_of_z3(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return Lin(e.as_long())
    if z3.is_const(e) and e.decl().name() in ATOMS:
        return Lin(0, ((e.decl().name(), 1),))
    name = 'z3:' + str(zid(e))
    return atom(name, expr=e)


def norm(x):
    return x.c if isinstance(x, Lin) and not x.t else x


def ladd(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    a, b = lin(a), lin(b)
    d = dict(a.t)
    for n, k in b.t:
        v = d.get(n, 0) + kb * k
        if v:
            d[n] = v
        else:
            d.pop(n, None)
    return norm(Lin(a.c + kb * b.c, tuple(sorted(d.items()))))


def lsub(a, b):
    return ladd(a, b, -1)


def lmulc(a, k):
    if isinstance(a, int):
        return a * k
    a = lin(a)
    if k == 0:
        return 0
    return norm(Lin(a.c * k, tuple((n, v * k) for n, v in a.t)))


def lsubst(a, m):
    """Substitutes atoms by integers/Lins."""
    if not isinstance(a, Lin):
        return a
    r = a.c
    for n, k in a.t:
        r = ladd(r, m[n] if n in m else Lin(0, ((n, 1),)), k)
    return r


def zint(x):
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    return lin(x).z3()


# ---------------------------------------------------------------- bytes
ALL = (1 << 256) - 1
SB_INFO = {}


def mask_of(pred):
    m = 0
    for b in range(256):
        if pred(b):
            m |= 1 << b
    return m


def mask_bytes(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


def mask_list(m):
    return [b for b in range(256) if m >> b & 1]


IDENT = tuple(range(256))


def mask_z3(e, mask):
    """z3 condition that the 8-bit term e is in mask."""
    if mask == ALL:
        return z3.BoolVal(True)
    if mask == 0:
        return z3.BoolVal(False)
    rs, b = [], 0
    while b < 256:
        if mask >> b & 1:
            a = b
            while b < 255 and mask >> (b + 1) & 1:
                b += 1
            rs.append((a, b))
        b += 1
    cs = []
    for a, b in rs:
        if a == b:
            cs.append(e == a)
        elif a == 0:
            cs.append(z3.ULE(e, b))
        elif b == 255:
            cs.append(z3.UGE(e, a))
        else:
            cs.append(z3.And(z3.UGE(e, a), z3.ULE(e, b)))
    return z3.Or(*cs) if len(cs) > 1 else cs[0]


_bw = {}


def bitwise(tab, w):
    """Per output bit: None (0), True (1), k (bit k of the input), -k-1 (its complement); or None."""
    r = _bw.get((tab, w), 0)
    if r != 0:
        return r
    cols = [mask_of(lambda b, k=k: b >> k & 1) for k in range(8)]
    out = []
    for i in range(w):
        m = mask_of(lambda b: tab[b] >> i & 1)
        if m == 0:
            out.append(None)
        elif m == ALL:
            out.append(True)
        elif m in cols:
            out.append(cols.index(m))
        elif (ALL & ~m) in cols:
            out.append(-cols.index(ALL & ~m) - 1)
        else:
            out = None
            break
    _bw[(tab, w)] = out
    return out


class FB:
    """A function of one symbolic byte, given by its table of 256 integers."""
    __slots__ = ('id', 'tab', '_expr')

    def __init__(self, id, tab=IDENT, expr=None):
        self.id, self.tab, self._expr = id, tab, expr

    def __eq__(self, o):
        return isinstance(o, FB) and self.id == o.id and self.tab == o.tab

    def __hash__(self):
        return hash((self.id, self.tab))

    def __repr__(self):
        return 'FB(%s)' % self.id if self.tab == IDENT else 'FB(%s,%x)' % (self.id, hash(self.tab) & 0xffffffffffff)

    def var(self):
        return z3.BitVec('sb_' + self.id, 8)

    def lin(self):
        if all(v == self.tab[0] for v in self.tab):
            return Lin(self.tab[0])
        d = self.tab[0]
        if self.tab == IDENT:
            nm = 'fb:%s' % self.id
            e = z3.BV2Int(self.var())
            return atom(nm, 0, 255, e, meta=self)
        if all(self.tab[b] - b == d for b in range(256)):
            return ladd(FB(self.id).lin(), d)
        nm = 'fb:%s:%x' % (self.id, hash(self.tab) & 0xffffffffffff)
        return lin(atom(nm, min(self.tab), max(self.tab), self._table_expr(lambda v: z3.IntVal(v)), meta=self))

    def _table_expr(self, mk):
        groups = {}
        for b, v in enumerate(self.tab):
            groups[v] = groups.get(v, 0) | 1 << b
        items = sorted(groups.items(), key=lambda kv: -bin(kv[1]).count('1'))
        e = mk(items[0][0])
        x = self.var()
        for v, m in items[1:]:
            e = z3.If(mask_z3(x, m), mk(v), e)
        return e

    def bv(self, w):
        x = self.var()
        if self.tab == IDENT:
            return x if w == 8 else z3.ZeroExt(w - 8, x)
        d = (self.tab[0]) % (1 << w)
        if all((self.tab[b] - b - d) % (1 << w) == 0 for b in range(256)):
            return (x if w == 8 else z3.ZeroExt(w - 8, x)) + d
        bits = bitwise(self.tab, w)
        if bits is not None:
            one = lambda k: z3.BitVecVal(k, 1)
            parts = []
            for k in reversed(bits):
                if k is None or k is True:
                    parts.append(one(1 if k else 0))
                elif k >= 0:
                    parts.append(z3.Extract(k, k, x))
                else:
                    parts.append(~z3.Extract(-k - 1, -k - 1, x))
            return z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        return self._table_expr(lambda v: z3.BitVecVal(v, w))

    def mapped(self, f):
        return FB(self.id, tuple(f(v) for v in self.tab))


class FBool:
    """True iff the symbolic byte is in mask."""
    __slots__ = ('id', 'mask')

    def __init__(self, id, mask):
        self.id, self.mask = id, mask

    def z3(self):
        return mask_z3(z3.BitVec('sb_' + self.id, 8), self.mask)

    def __repr__(self):
        return 'FBool(%s)' % self.id


_sbn = [0]


def fresh_sb(tag='b'):
    _sbn[0] += 1
    return FB('%s%d' % (tag, _sbn[0]))


def bv_to_lin(e, signed):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long() if signed else e.as_long()
    if e.decl().kind() == z3.Z3_OP_CONCAT and not signed:
        ch = e.children()
        if all(z3.is_bv_value(c) and c.as_long() == 0 for c in ch[:-1]):
            return bv_to_lin(ch[-1], False)
    w = e.size()
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('sb_') and not signed:
        return FB(e.decl().name()[3:]).lin()
    if e.decl().kind() == z3.Z3_OP_INT2BV and not signed:
        pass
    nm = 'bv%s:%d' % ('s' if signed else '', zid(e))
    if signed:
        return atom(nm, -(1 << (w - 1)), (1 << (w - 1)) - 1, z3.BV2Int(e, True), meta=('bv', e))
    return atom(nm, 0, (1 << w) - 1, z3.BV2Int(e), meta=('bv', e))


def to_bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, FB):
        return x.bv(w)
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, (Lin, z3.ArithRef)):
        x = lin(x)
        if len(x.t) == 1 and x.t[0][1] == 1:
            m = ATOMS[x.t[0][0]].meta
            e = None
            if isinstance(m, tuple) and m[0] == 'bv':
                e = m[1]
                if e.size() < w:
                    e = z3.SignExt(w - e.size(), e) if x.t[0][0].startswith('bvs') else z3.ZeroExt(w - e.size(), e)
                elif e.size() > w:
                    e = z3.Extract(w - 1, 0, e)
            elif isinstance(m, FB):
                e = m.bv(w)
            if e is not None:
                return e + x.c if x.c else e
        return z3.Int2BV(x.z3(), w)
    raise Unsupported('to_bv %r' % (x,))


def simp(e):
    if z3.is_expr(e):
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def zbool(c):
    if isinstance(c, bool):
        return z3.BoolVal(c)
    if isinstance(c, FBool):
        return c.z3()
    return c


def bnot(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, FBool):
        return FBool(c.id, ALL & ~c.mask)
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def band(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if isinstance(a, FBool) and isinstance(b, FBool) and a.id == b.id:
        return FBool(a.id, a.mask & b.mask)
    return z3.And(zbool(a), zbool(b))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def lcmp(op, a, b):
    """Comparison of integers -> bool | z3 Bool | FBool."""
    if isinstance(a, int) and isinstance(b, int):
        return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    d = lsub(a, b)
    if isinstance(d, int):
        return lcmp(op, d, 0)
    lo, hi = d.bounds()
    if op == '<':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == '<=':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif op in ('>', '>='):
        r = lcmp('<' if op == '>=' else '<=', a, b)
        return bnot(r)
    elif op in ('==', '!='):
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return op == '!='
    # normal form: d  op  0 with the constant on the right
    if len(d.t) == 1:
        m = ATOMS[d.t[0][0]].meta
        if isinstance(m, FB):
            k = d.t[0][1]
            mk = mask_of(lambda x: lcmp(op, k * m.tab[x] + d.c, 0))
            return True if mk == ALL else False if mk == 0 else FBool(m.id, mk)
    if op in ('==', '!='):
        if d.t[0][1] < 0:
            d = lmulc(d, -1)
        e = Lin(0, d.t).z3() == -d.c
        return e if op == '==' else z3.Not(e)
    # strict -> non-strict:  d < 0  <=>  d <= -1
    k = -d.c if op == '<=' else -d.c - 1
    # sum <= k; canonicalise sign so that x<=k and not(x>=k+1) coincide
    if d.t[0][1] < 0:
        return z3.Not(lmulc(Lin(0, d.t), -1).z3() <= -k - 1)
    return Lin(0, d.t).z3() <= k


# ---------------------------------------------------------------- ropes
def atom_len(name):
    return atom('len:' + name, 0, MAXLEN)


def seg_len(s):
    k = s[0]
    if k == 'L':
        return len(s[1])
    if k == 'B':
        return 1
    if k == 'A':
        return lsub(s[3], s[2])
    if k == 'F':
        return atom('len:%s' % (skey(s),), 0, MAXLEN)
    if k == 'D':
        return atom('len:%s' % (skey(s),), 1, 20)
    if k == 'I':
        a, b = rlen(s[2]), rlen(s[3])
        if a == b:
            return a
        return atom('len:%s' % (skey(s),), 0, MAXLEN, z3.If(s[1], zint(a), zint(b)))
    raise Unsupported(k)


_skeys = {}


def skey(s):
    """A short stable name for a segment."""
    r = repr(s if s[0] != 'I' else ('I', zid(s[1]), s[2], s[3]))
    if len(r) < 60:
        return r
    k = _skeys.get(r)
    if k is None:
        k = _skeys[r] = '%s#%d' % (r[:24], len(_skeys))
    return k


class Rope(tuple):
    __slots__ = ()

    def __repr__(self):
        return 'Rope' + tuple.__repr__(self)


EMPTY = Rope()


def mkrope(segs):
    out = []
    for s in segs:
        if s[0] == 'B' and isinstance(s[1], int):
            s = ('L', bytes([s[1]]))
        if s[0] == 'L':
            if not s[1]:
                continue
            if out and out[-1][0] == 'L':
                out[-1] = ('L', out[-1][1] + s[1])
                continue
        elif s[0] == 'A':
            if s[2] == s[3]:
                continue
            if out and out[-1][0] == 'A' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                out[-1] = ('A', s[1], out[-1][2], s[3])
                continue
        elif s[0] == 'I':
            if s[2] == s[3]:
                for x in s[2]:
                    out.append(x)
                continue
        out.append(s)
    return Rope(out)


def rlit(b):
    return Rope((('L', b),)) if b else EMPTY


def ratom(name):
    return Rope((('A', name, 0, atom_len(name)),))


def rapp(f, *args):
    return Rope((('F', f, tuple(args)),))


def rcat(*rs):
    segs = []
    for r in rs:
        if isinstance(r, bytes):
            segs.append(('L', r))
        else:
            segs.extend(r)
    return mkrope(segs)


def rite(c, a, b):
    """If-then-else of ropes, common parts factored out."""
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    c = zbool(c)
    la, lb = list(a), list(b)
    pre, post = [], []
    while la and lb:
        if la[0] == lb[0]:
            pre.append(la.pop(0))
            lb.pop(0)
        elif la[0][0] == 'L' and lb[0][0] == 'L':
            x, y = la[0][1], lb[0][1]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                break
            pre.append(('L', x[:n]))
            la[0], lb[0] = ('L', x[n:]), ('L', y[n:])
            if not la[0][1]:
                la.pop(0)
            if not lb[0][1]:
                lb.pop(0)
        else:
            break
    while la and lb:
        if la[-1] == lb[-1]:
            post.insert(0, la.pop())
            lb.pop()
        else:
            break
    return mkrope(pre + [('I', c, mkrope(la), mkrope(lb))] + post)


def rlen(r):
    n = 0
    for s in r:
        n = ladd(n, seg_len(s))
    return n


def rslice(r, lo, hi, decide=None):
    """Sub-rope [lo:hi); positions must fall at resolvable places."""
    def drop(segs, n):
        segs = list(segs)
        while True:
            if n == 0:
                return segs
            if not segs:
                raise Unsupported('slice position %r beyond rope' % (n,))
            s = segs[0]
            L = seg_len(s)
            rest = lsub(n, L)
            if rest == 0:
                return segs[1:]
            if isinstance(rest, int) and rest > 0 or (not isinstance(rest, int) and rest.bounds()[0] is not None and rest.bounds()[0] >= 0):
                segs.pop(0)
                n = rest
                continue
            if s[0] == 'L' and isinstance(n, int):
                return [('L', s[1][n:])] + segs[1:]
            if decide and decide(lcmp('>=', rest, 0)) is True:
                segs.pop(0)
                n = rest
                continue
            if s[0] == 'A':
                # inside the atom, if it can be shown
                d = lsub(L, n)
                inside = lcmp('>=', d, 0)
                if inside is not True and decide:
                    inside = decide(inside)
                if inside is True:
                    return [('A', s[1], ladd(s[2], n), s[3])] + segs[1:]
                if inside is False:
                    segs.pop(0)
                    n = rest
                    continue
                if decide and inside is not None:
                    raise Fork(lcmp('>=', d, 0))
            raise Unsupported('cannot resolve position %r in %r' % (n, s))

    tail = drop(r, lo)
    rest = drop(tail, lsub(hi, lo))
    # the part of tail before rest
    n = lsub(hi, lo)
    out = []
    segs = tail
    while n != 0:
        s = segs[0]
        L = seg_len(s)
        rem = lsub(n, L)
        if rem == 0 or (isinstance(rem, int) and rem > 0) or (not isinstance(rem, int) and rem.bounds()[0] is not None and rem.bounds()[0] >= 0):
            out.append(s)
            n = rem
            segs = segs[1:]
            continue
        if s[0] == 'L' and isinstance(n, int):
            out.append(('L', s[1][:n]))
            break
        if decide and decide(lcmp('>=', rem, 0)) is True:
            out.append(s)
            n = rem
            segs = segs[1:]
            continue
        if s[0] == 'A':
            d = lcmp('>=', lsub(L, n), 0)
            if d is not True and decide:
                d = decide(d)
            if d is True:
                out.append(('A', s[1], s[2], ladd(s[2], n)))
                break
            if d is False:
                out.append(s)
                n = rem
                segs = segs[1:]
                continue
        raise Unsupported('cannot resolve length %r in %r' % (n, s))
    return mkrope(out)


def rindex(r, i, decide=None):
    """Byte at position i: int, FB, BV, or ('elem', atom, index)."""
    for s in r:
        L = seg_len(s)
        if isinstance(i, int) and i == 0 or (lcmp('>=', i, 0) is True and lcmp('<', i, L) is True):
            inside = True
        else:
            inside = lcmp('<', i, L)
            if not isinstance(inside, bool) and decide:
                d = decide(inside)
                if d is None:
                    raise Fork(inside)
                inside = d
            if inside is not True and inside is not False:
                raise Unsupported('cannot resolve index %r' % (i,))
        if s[0] == 'A' and isinstance(i, int) and i == 0 and inside is True:
            ne = lcmp('>', L, 0)
            if ne is not True:
                d = decide(ne) if decide else None
                if d is None:
                    raise Fork(ne)
                inside = d
        if inside:
            if s[0] == 'L':
                if isinstance(i, int):
                    return s[1][i]
                raise Unsupported('symbolic index into literal')
            if s[0] == 'B':
                return s[1]
            if s[0] == 'A':
                return ('elem', s[1], ladd(s[2], i))
            if s[0] == 'I':
                raise Fork(s[1])
            raise Unsupported('index into %r' % (s,))
        i = lsub(i, L)
    raise Unsupported('index beyond rope')


# ---------------------------------------------------------------- other values
class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Ptr:
    """Pointer to a cell; null is False, True or a z3 Bool."""
    __slots__ = ('obj', 'path', 'null')

    def __init__(self, obj, path=(), null=False):
        self.obj, self.path, self.null = obj, path, null

    def key(self):
        return (self.obj, self.path, self.null if isinstance(self.null, bool) else zid(self.null))

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.null is True:
            return 'nil'
        return '&%s%s%s' % (self.obj, ''.join('.%s' % p for p in self.path), '' if self.null is False else '?')


NIL = Ptr(None, (), True)


class IteV:
    """Guarded choice of two non-scalar values."""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, IteV) and self.c.eq(o.c) and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((zid(self.c), self.a, self.b))

    def __repr__(self):
        return 'IteV(%s,%r,%r)' % (self.c, self.a, self.b)


class StructV:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = tuple(f)

    def set(self, i, v):
        l = list(self.f)
        l[i] = v
        return StructV(l)

    def __eq__(self, o):
        return isinstance(o, StructV) and all(same(a, b) for a, b in zip(self.f, o.f))

    def __hash__(self):
        return hash(len(self.f))

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self.f))


class ArrV:
    """Array with concretely many elements."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)

    def set(self, i, v):
        l = list(self.e)
        l[i] = v
        return ArrV(l)

    def __eq__(self, o):
        return isinstance(o, ArrV) and len(self.e) == len(o.e) and all(same(a, b) for a, b in zip(self.e, o.e))

    def __hash__(self):
        return hash(len(self.e))

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.e)) if len(self.e) < 12 else '[%d elems]' % len(self.e)


class BytesObj:
    """Backing array of a byte slice: its size and the part of it that is known (a prefix)."""
    __slots__ = ('rope', 'size', 'ro')

    def __init__(self, rope, size, ro=False):
        self.rope, self.size, self.ro = rope, size, ro

    def __eq__(self, o):
        return isinstance(o, BytesObj) and self.rope == o.rope and self.size == o.size

    def __hash__(self):
        return hash(self.rope)

    def __repr__(self):
        return 'Bytes(%r;%r)' % (self.rope, self.size)


class BufV:
    """bytes.Buffer with its unread contents."""
    __slots__ = ('rope',)

    def __init__(self, rope=EMPTY):
        self.rope = rope

    def __eq__(self, o):
        return isinstance(o, BufV) and self.rope == o.rope

    def __hash__(self):
        return hash(self.rope)

    def __repr__(self):
        return 'Buf(%r)' % (self.rope,)


class SeqV:
    """An abstract sequence: element i is at(e, st, i)."""
    __slots__ = ('name', 'at')

    def __init__(self, name, at):
        self.name, self.at = name, at

    def __eq__(self, o):
        return isinstance(o, SeqV) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Seq(%s)' % self.name


class SliceV:
    __slots__ = ('obj', 'off', 'len', 'cap', 'path')

    def __init__(self, obj, off, len, cap, path=()):
        self.obj, self.off, self.len, self.cap, self.path = obj, off, len, cap, path

    def __eq__(self, o):
        return isinstance(o, SliceV) and (self.obj, self.off, self.len, self.cap, self.path) == (o.obj, o.off, o.len, o.cap, o.path)

    def __hash__(self):
        return hash((self.obj, self.off, self.len))

    def __repr__(self):
        return 'Slice(%s%s[%r:+%r])' % (self.obj, self.path or '', self.off, self.len)


NILSLICE = SliceV(None, 0, 0, 0)


class Iface:
    """Interface value holding a value of a known dynamic type."""
    __slots__ = ('t', 'v')

    def __init__(self, t, v):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, Iface) and self.t == o.t and same(self.v, o.v)

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return 'Iface(%s,%r)' % (self.t, self.v)


NILIFACE = Iface(None, None)


class SymIface:
    """Interface value of unknown dynamic type; null as in Ptr."""
    __slots__ = ('name', 'null')

    def __init__(self, name, null=False):
        self.name, self.null = name, null

    def __eq__(self, o):
        return isinstance(o, SymIface) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Iface?%s' % self.name


class FuncV:
    __slots__ = ('name', 'binds')

    def __init__(self, name, binds=()):
        self.name, self.binds = name, tuple(binds)

    def __eq__(self, o):
        return isinstance(o, FuncV) and self.name == o.name and self.binds == o.binds

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Func(%s)' % self.name


class MapV:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = dict(d)

    def __repr__(self):
        return 'Map(%d)' % len(self.d)


class Opaque:
    """A value about which only its identity is known (channels, times, floats...)."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<%s>' % (self.name,)


class TupleV(tuple):
    __slots__ = ()


def same(a, b):
    """Syntactic equality of values."""
    if a is b:
        return True
    if z3.is_expr(a) or z3.is_expr(b):
        return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)
    if isinstance(a, FBool) or isinstance(b, FBool):
        return isinstance(a, FBool) and isinstance(b, FBool) and a.id == b.id and a.mask == b.mask
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    try:
        return type(a) == type(b) and a == b
    except z3.Z3Exception:
        return False
