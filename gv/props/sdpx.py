"""Shared machinery of C14-C16: contracts of strings.*/strconv.* over structured text, tables written one entry at a time,
and the loop contract of sdp.Parse (what one line does to the description)."""
from .common import *
from ..exec import AXIOMS

STR_TRUST = ['strings.Split: the pieces between the separators, at least one, none contains a separator; '
             'strings.HasPrefix, strings.Index, strings.Contains: their definition; '
             'strconv.Atoi/ParseUint: the number, inverse of Itoa/FormatInt; an error for anything else']


class Table:
    """A slice backing of symbolic size: entry x is `dflt(e, st, x)` unless written."""
    def __init__(self, name, size, dflt, over=()):
        self.name, self.size, self.dflt, self.over = name, size, dflt, tuple(over)

    def __eq__(self, o):
        return isinstance(o, Table) and self.name == o.name and self.over == o.over

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Table(%s,%r)' % (self.name, self.over)


def same_index(e, st, a, b):
    c = lcmp('==', a, b)
    if isinstance(c, bool):
        return c
    d = e.decide(st, c)
    if d is None:
        raise Fork(c)
    return d


def find(e, st, t, x):
    for i, v in reversed(t.over):
        if same_index(e, st, i, x):
            return v
    return t.dflt(e, st, x)


def put(e, st, t, x, v):
    over = [(i, w) for i, w in t.over if not same_index(e, st, i, x)]
    return Table(t.name, t.size, t.dflt, over + [(x, v)])


def tables(e):
    """Teaches an engine about tables."""
    gp, sp, ap = e.getpath, e.setpath, e.models['append']

    def getpath(st, v, path):
        if isinstance(v, Table) and path:
            return e.getpath(st, find(e, st, v, path[0]), path[1:])
        return gp(st, v, path) if not path or not any(isinstance(v, k) for k in (Table,)) else gp(st, v, path)

    def setpath(st, v, path, new):
        if isinstance(v, Table) and path:
            if len(path) > 1:
                new = e.setpath(st, find(e, st, v, path[0]), path[1:], new)
            return put(e, st, v, path[0], new)
        return sp(st, v, path, new)

    def makeseq(st, ins, n, c):
        et = e.p.u(ins['t'])['e']
        z = e.zero(et)
        o = e.alloc(st, None, 'make.' + ins['n'])
        st.heap[o] = Table('zeros:' + o, c, lambda e, st, x: z)
        return SliceV(o, 0, n, c)

    def append(e, st, a, ins):
        s, x = e.res(st, a[0]), e.res(st, a[1])
        if isbytes(e, ins['t']) and not isinstance(e.heapv(st, s), Table):
            return ap(e, st, a, ins)
        if isinstance(x, SliceV) and isinstance(x.len, int) and (not isinstance(s, SliceV) or not isinstance(s.len, int) or s.obj is None or isinstance(e.heapv(st, s), Table)):
            ys = models.seq_elems(e, st, x)
            if not isinstance(s, SliceV) or s.obj is None:
                t, n, off = Table('fresh', 0, None), 0, 0
            else:
                t, n, off = e.heapv(st, s), s.len, s.off
            if not isinstance(t, Table) or off != 0:
                return ap(e, st, a, ins)
            for k, y in enumerate(ys):
                t = put(e, st, t, ladd(n, k), y)
            L = ladd(n, len(ys))
            o = e.alloc(st, Table(t.name, L, t.dflt, t.over), 'append')
            return SliceV(o, 0, L, L)
        return ap(e, st, a, ins)

    def heapv(st, s):
        return e.getpath(st, e.objval(st, s.obj), s.path) if isinstance(s, SliceV) and s.obj is not None else None
    e.heapv = heapv
    e.getpath, e.setpath, e.makeseq = getpath, setpath, makeseq
    e.models = dict(e.models)
    e.models['append'] = append
    req = e.rope_eq

    def rope_eq(st, x, y):
        r, p = (list(x), list(y)) if all(s[0] == 'L' for s in y) else (list(y), list(x))
        if isinstance(x, Rope) and isinstance(y, Rope) and all(s[0] == 'L' for s in p):
            # text against a literal: compare the known beginning
            lit = b''.join(s[1] for s in p)
            if any(s[0] == 'L' and s[1] not in lit for s in r):
                return False
            i = 0
            for s in r:
                if s[0] == 'L':
                    n = min(len(s[1]), len(lit) - i)
                    if s[1][:n] != lit[i:i + n] or n < len(s[1]):
                        return False
                    i += n
                elif s[0] == 'B':
                    if i >= len(lit):
                        return False
                    if e.decide(st, e.equal(st, s[1], lit[i], None)) is False:
                        return False
                    i += 1
                elif s[0] == 'D' and i < len(lit) and lit[i:i + 1] not in b'-0123456789':
                    return False
                else:
                    break
        return req(st, x, y)
    e.rope_eq = rope_eq
    ms = e.makeslice

    def makeslice(st, ins):
        if isbytes(e, ins['t']) and getattr(e, 'byte_tables', False):
            n, c = e.res(st, e.val(st, ins['len'])), e.res(st, e.val(st, ins['cap']))
            e.bound3(st, 0, n, c)
            return makeseq(st, ins, n, c)
        return ms(st, ins)
    e.makeslice = makeslice
    ml = e.maplookup

    def maplookup(st, x, y, ins):
        m = e.objval(st, x.obj) if isinstance(x, Ptr) and x.null is False else None
        if isinstance(m, MapV) and isinstance(y, FB):
            for k in sorted(m.d, key=repr):
                c = e.equal(st, y, k, None)
                d = e.decide(st, c)
                if d is None:
                    raise Fork(c)
                if d:
                    return TupleV([m.d[k], True]) if ins.get('commaok') else m.d[k]
            z = e.zero(e.p.u(ins['xt'])['e'])
            return TupleV([z, False]) if ins.get('commaok') else z
        return ml(st, x, y, ins)
    e.maplookup = maplookup
    return e


isbytes = models.isbytes


# ---------------------------------------------------------------- text
def mask(e, s):
    if s[0] == 'D':
        return mask_bytes(b'0123456789-')
    if s[0] == 'A':
        return e.atommask.get(s[1], V.ALL)
    if s[0] == 'F':
        return e.atommask.get(s[1], V.ALL)
    return V.ALL


mask_bytes = V.mask_bytes
CTX = {'e': None}


def whole(s):
    return s[0] == 'A' and s[2] == 0 and s[3] == V.atom_len(s[1])


def prefix(e, st, r, p):
    """Condition that text r starts with text p."""
    r, p = list(r), list(p)
    while True:
        if not p:
            return True
        if not r:
            return False if any(s[0] in 'LBD' for s in p) else unknown_prefix(r, p)
        a, b = r[0], p[0]
        if a == b:
            r.pop(0), p.pop(0)
            continue
        if a[0] == 'L' and b[0] == 'L':
            n = min(len(a[1]), len(b[1]))
            if a[1][:n] != b[1][:n]:
                return False
            r[:1] = [('L', a[1][n:])] if len(a[1]) > n else []
            p[:1] = [('L', b[1][n:])] if len(b[1]) > n else []
            continue
        if a[0] == 'B' and b[0] == 'L':
            rest = p[1:] if len(b[1]) == 1 else [('L', b[1][1:])] + p[1:]
            c = e.equal(st, a[1], b[1][0], None)
            d = e.decide(st, c)
            if d is None:
                raise Fork(c)
            if not d:
                return False
            r, p = r[1:], rest
            continue
        if a[0] == 'D' and b[0] == 'D' and len(r) > 1 and len(p) > 1 and r[1][0] == 'L' and p[1][0] == 'L' and \
                not r[1][1][:1].isdigit() and not p[1][1][:1].isdigit():
            return band(lcmp('==', a[1], b[1]), prefix(e, st, r[1:], p[1:]))
        if a[0] == 'I':
            d = e.decide(st, a[1])
            if d is None:
                raise Fork(a[1])
            r[:1] = list(a[2] if d else a[3])
            continue
        if a[0] == 'D' and b[0] == 'L' and not (b[1][:1].isdigit() or b[1][:1] == b'-'):
            return False
        if whole(a) and b[0] == 'L':
            m = mask(e, a)
            j = next((j for j, c in enumerate(b[1]) if not m >> c & 1), None)
            if j is not None:
                # the atom must be exactly b[:j]
                rest = [('L', b[1][j:])] + p[1:]
                if len(r) == 1:
                    return False
                c = e.rope_eq(st, mkrope([a]), rlit(b[1][:j]))
                return False if c is False else band(c, prefix(e, st, r[1:], rest))
        return unknown_prefix(r, p)


def mkrope(x):
    return V.mkrope(x)


def unknown_prefix(r, p):
    r, p = mkrope(r), mkrope(p)
    n = 'prefix(%r,%r)' % (r, p)
    b = z3.Bool(n)
    if 'ax:' + n not in AXIOMS:
        AXIOMS['ax:' + n] = z3.Implies(b, zint(rlen(r)) >= zint(rlen(p)))
    return b


def index(e, st, r, sub):
    """Least position of the literal sub."""
    sub = b''.join(s[1] for s in sub) if all(s[0] == 'L' for s in sub) else None
    if not sub:
        raise Unsupported('index of computed text')
    pos = 0
    for k, s in enumerate(r):
        if s[0] == 'L':
            i = s[1].find(sub)
            if i >= 0:
                return ladd(pos, i)
            if any(s[1].endswith(sub[:j]) for j in range(1, len(sub))) and k + 1 < len(r):
                raise Unsupported('separator across pieces')
        elif s[0] in 'AD' and not mask(e, s) >> sub[0] & 1:
            pass
        elif s[0] == 'B':
            c = e.equal(st, s[1], sub[0], None)
            d = e.decide(st, c)
            if d is None:
                raise Fork(c)
            if d:
                if len(sub) > 1:
                    raise Unsupported('separator across pieces')
                return pos
        else:
            rest = mkrope(r[k:])
            n = 'index(%r,%r)' % (rest, sub)
            v = atom(n, -1, V.MAXLEN)
            if 'ax:' + n not in AXIOMS:
                AXIOMS['ax:' + n] = zint(v) + len(sub) <= zint(rlen(rest)) + (0 if len(sub) <= 1 else 0) if len(sub) == 1 else \
                    z3.Implies(zint(v) >= 0, zint(v) + len(sub) <= zint(rlen(rest)))
            if k == 0:
                return v
            d = e.decide(st, lcmp('>=', v, 0))
            if d is None:
                raise Fork(lcmp('>=', v, 0))
            return ladd(pos, v) if d else -1
        pos = ladd(pos, V.seg_len(s))
    return -1


def has(e, st, r, sub):
    return lcmp('>=', index(e, st, r, sub), 0)


def split(e, st, r, sep):
    """-> list of texts when the pieces are known, else None."""
    sep = b''.join(s[1] for s in sep)
    out, cur = [], []
    for k, s in enumerate(r):
        if s[0] == 'L':
            ps = s[1].split(sep)
            if any(s[1].endswith(sep[:j]) for j in range(1, len(sep))) and k + 1 < len(r):
                return None
            for i, p in enumerate(ps):
                if i:
                    out.append(mkrope(cur))
                    cur = []
                if p:
                    cur.append(('L', p))
        elif s[0] in 'AD' and not mask(e, s) >> sep[0] & 1:
            cur.append(s)
        elif s[0] == 'B' and e.decide(st, e.equal(st, s[1], sep[0], None)) is False:
            cur.append(s)
        else:
            return None
    return out + [mkrope(cur)]


def tokens(e, r, sep):
    """Abstract pieces: (count, piece function)."""
    key = 'split(%r,%r)' % (r, sep)
    n = atom('n:' + key, 1, V.MAXLEN)
    sb = b''.join(s[1] for s in sep)

    def at(e, st, i):
        nm = '%s[%r]' % (key, i)
        if len(sb) == 1:
            e.atommask[nm] = V.ALL & ~mask_bytes(sb)
        return ratom(nm)
    return n, at


def m_split(e, st, a, ins):
    r, sep = e.res(st, a[0]), e.res(st, a[1])
    if not isinstance(r, Rope) or not all(s[0] == 'L' for s in sep) or not sep:
        raise Unsupported('strings.Split of %r' % (r,))
    ps = split(e, st, r, sep)
    if ps is not None:
        o = e.alloc(st, ArrV(ps), 'split')
        return SliceV(o, 0, len(ps), len(ps))
    n, at = tokens(e, r, sep)
    if getattr(e, 'on_split', None):
        v = e.on_split(st, r, sep, n)
        if v is not None:
            return v
    o = e.alloc(st, SeqV('split', at), 'split')
    return SliceV(o, 0, n, n)


def m_prefix(e, st, a, ins):
    return prefix(e, st, e.res(st, a[0]), e.res(st, a[1]))


def m_trimprefix(e, st, a, ins):
    r, p = e.res(st, a[0]), e.res(st, a[1])
    c = prefix(e, st, r, p)
    d = e.decide(st, c)
    if d is None:
        raise Fork(c)
    return rslice(r, rlen(p), rlen(r), lambda c: e.decide(st, c)) if d else r


def m_cutprefix(e, st, a, ins):
    r, p = e.res(st, a[0]), e.res(st, a[1])
    c = prefix(e, st, r, p)
    d = e.decide(st, c)
    if d is None:
        raise Fork(c)
    return TupleV([rslice(r, rlen(p), rlen(r), lambda c: e.decide(st, c)) if d else r, d])


def m_index(e, st, a, ins):
    return index(e, st, e.res(st, a[0]), e.res(st, a[1]))


def m_indexbyte(e, st, a, ins):
    b = e.res(st, a[1])
    if not isinstance(b, int):
        raise Unsupported('index of unknown byte')
    return index(e, st, e.res(st, a[0]), rlit(bytes([b])))


def m_contains(e, st, a, ins):
    return has(e, st, e.res(st, a[0]), e.res(st, a[1]))


def m_cut(e, st, a, ins):
    r, sep = e.res(st, a[0]), e.res(st, a[1])
    i = index(e, st, r, sep)
    c = lcmp('>=', i, 0)
    d = e.decide(st, c)
    if d is None:
        raise Fork(c)
    dec = lambda c: e.decide(st, c)
    if d:
        return TupleV([rslice(r, 0, i, dec), rslice(r, ladd(i, rlen(sep)), rlen(r), dec), True])
    return TupleV([r, EMPTY, False])


NILERR = Iface(None, None)


def number(r):
    if len(r) == 1 and r[0][0] == 'D':
        return r[0][1]
    if all(s[0] == 'L' for s in r) and b''.join(s[1] for s in r).isdigit():
        return int(b''.join(s[1] for s in r))
    return None


def m_atoi(e, st, a, ins):
    r = e.res(st, a[0])
    v = number(r)
    if v is not None:
        return TupleV([v, NILERR])
    n = 'atoi(%r)' % (r,)
    return TupleV([atom(n, -(1 << 63), (1 << 63) - 1), models.errval(e, st, n + '.err')])


def m_parseuint(e, st, a, ins):
    r = e.res(st, a[0])
    v = number(r)
    if v is not None and a[1] == 10 and isinstance(a[2], int) and 0 < a[2] <= 64:
        lo, hi = (v, v) if isinstance(v, int) else v.bounds()
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << a[2]:
            return TupleV([unlin(v), NILERR])
    return models.M['strconv.ParseUint'](e, st, a, ins)


def unlin(v):
    """A 64 bit value for a mathematical integer."""
    if isinstance(v, int):
        return v
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        i = ATOMS[v.t[0][0]]
        if isinstance(i.meta, FB):
            return i.meta
        x = i.expr
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BV2INT:
            b = x.arg(0)
            return z3.ZeroExt(64 - b.size(), b) if b.size() < 64 else b
    return z3.Int2BV(zint(v), 64)



MODELS = {'strings.Split': m_split, 'strings.HasPrefix': m_prefix, 'strings.TrimPrefix': m_trimprefix, 'strings.CutPrefix': m_cutprefix,
          'strings.Index': m_index, 'strings.IndexByte': m_indexbyte, 'strings.IndexRune': m_indexbyte, 'strings.Contains': m_contains,
          'strings.ContainsRune': m_indexbyte and (lambda e, st, a, ins: lcmp('>=', m_indexbyte(e, st, a, ins), 0)),
          'strings.Cut': m_cut, 'strconv.Atoi': m_atoi, 'strconv.ParseUint': m_parseuint}


def engine(c, label, contracts=None, extra=None):
    m = dict(MODELS)
    m.update(extra or {})
    e = c.engine(label, contracts or {}, m)
    return tables(e)


def text(e, name, without=b''):
    """Arbitrary text without some bytes."""
    if without:
        e.atommask[name] = V.ALL & ~mask_bytes(without)
    return ratom(name)


def isnil(v):
    """Condition that an error is nil."""
    if isinstance(v, Iface):
        return v.t is None
    if isinstance(v, SymIface):
        return v.null
    if isinstance(v, Ptr):
        return v.null
    raise Unsupported('error value %r' % (v,))


def fields(c, typ):
    return [f['name'] for f in c.prog.u(c.prog.type_by_name(typ))['fields']]


def both(e, st, cond):
    d = e.decide(st, cond)
    if d is not None:
        return [(st, d)]
    out = []
    for s in e.split(st, cond):
        d = e.decide(s, cond)
        if d is not None:
            out.append((s, d))
    return out


class Count:
    """Contract of a loop that counts up by one: `step(e, st, fr, k)` checks an iteration with arbitrary count k."""

    def __init__(self, fn, head, k, havoc=None, step=None, frame=None):
        self.fn, self.head, self.k, self.hv, self.step, self.frame = fn, head, k, havoc, step, frame
        self.entries = self.backs = 0
        self.start = {}

    def install(self, e):
        e.inv[(self.fn.name, e.loop_ordinal(self.fn, self.head))] = self
        return self

    def __call__(self, e, st, fr, blk, body):
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        key = 'count:%s:%d' % (self.fn.name, self.head)
        if fr.prev not in body:
            self.entries += 1
            ints = [p for p in phis if isinstance(fr.regs[p], int) and not isinstance(fr.regs[p], bool) and fr.regs[p] in (0, -1)]
            ints = [p for p in ints if counts(self.fn, blk, p, body)]
            if not ints:
                raise Unsupported('loop without a counter')
            st.ghost[key] = TupleV([p, fr.regs[p]] for p in ints)
            st.ghost[key + ':others'] = TupleV((p, fr.regs[p]) for p in phis if p not in ints)
            for p in ints:
                fr.regs[p] = ladd(self.k, fr.regs[p])
            if self.hv:
                skip = self.hv(e, st, fr) or ()
                st.ghost[key + ':others'] = TupleV(x for x in st.ghost[key + ':others'] if x[0] not in skip)
            st.ghost[key + ':heap'] = Snap(dict(st.heap))
            return None
        self.backs += 1
        for p, c0 in st.ghost[key]:
            e.prove(st, lcmp('==', fr.regs[p], ladd(self.k, c0 + 1)), 'the loop goes through the list one by one', 'invariant', fn=self.fn.name)
        for p, v in st.ghost[key + ':others']:
            if not V.same(fr.regs[p], v):
                e.prove(st, same_val(e, st, fr.regs[p], v), 'the loop keeps %s' % p, 'invariant', fn=self.fn.name)
        for o, v in st.ghost[key + ':heap'].h.items():
            if self.frame and self.frame(o):
                continue
            if not V.same(st.heap.get(o), v):
                e.prove(st, same_val(e, st, st.heap[o], v), 'the loop keeps object %s' % o, 'invariant', fn=self.fn.name)
        if self.step:
            self.step(e, st, fr, st.ghost[key + ':heap'].h)
        raise X.PathDone()


class Snap:
    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def counts(fn, blk, p, body):
    """Whether every edge from the loop gives phi p its value plus one (syntactic hint only; the invariant is proved)."""
    i = next(x for x in blk['instrs'][:blk['nphi']] if x['n'] == p)
    defs = {x['n']: x for b in fn.blocks for x in b['instrs'] if 'n' in x}
    for k, ed in enumerate(i['edges']):
        if blk['preds'][k] not in body:
            continue
        d = defs.get(ed.get('n'))
        if not d or d['op'] != 'binop' or d['tok'] != '+' or p not in (d['x'].get('n'), d['y'].get('n')):
            return False
    return True
