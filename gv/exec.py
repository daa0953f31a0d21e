"""Path-wise symbolic execution of the SSA of the real code; every branch, dereference, index and
contract clause becomes an obligation discharged by z3."""
import time, z3
from .vals import *
from . import vals as V
from .ir import INTW, MATHINT, MOD

TOKCMP = {'==', '!=', '<', '<=', '>', '>='}
AXIOMS = {}      # key -> z3 Bool, always true facts about uninterpreted terms


HARD = 0
DEADLINE = 0  # obligations not generated by then count as undischarged


class Failure:
    def __init__(self, fn, line, what, model=None, pc=None):
        self.fn, self.line, self.what, self.model, self.pc = fn, line, what, model, pc

    def __str__(self):
        s = '%s:%s: %s' % (self.fn.replace(MOD, ''), self.line, self.what)
        if self.model:
            s += '\n    counterexample: ' + self.model
        return s


class PathDone(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'b', 'i', 'prev', 'regs', 'defers', 'ret', 'loopn', 'retk', 'pend')

    def __init__(self, fn):
        self.fn, self.b, self.i, self.prev = fn, 0, 0, None
        self.regs, self.defers, self.ret, self.loopn = {}, [], None, {}
        self.retk = None
        self.pend = True

    def clone(self):
        f = Frame(self.fn)
        f.b, f.i, f.prev = self.b, self.i, self.prev
        f.regs = dict(self.regs)
        f.defers = list(self.defers)
        f.ret = self.ret
        f.loopn = dict(self.loopn)
        f.retk = self.retk
        f.pend = self.pend
        return f


class State:
    __slots__ = ('frames', 'heap', 'pc', 'lits', 'bm', 'trace', 'ghost', 'n', 'done', 'result', 'ck')

    def __init__(self):
        self.ck = None
        self.frames, self.heap, self.pc, self.lits = [], {}, [], {}
        self.bm, self.trace, self.ghost, self.n = {}, [], {}, 0
        self.done, self.result = None, None

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.lits = dict(self.lits)
        s.bm = dict(self.bm)
        s.trace = list(self.trace)
        s.ghost = dict(self.ghost)
        s.n = self.n
        return s

    @property
    def fr(self):
        return self.frames[-1]


_vars_cache = {}


def zvars(e):
    """Names of the uninterpreted constants of a z3 term."""
    k = zid(e)
    r = _vars_cache.get(k)
    if r is None:
        r = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(x.decl().name())
            elif z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add('()' + x.decl().name())
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        r = _vars_cache[k] = frozenset(r)
    return r


STR = z3.DeclareSort('Str')
_strconst = {}


def strterm(r):
    """Term of sort Str for a rope (structure-preserving for equality reasoning only)."""
    if len(r) == 0:
        return strconst(b'')
    if len(r) == 1:
        s = r[0]
        if s[0] == 'L':
            return strconst(s[1])
        if s[0] == 'A':
            n = s[1] if s[2] == 0 and s[3] == atom_len(s[1]) else '%s[%r:%r]' % (s[1], s[2], s[3])
            t = z3.Const('str:' + n, STR)
            k = 'empty:' + n
            if k not in AXIOMS:
                AXIOMS[k] = ((t == strconst(b'')) == (zint(seg_len(s)) == 0))
            return t
        if s[0] == 'I':
            return z3.If(s[1], strterm(s[2]), strterm(s[3]))
    return z3.Const('str:' + repr(r), STR)


def strconst(b):
    t = _strconst.get(b)
    if t is None:
        t = z3.Const('strc:' + repr(b), STR)
        _strconst[b] = t
        if len(_strconst) > 1:
            AXIOMS['distinct'] = z3.Distinct(*_strconst.values())
    return t


_tabs = {}


class Engine:
    def __init__(self, prog, contracts=None, models=None, label=''):
        self.p = prog
        self.label = label
        self.contracts = contracts or {}
        self.models = models or {}
        self.objtypes = {}
        self.failures = []
        self.failkeys = set()
        self.nob = 0          # obligations generated
        self.ndis = 0         # discharged
        self.kinds = {}
        self.solver_time = 0.0
        self.cache = {}
        self.funcs_seen = set()
        self.assumed = set()
        self.unroll = 400
        self.merge = False
        self.globals = None
        self.atommask = {}    # atom -> mask of its bytes
        self.zeros = {}
        self.maxpaths = 20000
        self.timeout = 20000
        self.hooks = {}
        self.steps = 0
        self.inv = {}         # (function name, loop ordinal) -> loop handler
        self.noinline = set()
        self.models_used = set()

    # ------------------------------------------------------------ solver
    def _check(self, st, extra):
        key = (tuple(zid(c) for c in st.pc), tuple(sorted((k, m) for k, m in st.bm.items() if m != ALL)), zid(extra))
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        vs = set(zvars(extra))
        s.add(extra)
        # cone of influence
        rest = [(c, zvars(c)) for c in st.pc]
        for i, m in st.bm.items():
            if m != ALL:
                c = mask_z3(z3.BitVec('sb_' + i, 8), m)
                rest.append((c, zvars(c)))
        axs = [(c, zvars(c)) for c in AXIOMS.values()]
        rest += [a for a in axs]
        ab = set()
        changed = True
        while changed:
            changed = False
            nr = []
            for c, cv in rest:
                if cv & vs or not cv:
                    s.add(c)
                    if not cv <= vs:
                        vs |= cv
                        changed = True
                else:
                    nr.append((c, cv))
            rest = nr
            for n in list(vs):
                if n in ab:
                    continue
                ab.add(n)
                a = ATOMS.get(n)
                if a is not None:
                    if a.lo is not None:
                        s.add(a.expr >= a.lo)
                    if a.hi is not None:
                        s.add(a.expr <= a.hi)
                    ev = zvars(a.expr)
                    if not ev <= vs:
                        vs |= ev
                        changed = True
        # named derived atoms (BV2Int etc.) have bounds by construction
        c = s.check()
        model = None
        if c == z3.sat:
            model = s.model()
        self.solver_time += time.time() - t0
        r = (c, model)
        self.cache[key] = r
        return r

    def decide(self, st, c):
        """True, False or None."""
        if isinstance(c, bool):
            return c
        if isinstance(c, FBool):
            m = st.bm.get(c.id)
            if m is None:
                m = self.elem_mask(c.id)
            if m & ~c.mask == 0:
                return True
            if m & c.mask == 0:
                return False
            return None
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        k = zid(c.arg(0) if neg else c)
        if k in st.lits:
            return st.lits[k] != neg
        r, _ = self._check(st, z3.Not(c))
        if r == z3.unsat:
            return True
        r, _ = self._check(st, c)
        if r == z3.unsat:
            return False
        return None

    def elem_mask(self, id):
        if id.startswith('el:'):
            return self.atommask.get(id[3:id.rindex('[')], ALL)
        return ALL

    def assume(self, st, c):
        """Adds c; returns False if the state becomes impossible."""
        if isinstance(c, bool):
            return c
        if isinstance(c, FBool):
            m = st.bm.get(c.id)
            if m is None:
                m = self.elem_mask(c.id)
            m &= c.mask
            st.bm[c.id] = m
            return m != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_and(c):
            return all(self.assume(st, x) for x in c.children())
        neg = z3.is_not(c)
        k = zid(c.arg(0) if neg else c)
        if k in st.lits:
            return st.lits[k] != neg
        st.lits[k] = not neg
        st.pc.append(c)
        return True

    def prove(self, st, c, what, kind='contract', fn=None, line=None):
        """Obligation: c holds in st. Records a failure otherwise; c is assumed afterwards."""
        self.nob += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        d = self.decide(st, c)
        if d is True:
            self.ndis += 1
            return True
        model = None
        if not isinstance(c, bool):
            r, m = self._check(st, z3.Not(zbool(c)))
            if r == z3.sat:
                model = self.show_model(m)
            elif r == z3.unknown:
                model = 'solver gave up'
        self.fail(st, what, model, fn, line)
        if d is None:
            self.assume(st, c)
        return False

    def show_model(self, m):
        out = []
        for d in m.decls():
            n = d.name()
            if d.arity() == 0 and not n.startswith('strc:') and d.range() != STR:
                out.append('%s=%s' % (n, m[d]))
            elif d.arity() == 0 and n.startswith('str:'):
                v = m[d]
                for b, t in _strconst.items():
                    x = m[t.decl()]
                    if x is not None and v is not None and x.eq(v):
                        out.append('%s=%r' % (n[4:], b))
                        break
        return ', '.join(sorted(out)[:40])

    def fail(self, st, what, model=None, fn=None, line=None):
        if fn is None:
            fr = st.frames[-1] if st.frames else None
            fn = fr.fn.name if fr else self.label
            if line is None and fr:
                b = fr.fn.blocks[fr.b]['instrs']
                for j in range(min(fr.i, len(b) - 1), -1, -1):
                    if b[j].get('line'):
                        line = b[j]['line']
                        break
        k = (fn, line, what)
        if k not in self.failkeys:
            self.failkeys.add(k)
            self.failures.append(Failure(fn, line, what, model, [str(x)[:200] for x in st.pc[-30:]]))

    # ------------------------------------------------------------ symbolic inputs
    def sym(self, t, name):
        """Arbitrary value of type t, deterministic in name."""
        r = self.p.u(t)
        k = r['k']
        if k == 'basic':
            n = r['name']
            if n in ('string', 'untyped string'):
                return ratom(name)
            if n in ('bool', 'untyped bool'):
                return z3.Bool(name)
            if n in MATHINT:
                return atom(name, -(1 << 63), (1 << 63) - 1)
            if n in INTW:
                w, _ = INTW[n]
                if w == 8 and not INTW[n][1]:
                    return FB(name)
                return z3.BitVec(name, w)
            if n == 'float64' or n == 'untyped float':
                return z3.FP(name, z3.Float64())
            return Opaque(name)
        if k == 'struct':
            tn = self.p.tname(t)
            if tn in ('bytes.Buffer', 'strings.Builder'):
                return BufV(ratom(name + '.buf'))
            return StructV(self.sym(f['t'], name + '.' + f['name']) for f in r['fields'])
        if k == 'ptr':
            o = name + '^'
            self.objtypes[o] = r['e']
            return Ptr(o, (), z3.Bool(name + '==nil'))
        if k == 'array':
            if r['n'] > 1024:
                return Opaque(name)
            return ArrV(self.sym(r['e'], '%s.%d' % (name, i)) for i in range(r['n']))
        if k == 'slice':
            e = self.p.u(r['e'])
            o = name + '[]'
            if e['k'] == 'basic' and e['name'] in ('byte', 'uint8'):
                L = atom_len(name)
                self.objtypes[o] = ('bytes', name)
                return SliceV(o, 0, L, ladd(L, atom('slack:' + name, 0, V.MAXLEN)))
            self.objtypes[o] = ('seq', r['e'], name)
            L = atom('len:' + name, 0, V.MAXLEN)
            return SliceV(o, 0, L, L)
        if k == 'iface':
            return SymIface(name, z3.Bool(name + '==nil'))
        if k == 'tuple':
            return TupleV(self.sym(x, '%s#%d' % (name, i)) for i, x in enumerate(r['elems']))
        return Opaque(name)

    def zero(self, t):
        z = self.zeros.get(t)
        if z is None:
            z = self.zeros[t] = self._zero(t)
        return z

    def _zero(self, t):
        r = self.p.u(t)
        k = r['k']
        if k == 'basic':
            n = r['name']
            if n in ('string', 'untyped string'):
                return EMPTY
            if n in ('bool', 'untyped bool'):
                return False
            if n in INTW:
                return 0
            if n in ('float64', 'float32', 'untyped float'):
                return z3.FPVal(0.0, z3.Float64())
            return NIL
        if k == 'struct':
            if self.p.tname(t) in ('bytes.Buffer', 'strings.Builder'):
                return BufV()
            return StructV(self.zero(f['t']) for f in r['fields'])
        if k == 'ptr':
            return NIL
        if k == 'array':
            return ArrV([self.zero(r['e'])] * r['n'])
        if k == 'slice':
            return NILSLICE
        if k == 'iface':
            return NILIFACE
        return NIL

    def objval(self, st, o):
        v = st.heap.get(o)
        if v is None:
            t = self.objtypes.get(o)
            if t is None:
                if o.startswith('g:'):
                    gv = self.global_init(o[2:])
                    st.heap[o] = gv
                    return gv
                raise Unsupported('unknown object %s' % o)
            if isinstance(t, tuple):
                if t[0] == 'bytes':
                    n = t[1]
                    v = BytesObj(ratom(n), ladd(atom_len(n), atom('slack:' + n, 0, V.MAXLEN)))
                else:
                    raise Unsupported('element of symbolic sequence %s' % o)
            else:
                v = self.sym(t, o[:-1] if o.endswith('^') else o)
            st.heap[o] = v
        return v

    def global_init(self, g):
        if self.globals is None:
            self.globals = {}
        if g in self.globals:
            return self.globals[g]
        t = self.p.globals.get(g)
        if t is None:
            return Opaque('global:' + g)
        return self.zero(self.p.u(t)['e'])

    # ------------------------------------------------------------ access paths
    def res(self, st, v):
        """Resolves guarded choices."""
        while isinstance(v, IteV):
            d = self.decide(st, v.c)
            if d is None:
                raise Fork(v.c)
            v = v.a if d else v.b
        return v

    def getpath(self, st, v, path):
        for n, x in enumerate(path):
            v = self.res(st, v)
            if isinstance(v, StructV):
                v = v.f[x]
            elif isinstance(v, ArrV):
                if isinstance(x, int):
                    v = v.e[x]
                else:
                    return self.symindex(st, v, x)
            elif isinstance(v, BytesObj):
                return self.bytesat(st, v.rope, x)
            elif isinstance(v, SeqV):
                v = v.at(self, st, x)
            elif isinstance(v, Opaque):
                return Opaque('%s.%s' % (v.name, x))
            elif v is POISON:
                return POISON
            else:
                raise Unsupported('path %r of %r' % (x, v))
        return v

    def symindex(self, st, a, x):
        if isinstance(x, Lin) and len(x.t) == 1 and isinstance(ATOMS[x.t[0][0]].meta, FB) and x.t[0][1] == 1:
            x = ATOMS[x.t[0][0]].meta.mapped(lambda b: b + x.c)
        if isinstance(x, FB) and all(isinstance(e, int) for e in a.e):
            m = st.bm.get(x.id, self.elem_mask(x.id))
            return FB(x.id, tuple(a.e[i] if 0 <= i < len(a.e) else 0 for i in x.tab))
        if all(isinstance(e, int) for e in a.e) and len(a.e) <= 256:
            zi = zint(x) if not isinstance(x, z3.BitVecRef) else z3.BV2Int(x)
            e = z3.IntVal(a.e[-1])
            for i in range(len(a.e) - 2, -1, -1):
                e = z3.If(zi == i, z3.IntVal(a.e[i]), e)
            return lin_of_z3(e)
        return self.symelem(st, a, x)

    def symelem(self, st, a, x):
        raise Unsupported('symbolic index %r' % (x,))

    def bytesat(self, st, rope, i):
        if isinstance(i, Lin) and len(rope) == 1 and rope[0][0] == 'L' and len(i.t) == 1 and isinstance(ATOMS[i.t[0][0]].meta, FB) and i.t[0][1] == 1:
            b, x = rope[0][1], ATOMS[i.t[0][0]].meta.mapped(lambda v: v + i.c)
            return FB(x.id, tuple(b[v] if 0 <= v < len(b) else 0 for v in x.tab))
        r = rindex(rope, i, lambda c: self.decide(st, c))
        if isinstance(r, tuple):
            return self.elem(st, r[1], r[2])
        return r

    def elem(self, st, atomname, idx):
        f = FB('el:%s[%r]' % (atomname, idx))
        return f

    def setpath(self, st, v, path, new):
        if not path:
            return new
        v = self.res(st, v)
        x = path[0]
        if isinstance(v, StructV):
            return v.set(x, self.setpath(st, v.f[x], path[1:], new))
        if isinstance(v, ArrV):
            if not isinstance(x, int):
                return self.symstore(st, v, x, new)
            return v.set(x, self.setpath(st, v.e[x], path[1:], new))
        if isinstance(v, BytesObj):
            if v.ro:
                self.prove(st, False, 'store into read-only bytes', 'frame')
            return self.bytestore(st, v, x, new)
        raise Unsupported('store path %r into %r' % (x, v))

    def symstore(self, st, a, x, new):
        raise Unsupported('store at symbolic index %r' % (x,))

    def bytestore(self, st, v, i, new):
        dec = lambda c: self.decide(st, c)
        L = rlen(v.rope)
        d = lcmp('>=', i, L)
        d = dec(d)
        if d is True and i == L:
            return BytesObj(rcat(v.rope, mkrope([('B', new)])), v.size, v.ro)
        if d is True:
            raise Unsupported('store beyond known bytes')
        if d is None:
            raise Fork(lcmp('>=', i, L))
        pre = rslice(v.rope, 0, i, dec)
        post = rslice(v.rope, ladd(i, 1), L, dec)
        return BytesObj(rcat(pre, mkrope([('B', new)]), post), v.size, v.ro)

    def nonnil(self, st, p, what='nil dereference'):
        if p.null is False:
            return
        if p.null is True:
            self.prove(st, False, what, 'nil')
            raise PathDone()
        self.prove(st, z3.Not(p.null), what, 'nil')

    def load(self, st, p):
        p = self.res(st, p)
        if isinstance(p, Opaque):
            return Opaque(p.name + '.*')
        if p is POISON:
            return POISON
        if not isinstance(p, Ptr):
            raise Unsupported('load from %r' % (p,))
        self.nonnil(st, p)
        return self.getpath(st, self.objval(st, p.obj), p.path)

    def store(self, st, p, v):
        p = self.res(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % (p,))
        self.nonnil(st, p)
        o = self.objval(st, p.obj)
        st.heap[p.obj] = self.setpath(st, o, p.path, v)
        h = self.hooks.get('store')
        if h:
            h(self, st, p, v)

    def alloc(self, st, v, tag='new'):
        st.n += 1
        o = '%s#%d' % (tag, st.n)
        while o in st.heap:
            st.n += 1
            o = '%s#%d' % (tag, st.n)
        st.heap[o] = v
        return o

    def slice_rope(self, st, s):
        """Contents of a byte slice."""
        s = self.res(st, s)
        if isinstance(s, Ptr) and s.null is True or s is NILSLICE:
            return EMPTY
        if not isinstance(s, SliceV):
            raise Unsupported('bytes of %r' % (s,))
        if s.len == 0:
            return EMPTY
        o = self.getpath(st, self.objval(st, s.obj), s.path)
        if isinstance(o, ArrV):
            if not (isinstance(s.off, int) and isinstance(s.len, int)):
                raise Unsupported('symbolic slice of array')
            return mkrope([('B', b) for b in o.e[s.off:s.off + s.len]])
        if isinstance(o, BytesObj):
            return rslice(o.rope, s.off, ladd(s.off, s.len), lambda c: self.decide(st, c))
        raise Unsupported('bytes of %r' % (o,))

    def new_bytes(self, st, rope, cap=None, tag='bytes'):
        L = rlen(rope)
        c = L if cap is None else cap
        o = self.alloc(st, BytesObj(rope, c), tag)
        return SliceV(o, 0, L, c)

    # ------------------------------------------------------------ operands
    def const(self, x, t=None):
        v = x['v']
        if v is None:
            return self.zero(x['t'])
        if isinstance(v, bool):
            return v
        if 'bytes' in v:
            return rlit(bytes(v['bytes']))
        if 'int' in v:
            r = self.p.u(x['t'])
            n = int(v['int'])
            if r['k'] == 'basic' and r['name'] in ('float64', 'float32', 'untyped float'):
                return z3.FPVal(float(n), z3.Float64())
            return n
        if 'float' in v:
            f = v['float']
            try:
                f = float(f)
            except ValueError:
                a, b = f.split('/')
                f = int(a) / int(b)
            return z3.FPVal(f, z3.Float64())
        raise Unsupported('constant %r' % (v,))

    def val(self, st, x):
        if x is None:
            return None
        k = x['k']
        if k == 'r':
            return st.frames[-1].regs[x['n']]
        if k == 'c':
            return self.const(x)
        if k == 'g':
            return Ptr('g:' + x['n'])
        if k == 'f':
            return FuncV(x['n'])
        if k == 'b':
            return FuncV(x['n'])
        raise Unsupported('operand %r' % (x,))

    # ------------------------------------------------------------ arithmetic
    def wrap(self, v, n):
        w, s = INTW[n]
        v &= (1 << w) - 1
        if s and v >> (w - 1):
            v -= 1 << w
        return v

    def binop(self, st, tok, x, y, xt, yt, line=None):
        r = self.p.u(xt)
        k = r['k']
        if x is POISON or y is POISON:
            return POISON
        if tok in ('==', '!='):
            c = self.equal(st, x, y, xt)
            return c if tok == '==' else bnot(c)
        if k == 'basic':
            n = r['name']
            if n in ('string', 'untyped string'):
                if tok == '+':
                    return rcat(x, y)
                raise Unsupported('string ' + tok)
            if n in ('float64', 'untyped float', 'float32'):
                return self.fpop(st, tok, x, y)
            if n in MATHINT:
                return self.intop(st, tok, x, y, yt)
            if n in INTW:
                return self.sizedop(st, tok, x, y, n, yt)
            if n in ('bool', 'untyped bool'):
                if tok in ('&&', '&'):
                    return band(x, y)
                return bor(x, y)
        if tok in TOKCMP:
            raise Unsupported('compare %r %s %r' % (x, tok, y))
        raise Unsupported('binop %s on %s' % (tok, r))

    def fpop(self, st, tok, x, y):
        rm = z3.RNE()
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if tok in TOKCMP:
                st.n += 1
                return z3.Bool('fcmp#%d' % st.n)
            return Opaque('(%r%s%r)' % (x, tok, y))
        return {'+': lambda: z3.fpAdd(rm, x, y), '-': lambda: z3.fpSub(rm, x, y), '*': lambda: z3.fpMul(rm, x, y),
                '/': lambda: z3.fpDiv(rm, x, y), '<': lambda: z3.fpLT(x, y), '<=': lambda: z3.fpLEQ(x, y),
                '>': lambda: z3.fpGT(x, y), '>=': lambda: z3.fpGEQ(x, y)}[tok]()

    def intop(self, st, tok, x, y, yt):
        if tok in TOKCMP:
            return lcmp(tok, x, y)
        if tok == '+':
            return ladd(x, y)
        if tok == '-':
            return lsub(x, y)
        if tok == '*':
            if isinstance(y, int):
                return lmulc(x, y)
            if isinstance(x, int):
                return lmulc(y, x)
            return lin_of_z3(zint(x) * zint(y))
        if tok in ('/', '%'):
            if not isinstance(y, int) or y == 0:
                self.prove(st, lcmp('!=', y, 0), 'division by zero', 'arith')
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return q if tok == '/' else x - q * y
            xl = lin(x)
            if len(xl.t) == 1 and isinstance(ATOMS[xl.t[0][0]].meta, FB) and isinstance(y, int):
                k, f = xl.t[0][1], ATOMS[xl.t[0][0]].meta
                return lin(f.mapped(lambda b: self.intop(st, tok, k * b + xl.c, y, yt)))
            zx, zy = zint(x), zint(y)
            lo, _ = lin(x).bounds()
            ylo, _ = lin(y).bounds()
            nm = '%s%s%s' % (repr(x), tok, repr(y))
            if ylo is None or ylo <= 0:
                raise Unsupported('division by %r' % (y,))
            if lo is not None and lo >= 0:
                e = zx / zy if tok == '/' else zx % zy
                return lin(atom('(%s)' % nm, 0, None if tok == '/' else (y - 1 if isinstance(y, int) else None), e))
            q = z3.If(zx >= 0, zx / zy, -((-zx) / zy))
            if tok == '/':
                return lin(atom('(%s)' % nm, None, None, q))
            b = y - 1 if isinstance(y, int) else None
            return lin(atom('(%s)' % nm, -b if b is not None else None, b, zx - q * zy))
        if isinstance(x, int) and isinstance(y, int):
            v = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y,
                 '>>': lambda: x >> y, '&^': lambda: x & ~y}[tok]()
            return self.wrap(v, 'int')
        bx = to_bv(x, 64)
        by = to_bv(y, 64)
        v = {'&': lambda: bx & by, '|': lambda: bx | by, '^': lambda: bx ^ by, '<<': lambda: bx << by,
             '>>': lambda: bx >> by, '&^': lambda: bx & ~by}[tok]()
        return bv_to_lin(v, True)

    def sizedop(self, st, tok, x, y, n, yt):
        w, s = INTW[n]
        shift = tok in ('<<', '>>')

        def f(a, b):
            if tok == '/' or tok == '%':
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return self.wrap(q if tok == '/' else a - q * b, n)
            if shift and b >= w:
                return (-1 if a < 0 else 0) if tok == '>>' else 0
            return self.wrap({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b,
                              '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b,
                              '&^': lambda: a & ~b}[tok](), n)
        cmpf = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
        if isinstance(y, Lin) and shift:
            y = self.conv_int(y, 'int', 'uint64')
        if tok in ('/', '%'):
            if y == 0:
                self.prove(st, False, 'division by zero', 'arith')
                raise PathDone()
            if not isinstance(y, int):
                self.prove(st, to_bv(y, w) != 0, 'division by zero', 'arith')
        ix, iy = isinstance(x, int), isinstance(y, int)
        if ix and iy:
            return cmpf[tok](x, y) if tok in cmpf else f(x, y)
        fx, fy = isinstance(x, FB), isinstance(y, FB)
        if (fx or ix) and (fy or iy) and not (fx and fy and x.id != y.id):
            id = x.id if fx else y.id
            tx = x.tab if fx else (x,) * 256
            ty = y.tab if fy else (y,) * 256
            if tok in cmpf:
                key = (tok, tx, ty)
                m = _tabs.get(key)
                if m is None:
                    m = 0
                    for b in range(256):
                        if cmpf[tok](tx[b], ty[b]):
                            m |= 1 << b
                    _tabs[key] = m
                return True if m == ALL else False if m == 0 else FBool(id, m)
            dom = st.bm.get(id, self.elem_mask(id))
            key = (tok, n, tx, ty)
            tab = _tabs.get(key)
            if tab is None:
                tab = _tabs[key] = tuple(f(a, b) if (tok not in ('/', '%') or b) else 0 for a, b in zip(tx, ty))
            vs = set(tab[b] for b in range(256) if dom >> b & 1)
            return FB(id, tab) if len(set(tab)) > 1 else tab[0]
        bx = to_bv(x, w)
        if shift:
            yr = self.p.u(yt)
            yw = INTW[yr['name']][0]
            W = max(w, yw)
            if isinstance(y, int):
                if y >= w:
                    return 0 if not (s and tok == '>>') else simp(bx >> (w - 1))
                by = z3.BitVecVal(y, w)
                if tok == '<<':
                    return simp(bx << by)
                return simp((bx >> by) if s else z3.LShR(bx, by))
            by = to_bv(y, yw)
            if W > w:
                bx = z3.SignExt(W - w, bx) if s else z3.ZeroExt(W - w, bx)
            if W > yw:
                by = z3.ZeroExt(W - yw, by)
            v = (bx << by) if tok == '<<' else (bx >> by) if s else z3.LShR(bx, by)
            return simp(z3.Extract(w - 1, 0, v))
        by = to_bv(y, w)
        if tok in cmpf:
            return {'<': lambda: bx < by if s else z3.ULT(bx, by), '<=': lambda: bx <= by if s else z3.ULE(bx, by),
                    '>': lambda: bx > by if s else z3.UGT(bx, by), '>=': lambda: bx >= by if s else z3.UGE(bx, by)}[tok]()
        return simp({'+': lambda: bx + by, '-': lambda: bx - by, '*': lambda: bx * by, '&': lambda: bx & by,
                     '|': lambda: bx | by, '^': lambda: bx ^ by, '&^': lambda: bx & ~by,
                     '/': lambda: bx / by if s else z3.UDiv(bx, by),
                     '%': lambda: z3.SRem(bx, by) if s else z3.URem(bx, by)}[tok]())

    def equal(self, st, x, y, t):
        x, y = self.res(st, x), self.res(st, y)
        r = self.p.u(t) if t is not None else None
        if isinstance(x, Rope) and isinstance(y, Rope):
            return self.rope_eq(st, x, y)
        if isinstance(x, (Ptr, SliceV)) and isinstance(y, (Ptr, SliceV)):
            if isinstance(x, SliceV) or isinstance(y, SliceV):
                if y is NILSLICE or y == NILSLICE:
                    x, y = y, x
                if x == NILSLICE:
                    if y == NILSLICE:
                        return True
                    nn = st.ghost.get(('nilslice', y.obj))
                    if nn is not None:
                        return nn
                    if y.obj in self.objtypes and isinstance(self.objtypes[y.obj], tuple):
                        return z3.Bool(y.obj + '==nil')
                    return False
                raise Unsupported('slice comparison')
            if y.null is True:
                return x.null
            if x.null is True:
                return y.null
            if (x.obj, x.path) == (y.obj, y.path):
                if x.null is False and y.null is False:
                    return True
                return zbool(x.null) == zbool(y.null) if not (isinstance(x.null, bool) or isinstance(y.null, bool)) else \
                    (bnot(y.null) if x.null is False else bnot(x.null))
            both = band(x.null, y.null)
            if x.path == y.path and x.obj.endswith('^') and y.obj.endswith('^') and self.objtypes.get(x.obj) == self.objtypes.get(y.obj):
                # two inputs may be one object; what is then read through either of them stays arbitrary
                return bor(both, band(band(bnot(x.null), bnot(y.null)), z3.Bool('same:%s:%s' % tuple(sorted((x.obj, y.obj))))))
            return both                     # separate objects
        if isinstance(x, Iface) and isinstance(y, Iface):
            if x.t is None or y.t is None:
                return x.t is y.t
            if x.t != y.t:
                return False
            return self.equal(st, x.v, y.v, x.t)
        if isinstance(x, (SymIface, Iface)) and isinstance(y, (SymIface, Iface)):
            if isinstance(y, SymIface):
                x, y = y, x
            if isinstance(y, Iface) and y.t is None:
                return x.null
            if isinstance(y, SymIface) and x.name == y.name:
                return True
            nm = 'eq:%s:%r' % (x.name, y)
            return z3.Bool(nm)
        if isinstance(x, (bool, z3.BoolRef, FBool)) and isinstance(y, (bool, z3.BoolRef, FBool)):
            if isinstance(x, bool) and isinstance(y, bool):
                return x == y
            if isinstance(x, bool):
                return y if x else bnot(y)
            if isinstance(y, bool):
                return x if y else bnot(x)
            return zbool(x) == zbool(y)
        if isinstance(x, (Opaque, FuncV)) or isinstance(y, (Opaque, FuncV)):
            if isinstance(x, Ptr) and x.null is True or isinstance(y, Ptr) and y.null is True:
                o = y if isinstance(x, Ptr) else x
                if isinstance(o, FuncV):
                    return False
                return z3.Bool('%s==nil' % o.name)
            if same(x, y):
                return True
            return z3.Bool('eq:%r:%r' % (x, y))
        if isinstance(x, z3.FPRef) and isinstance(y, z3.FPRef):
            return z3.fpEQ(x, y)
        if isinstance(x, StructV) and isinstance(y, StructV):
            c = True
            for i, (a, b) in enumerate(zip(x.f, y.f)):
                c = band(c, self.equal(st, a, b, r['fields'][i]['t'] if r else None))
            return c
        if isinstance(x, ArrV) and isinstance(y, ArrV):
            c = True
            for a, b in zip(x.e, y.e):
                c = band(c, self.equal(st, a, b, None))
            return c
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            return lcmp('==', x, y)
        sx = isinstance(x, (int, FB, z3.BitVecRef))
        sy = isinstance(y, (int, FB, z3.BitVecRef))
        if sx and sy:
            if isinstance(x, int) and isinstance(y, int):
                return x == y
            if isinstance(y, FB):
                x, y = y, x
            if isinstance(x, FB) and (isinstance(y, int) or isinstance(y, FB) and y.id == x.id):
                m = 0
                for b in range(256):
                    if x.tab[b] == (y if isinstance(y, int) else y.tab[b]):
                        m |= 1 << b
                return True if m == ALL else False if m == 0 else FBool(x.id, m)
            w = next((v.size() for v in (x, y) if isinstance(v, z3.BitVecRef)), None)
            if w is None:
                w = INTW[r['name']][0] if r and r['k'] == 'basic' and r['name'] in INTW else 64
            return to_bv(x, w) == to_bv(y, w)
        if isinstance(x, (Lin, z3.BitVecRef, FB, int)) and isinstance(y, (Lin, z3.BitVecRef, FB, int)):
            return lcmp('==', self.as_lin(x), self.as_lin(y))
        raise Unsupported('equality of %r and %r' % (x, y))

    def as_lin(self, x, signed=False):
        if isinstance(x, z3.BitVecRef):
            return bv_to_lin(x, signed)
        if isinstance(x, FB):
            return norm(x.lin())
        return x

    def rope_eq(self, st, x, y):
        if x == y:
            return True
        x, y = list(x), list(y)
        # strip common ends
        while x and y:
            if x[0] == y[0]:
                x.pop(0), y.pop(0)
            elif x[0][0] == 'L' and y[0][0] == 'L':
                a, b = x[0][1], y[0][1]
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    return False
                x[:1] = [('L', a[n:])] if a[n:] else []
                y[:1] = [('L', b[n:])] if b[n:] else []
            else:
                break
        while x and y:
            if x[-1] == y[-1]:
                x.pop(), y.pop()
            elif x[-1][0] == 'L' and y[-1][0] == 'L':
                a, b = x[-1][1], y[-1][1]
                n = min(len(a), len(b))
                if a[len(a) - n:] != b[len(b) - n:]:
                    return False
                x[-1:] = [('L', a[:len(a) - n])] if len(a) > n else []
                y[-1:] = [('L', b[:len(b) - n])] if len(b) > n else []
            else:
                break
        x, y = mkrope(x), mkrope(y)
        if x == y:
            return True
        d = lcmp('==', rlen(x), rlen(y))
        if d is False:
            return False
        if not x or not y:
            return d
        # all single bytes: compare pointwise
        def bytewise(r):
            out = []
            for s in r:
                if s[0] == 'L':
                    out += list(s[1])
                elif s[0] == 'B':
                    out.append(s[1])
                else:
                    return None
            return out
        bx, by = bytewise(x), bytewise(y)
        if bx is not None and by is not None:
            if len(bx) != len(by):
                return False
            c = True
            for a, b in zip(bx, by):
                e = self.equal(st, a, b, None)
                if e is False:
                    return False
                c = e if c is True else c if e is True else z3.And(zbool(c), zbool(e))
            return c
        for r in (x, y):
            for s in r:
                if s[0] == 'I':
                    d = self.decide(st, s[1])
                    if d is None:
                        raise Fork(s[1])
                    o = y if r is x else x
                    r2 = mkrope([z for q in r for z in ((q[2] if d else q[3]) if q is s else (q,))])
                    return self.rope_eq(st, r2, o)
        e = strterm(x) == strterm(y)
        if d is not True and not isinstance(d, bool):
            k = 'lenlink:%d' % zid(e)
            if k not in AXIOMS:
                AXIOMS[k] = z3.Implies(e, zbool(d))
        return e

    def conv_int(self, x, frm, to):
        if frm in MATHINT:
            if to in MATHINT:
                return x
            w, s = INTW[to]
            if isinstance(x, int):
                return self.wrap(x, to)
            x = lin(x)
            if len(x.t) == 1:
                m = ATOMS[x.t[0][0]].meta
                if isinstance(m, FB):
                    k = x.t[0][1]
                    return FB(m.id, tuple(self.wrap(k * v + x.c, to) for v in m.tab))
            return simp(to_bv(x, w))
        w0, s0 = INTW[frm]
        if to in MATHINT:
            if isinstance(x, int):
                return self.wrap(x, to)
            if isinstance(x, FB):
                return norm(lin(x.mapped(lambda v: self.wrap(v, to))))
            if w0 == 64 and not s0:
                return bv_to_lin(x, True)
            return bv_to_lin(x, s0)
        w, s = INTW[to]
        if isinstance(x, int):
            return self.wrap(x, to)
        if isinstance(x, FB):
            return x.mapped(lambda v: self.wrap(v, to))
        if w == w0:
            return x
        if w < w0:
            return simp(z3.Extract(w - 1, 0, x))
        return simp(z3.SignExt(w - w0, x) if s0 else z3.ZeroExt(w - w0, x))

    def convert(self, st, x, frm, to):
        a, b = self.p.u(frm), self.p.u(to)
        if x is POISON:
            return POISON
        if a['k'] == 'basic' and b['k'] == 'basic':
            an, bn = a['name'], b['name']
            if an in INTW and bn in INTW:
                return self.conv_int(x, an, bn)
            if bn == 'string' and an in INTW:
                if isinstance(x, int):
                    return rlit(chr(x).encode())
                if isinstance(x, FB):
                    return ratom('rune:%r' % (x,))
                return ratom('rune:%r' % (x,))
            if an in INTW and bn in ('float64',):
                if isinstance(x, int):
                    return z3.FPVal(float(x), z3.Float64())
                return self.int2fp(st, x, an)
            if bn in INTW and an == 'float64':
                return self.fp2int(st, x, bn)
            return x
        if a['k'] == 'basic' and b['k'] == 'slice':
            return self.new_bytes(st, x)
        if a['k'] == 'slice' and b['k'] == 'basic':
            return self.slice_rope(st, x)
        return x

    def int2fp(self, st, x, n):
        return Opaque('float(%r)' % (x,))

    def fp2int(self, st, x, n):
        w, s = INTW[n]
        if isinstance(x, z3.FPRef):
            self.prove(st, z3.And(z3.fpLEQ(x, z3.FPVal(float((1 << (w - 1)) - 1), z3.Float64())),
                                  z3.fpGEQ(x, z3.FPVal(float(-(1 << (w - 1))), z3.Float64()))) if False else True,
                       'conversion in range', 'arith')
            v = z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(w))
            return v if n not in MATHINT else bv_to_lin(v, True)
        st.n += 1
        return self.sym(self.p.tid[n], 'f2i#%d' % st.n)

    # ------------------------------------------------------------ running
    def start(self, st, fn, args, binds=()):
        f = Frame(fn)
        self.funcs_seen.add(fn.name)
        for p, a in zip(fn.params, args):
            f.regs[p['n']] = a
        for p, a in zip(fn.freevars, binds):
            f.regs[p['n']] = a
        st.frames.append(f)
        return f

    def run(self, st, depth=0, stop=None):
        """Runs until the frame at `depth` returns. -> list of final states."""
        out, work = [], [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if DEADLINE and n % 16 == 0 and time.time() > DEADLINE:
                raise Unsupported('time limit of the proof exceeded')
            if n > self.maxpaths:
                raise Unsupported('too many paths in ' + self.label)
            try:
                r = self.go(s, depth, stop)
            except PathDone:
                continue
            except Unsupported as e:
                if s.frames and not getattr(e, 'where', None):
                    fr = s.frames[-1]
                    ins = fr.fn.blocks[fr.b]['instrs'][min(fr.i, len(fr.fn.blocks[fr.b]['instrs']) - 1)]
                    e.where = '%s b%d.%d line %s' % (fr.fn.pretty, fr.b, fr.i, ins.get('line'))
                    e.args = ('%s (at %s)' % (e.args[0], e.where),)
                raise
            if r is None:
                out.append(s)
            else:
                work.extend(r)
        return out

    def go(self, st, depth, stop=None):
        """Runs one state; None when it is final, else the list of successors."""
        while True:
            if len(st.frames) <= depth:
                return None
            fr = st.frames[-1]
            if stop is not None and (fr.i == 0 or self.stopret is stop and st.ghost.get('back')) and stop(st):
                st.done = 'stop'
                return None
            blk = fr.fn.blocks[fr.b]
            if fr.i == 0 and blk['nphi']:
                self.phis(st, fr, blk)
            if fr.pend:
                try:
                    r = self.loop_head(st, fr, blk)
                except Fork as f:
                    fr.i = blk['nphi']
                    return self.split(st, f.cond)
                fr.pend = False
                if r is not None:
                    return r
            ins = blk['instrs'][fr.i]
            op = ins['op']
            self.steps += 1
            try:
                if op == 'if':
                    c = self.val(st, ins['x'])
                    d = self.decide(st, c)
                    if d is None:
                        if self.merge:
                            r = self.try_merge(st, fr, blk, c)
                            if r is not None:
                                return r
                        raise Fork(c)
                    self.jump(st, fr, blk['succs'][0 if d else 1])
                elif op == 'jump':
                    self.jump(st, fr, blk['succs'][0])
                elif op == 'return':
                    res = [self.val(st, x) for x in ins['res']]
                    v = None if not res else res[0] if len(res) == 1 else TupleV(res)
                    self.ret(st, v)
                elif op == 'panic':
                    self.prove(st, False, 'panic reachable', 'panic')
                    raise PathDone()
                else:
                    r = self.instr(st, fr, ins)
                    if r is not None:
                        return r
            except Fork as f:
                return self.split(st, f.cond)

    def split(self, st, c):
        o = st.clone()
        res = []
        if self.assume(st, c):
            res.append(st)
        if self.assume(o, bnot(c)):
            res.append(o)
        return res

    def jump(self, st, fr, to):
        fr.prev, fr.b, fr.i, fr.pend = fr.b, to, 0, True

    def phis(self, st, fr, blk):
        pi = blk['preds'].index(fr.prev)
        new = []
        for j in range(blk['nphi']):
            ins = blk['instrs'][j]
            new.append((ins['n'], self.val(st, ins['edges'][pi])))
        for n, v in new:
            fr.regs[n] = v
        fr.i = blk['nphi']

    def loop_head(self, st, fr, blk):
        heads = fr.fn.loop_heads()
        if fr.b not in heads:
            return None
        h = self.inv.get((fr.fn.name, 'loop')) or self.inv.get((fr.fn.name, self.loop_ordinal(fr.fn, fr.b))) or self.inv.get('*')
        if h:
            fr.i = blk['nphi']
            r = h(self, st, fr, blk, heads[fr.b])
            if r is not None:
                return r
            return None
        if fr.prev in heads[fr.b]:
            n = fr.loopn.get(fr.b, 0) + 1
            fr.loopn[fr.b] = n
            if n > self.unroll:
                raise Unsupported('loop bound exceeded')
        else:
            fr.loopn[fr.b] = 0
        return None

    def loop_ordinal(self, fn, b):
        return sorted(fn.loop_heads()).index(b)

    stopret = None      # the stop function that is also asked after a call of a function with several returns

    def ret(self, st, v):
        if self.stopret is not None and sum(b['instrs'][-1]['op'] == 'return' for b in st.frames[-1].fn.blocks) > 1:
            st.ghost['back'] = True
        st.frames.pop()
        if st.frames:
            f = st.frames[-1]
            if st.ghost.get('__retk'):
                pass
            if f.ret is not None:
                f.regs[f.ret] = v
                f.ret = None
            f.i += 1
        else:
            st.done, st.result = 'return', v

    # ------------------------------------------------------------ merging
    def try_merge(self, st, fr, blk, c):
        j = fr.fn.ipdom().get(fr.b)
        if j is None:
            return None
        depth = len(st.frames)
        fn = fr.fn

        def at_join(s):
            return len(s.frames) == depth and s.frames[-1].b == j and s.frames[-1].fn is fn
        base_pc, base_lits, base_bm = list(st.pc), dict(st.lits), dict(st.bm)
        zc = zbool(c)
        sides = []
        nf = len(self.failures)
        for k, cc in ((0, c), (1, bnot(c))):
            s = st.clone()
            if not self.assume(s, cc):
                sides.append([])
                continue
            self.jump(s, s.frames[-1], blk['succs'][k])
            sides.append(self.run(s, depth - 1, at_join))
        fin = [s for side in sides for s in side if not (s.done == 'stop' and at_join(s))]
        A = [s for s in sides[0] if s.done == 'stop' and at_join(s)]
        B = [s for s in sides[1] if s.done == 'stop' and at_join(s)]
        for s in A + B:
            s.done = None
            if s.frames[-1].i == 0:
                self.phis(s, s.frames[-1], fn.blocks[j]) if fn.blocks[j]['nphi'] else None
        if len(A) == 1 and len(B) == 1 and not fin and not isinstance(c, FBool):
            try:
                m = self.merge_states(zc, st, A[0], B[0], base_pc, base_lits, base_bm)
                return [m]
            except Unsupported:
                pass
        return A + B + fin

    def merge_states(self, c, base, a, b, pc, lits, bm):
        m = a.clone()
        m.pc, m.lits, m.bm = pc, lits, bm
        m.n = max(a.n, b.n)
        # facts established on both sides, relative to the branch
        for s, g in ((a, c), (b, z3.Not(c))):
            for x in s.pc[len(pc):]:
                if zid(x) != zid(z3.simplify(g)):
                    self.assume(m, z3.Implies(g, x))
        fa, fb, fm = a.frames[-1], b.frames[-1], m.frames[-1]
        for r in list(fm.regs):
            if r not in fb.regs:
                del fm.regs[r]
            elif not same(fa.regs[r], fb.regs[r]):
                try:
                    fm.regs[r] = self.merge_val(c, fa.regs[r], fb.regs[r])
                except Unsupported:
                    fm.regs[r] = POISON
        for o in set(a.heap) | set(b.heap):
            if o not in a.heap:
                m.heap[o] = b.heap[o]
            elif o not in b.heap:
                pass
            elif not same(a.heap[o], b.heap[o]):
                m.heap[o] = self.merge_val(c, a.heap[o], b.heap[o])
        if a.trace != b.trace:
            raise Unsupported('merge of different traces')
        for k in set(a.ghost) | set(b.ghost):
            if not same(a.ghost.get(k), b.ghost.get(k)):
                raise Unsupported('merge of ghost state')
        for i in range(len(m.frames) - 1):
            pass
        return m

    def merge_val(self, c, a, b):
        if same(a, b):
            return a
        if a is POISON or b is POISON:
            return POISON
        if isinstance(a, Rope) and isinstance(b, Rope):
            return rite(c, a, b)
        if isinstance(a, BufV) and isinstance(b, BufV):
            return BufV(rite(c, a.rope, b.rope))
        if isinstance(a, StructV) and isinstance(b, StructV):
            return StructV(self.merge_val(c, x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) == len(b.e):
            return ArrV(self.merge_val(c, x, y) for x, y in zip(a.e, b.e))
        bl = (bool, z3.BoolRef, FBool)
        if isinstance(a, bl) and isinstance(b, bl):
            return simp(z3.If(c, zbool(a), zbool(b)))
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
            return z3.If(c, to_bv(a, w), to_bv(b, w))
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool):
            return IteV(c, a, b)
        return IteV(c, a, b)

    # ------------------------------------------------------------ instructions
    def instr(self, st, fr, ins):
        op = ins['op']
        v = None
        if op == 'fieldaddr':
            p = self.res(st, self.val(st, ins['x']))
            if p is POISON:
                v = POISON
            elif isinstance(p, Opaque):
                v = Opaque('%s.&%d' % (p.name, ins['i']))
            else:
                self.nonnil(st, p)
                v = Ptr(p.obj, p.path + (ins['i'],))
        elif op == 'unop':
            v = self.unop(st, ins)
        elif op == 'store':
            self.store(st, self.val(st, ins['addr']), self.val(st, ins['v']))
        elif op == 'binop':
            x, y = self.res(st, self.val(st, ins['x'])), self.res(st, self.val(st, ins['y']))
            v = self.binop(st, ins['tok'], x, y, ins['xt'], ins['yt'])
        elif op == 'phi':
            raise Unsupported('stray phi')
        elif op == 'call':
            return self.call(st, fr, ins)
        elif op == 'convert':
            v = self.convert(st, self.res(st, self.val(st, ins['x'])), ins['xt'], ins['t'])
        elif op in ('changetype', 'changeiface'):
            v = self.val(st, ins['x'])
        elif op == 'extract':
            v = self.val(st, ins['x'])[ins['i']]
        elif op == 'field':
            x = self.res(st, self.val(st, ins['x']))
            v = self.getpath(st, x, (ins['i'],))
        elif op == 'alloc':
            t = self.p.types[ins['t']]['e']
            v = Ptr(self.alloc(st, self.zero(t), '%s.%s' % (fr.fn.short, ins['n'])))
        elif op == 'indexaddr':
            v = self.indexaddr(st, ins)
        elif op == 'index':
            x, y = self.res(st, self.val(st, ins['x'])), self.res(st, self.val(st, ins['y']))
            v = self.index(st, x, self.as_lin(y), ins['xt'])
        elif op == 'lookup':
            x, y = self.res(st, self.val(st, ins['x'])), self.res(st, self.val(st, ins['y']))
            if isinstance(x, Rope):
                v = self.index(st, x, self.as_lin(y), ins['xt'])
            else:
                v = self.maplookup(st, x, y, ins)
        elif op == 'slice':
            v = self.slice(st, ins)
        elif op == 'makeslice':
            v = self.makeslice(st, ins)
        elif op == 'makeiface':
            v = Iface(ins['xt'], self.val(st, ins['x']))
        elif op == 'makeclosure':
            v = FuncV(ins['fn']['n'], [self.val(st, b) for b in ins['binds']])
        elif op == 'typeassert':
            v = self.typeassert(st, ins)
        elif op == 'makemap':
            v = Ptr(self.alloc(st, MapV({}), 'map'))
        elif op == 'mapupdate':
            m = self.res(st, self.val(st, ins['m']))
            k = self.val(st, ins['key'])
            self.nonnil(st, m, 'write to nil map')
            mv = self.objval(st, m.obj)
            if not isinstance(mv, MapV):
                raise Unsupported('map update')
            d = dict(mv.d)
            d[k] = self.val(st, ins['v'])
            st.heap[m.obj] = MapV(d)
        elif op == 'makechan':
            st.n += 1
            v = Opaque('chan:%s#%d' % (ins['n'], st.n))
            st.ghost[('chan', v.name)] = 'open'
        elif op == 'send':
            st.trace.append(('send', self.val(st, ins['chan']), self.val(st, ins['x'])))
        elif op == 'go':
            st.trace.append(('go', ins.get('fn') and ins['fn'].get('n'), tuple(self.val(st, a) for a in ins['args'])))
        elif op == 'defer':
            st.trace.append(('defer', ins['fn']['n'] if ins.get('fn') else None, tuple(self.val(st, a) for a in ins['args'])))
            f = self.res(st, self.val(st, ins['fn'])) if ins.get('fn') and ins.get('recv') is None else None
            fr.defers.append((f, tuple(self.val(st, a) for a in ins['args'])))
        elif op == 'rundefers':
            if fr.defers:
                f, args = fr.defers[-1]
                if not isinstance(f, FuncV):
                    raise Unsupported('deferred call of %r' % (f,))
                fr.i -= 1
                fr.defers = fr.defers[:-1]
                try:
                    return self.dispatch(st, fr, {'op': 'call', 'args': [], 'line': ins.get('line')}, f.name, f.binds, list(args))
                except Fork:
                    fr.i += 1
                    fr.defers = fr.defers + [(f, args)]
                    raise
        elif op == 'select':
            return self.select(st, fr, ins)
        else:
            raise Unsupported('instruction ' + op)
        if v is not None and 'n' in ins:
            fr.regs[ins['n']] = v
        fr.i += 1
        return None

    def select(self, st, fr, ins):
        """Any ready case; which one is arbitrary."""
        n = len(ins['states']) + (0 if ins['blocking'] else 1)
        st.n += 1
        k = 'select#%d' % st.n
        pick = n - 1
        for i in range(n - 1):
            b = z3.Bool('%s==%d' % (k, i))
            d = self.decide(st, b)
            if d is None:
                st.n -= 1
                raise Fork(b)
            if d:
                pick = i
                break
        if pick >= len(ins['states']):
            pick = -1
        elems = self.p.types[ins['t']]['elems']
        out = [pick, z3.Bool(k + '.ok')]
        j = 2
        for i, s in enumerate(ins['states']):
            if s['dir'] == 2:       # receive
                v = self.zero(elems[j]) if i != pick else self.sym(elems[j], '%s.recv%d' % (k, i))
                out.append(v)
                j += 1
                if i == pick:
                    st.trace.append(('selrecv', i, self.val(st, s['chan']), v))
            elif i == pick:
                st.trace.append(('send', self.val(st, s['chan']), self.val(st, s['send'])))
        fr.regs[ins['n']] = TupleV(out)
        fr.i += 1
        return None

    def maplookup(self, st, x, y, ins):
        if isinstance(x, Ptr) and x.null is True:
            z = self.zero(self.p.u(ins['xt'])['e'])
            return TupleV([z, False]) if ins.get('commaok') else z
        m = self.objval(st, x.obj) if isinstance(x, Ptr) else None
        if not isinstance(m, MapV):
            raise Unsupported('map lookup in %r' % (x,))
        v, ok = self.zero(self.p.u(ins['xt'])['e']), False
        for k in sorted(m.d, key=repr):
            c = self.equal(st, y, k, None)
            if c is True:
                v, ok = m.d[k], True
                break
            if c is not False:
                v, ok = self.merge_val(zbool(c), m.d[k], v), bor(c, ok)
        return TupleV([v, ok]) if ins.get('commaok') else v

    def unop(self, st, ins):
        x = self.val(st, ins['x'])
        tok = ins['tok']
        if tok == '*':
            return self.load(st, x)
        x = self.res(st, x)
        if x is POISON:
            return POISON
        if tok == '!':
            return bnot(x)
        if tok == '<-':
            return self.recv(st, x, ins)
        r = self.p.u(ins['xt'])
        n = r['name']
        if n in MATHINT:
            if tok == '-':
                return lmulc(x, -1)
            return lsub(-1, x)
        if n in INTW:
            w, s = INTW[n]
            if isinstance(x, int):
                return self.wrap(-x if tok == '-' else ~x, n)
            if isinstance(x, FB):
                return x.mapped(lambda v: self.wrap(-v if tok == '-' else ~v, n))
            return simp(-x if tok == '-' else ~x)
        if isinstance(x, z3.FPRef):
            return z3.fpNeg(x)
        return Opaque('%s(%r)' % (tok, x))

    def recv(self, st, ch, ins):
        st.n += 1
        t = ins['t']
        v = self.sym(t, 'recv#%d' % st.n) if not ins.get('commaok') else \
            TupleV([self.sym(self.p.types[t]['elems'][0] if 'elems' in self.p.types[t] else t, 'recv#%d' % st.n), z3.Bool('recvok#%d' % st.n)])
        st.trace.append(('recv', ch, v))
        return v

    def bound(self, st, c, what='index in range'):
        self.prove(st, c, what, 'bounds')

    def inrange(self, st, i, n):
        c = band2(lcmp('>=', i, 0), lcmp('<', i, n))
        if c is True:
            self.nob += 1
            self.ndis += 1
            return
        if c is False:
            self.prove(st, False, 'index out of range', 'bounds')
            raise PathDone()
        self.bound(st, c)

    def indexaddr(self, st, ins):
        x, y = self.res(st, self.val(st, ins['x'])), self.res(st, self.val(st, ins['y']))
        if x is POISON or y is POISON:
            return POISON
        y0 = y
        y = self.as_lin(y)
        if isinstance(x, SliceV):
            self.inrange(st, y, x.len)
            return Ptr(x.obj, x.path + (ladd(x.off, y),))
        if isinstance(x, Ptr):
            self.nonnil(st, x)
            t = self.p.u(self.p.u(ins['xt'])['e'])
            self.inrange(st, y, t['n'])
            return Ptr(x.obj, x.path + (y,))
        if isinstance(x, Opaque):
            return Opaque('%s[%r]' % (x.name, y))
        raise Unsupported('indexaddr of %r' % (x,))

    def index(self, st, x, y, t):
        if x is POISON or y is POISON:
            return POISON
        if isinstance(x, Rope):
            self.inrange(st, y, rlen(x))
            return self.bytesat(st, x, y)
        if isinstance(x, ArrV):
            self.inrange(st, y, len(x.e))
            return x.e[y] if isinstance(y, int) else self.symindex(st, x, y)
        raise Unsupported('index of %r' % (x,))

    def slice(self, st, ins):
        x = self.res(st, self.val(st, ins['x']))
        lo, hi, mx = (self.val(st, ins[k]) for k in ('lo', 'hi', 'max'))
        lo, hi, mx = (self.as_lin(self.res(st, z)) if z is not None else None for z in (lo, hi, mx))
        if x is POISON or lo is POISON or hi is POISON:
            return POISON
        lo = 0 if lo is None else lo
        dec = lambda c: self.decide(st, c)
        if isinstance(x, Rope):
            n = rlen(x)
            hi = n if hi is None else hi
            self.bound3(st, lo, hi, n)
            return rslice(x, lo, hi, dec)
        if isinstance(x, Ptr):
            if x.null is True and self.p.u(ins['xt'])['k'] == 'slice':
                x = NILSLICE
            else:
                self.nonnil(st, x)
                n = self.p.u(self.p.u(ins['xt'])['e'])['n']
                hi = n if hi is None else hi
                self.bound3(st, lo, hi, n)
                return SliceV(x.obj, lo, lsub(hi, lo), lsub(n, lo), x.path)
        if isinstance(x, SliceV):
            hi = x.len if hi is None else hi
            self.bound3(st, lo, hi, x.cap)
            self.extend(st, x, hi)
            return SliceV(x.obj, ladd(x.off, lo), lsub(hi, lo), lsub(mx if mx is not None else x.cap, lo), x.path)
        raise Unsupported('slice of %r' % (x,))

    def extend(self, st, x, hi):
        # Re-slicing beyond the known bytes exposes unspecified ones.
        o = st.heap.get(x.obj) if not x.path else None
        if isinstance(o, BytesObj):
            n = lsub(ladd(x.off, hi), rlen(o.rope))
            if isinstance(n, int) and 0 < n <= 4096:
                bs = []
                for _ in range(n):
                    st.n += 1
                    bs.append(('B', FB('unk%d' % st.n)))
                st.heap[x.obj] = BytesObj(rcat(o.rope, mkrope(bs)), o.size, o.ro)

    def bound3(self, st, lo, hi, n):
        c = z3.And(zbool(lcmp('<=', 0, lo)), zbool(lcmp('<=', lo, hi)), zbool(lcmp('<=', hi, n)))
        if c is not True:
            d = z3.simplify(c)
            if z3.is_false(d):
                self.prove(st, False, 'slice bounds out of range', 'bounds')
                raise PathDone()
            self.bound(st, c, 'slice bounds')

    def makeslice(self, st, ins):
        n, c = self.as_lin(self.val(st, ins['len'])), self.as_lin(self.val(st, ins['cap']))
        self.bound(st, band2(lcmp('>=', n, 0), lcmp('<=', n, c)), 'makeslice size')
        e = self.p.types[self.p.u(ins['t'])['e']]
        er = self.p.u(self.p.u(ins['t'])['e'])
        if er['k'] == 'basic' and er['name'] in ('byte', 'uint8'):
            if isinstance(n, int) and n <= 64:
                rope = rlit(bytes(n))
            else:
                rope = mkrope([('F', 'zeros', (n,))]) if n != 0 else EMPTY
                if n != 0:
                    L = seg_len(rope[0])
                    self.assume(st, lcmp('==', L, n))
            o = self.alloc(st, BytesObj(rope, c), 'make.' + ins['n'])
            return SliceV(o, 0, n, c)
        if isinstance(n, int) and isinstance(c, int) and c <= 4096:
            o = self.alloc(st, ArrV([self.zero(self.p.u(ins['t'])['e'])] * c), 'make.' + ins['n'])
            return SliceV(o, 0, n, c)
        return self.makeseq(st, ins, n, c)

    def makeseq(self, st, ins, n, c):
        raise Unsupported('make of symbolic length')

    def typeassert(self, st, ins):
        x = self.res(st, self.val(st, ins['x']))
        at = ins['at']
        atr = self.p.u(at)
        ok, v = None, None
        if isinstance(x, Iface):
            if x.t is None:
                ok, v = False, self.zero(at)
            elif atr['k'] == 'iface':
                ok, v = True, x
            else:
                ok = self.p.tname(x.t) == self.p.tname(at)
                v = x.v if ok else self.zero(at)
        elif isinstance(x, SymIface):
            nm = '%s:%s' % (x.name, self.p.tname(at).replace(MOD, ''))
            c = z3.Bool('is:' + nm)
            AXIOMS['is:' + nm] = z3.Implies(c, z3.Not(zbool(x.null)))
            others = st.ghost.get(('types', x.name), ())
            for o in others:
                if o != nm:
                    AXIOMS['is2:%s:%s' % tuple(sorted((o, nm)))] = z3.Not(z3.And(c, z3.Bool('is:' + o)))
            if nm not in others:
                st.ghost[('types', x.name)] = others + (nm,)
            d = self.decide(st, c)
            if d is None:
                raise Fork(c)
            ok = d
            if d:
                if atr['k'] == 'iface':
                    v = x
                else:
                    v = self.sym(at, nm)
                    if isinstance(v, Ptr):
                        v = Ptr(v.obj, v.path, False)
            else:
                v = self.zero(at)
        else:
            raise Unsupported('type assertion on %r' % (x,))
        if ins['commaok']:
            return TupleV([v, ok])
        self.prove(st, ok, 'type assertion holds', 'panic')
        if ok is False:
            raise PathDone()
        return v

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        args = [self.val(st, a) for a in ins['args']]
        if 'recv' in ins and ins.get('recv') is not None:
            rv = self.res(st, self.val(st, ins['recv']))
            if isinstance(rv, Iface):
                if rv.t is None:
                    self.prove(st, False, 'method call on nil interface', 'nil')
                    raise PathDone()
                name = self.p.methods.get(self.p.types[rv.t]['s'] + '.' + ins['mname'])
                if name is None:
                    name = '(%s).%s' % (self.p.types[rv.t]['s'], ins['mname'])
                args = [rv.v] + args
                return self.dispatch(st, fr, ins, name, (), args)
            if isinstance(rv, SymIface):
                if rv.null is not False:
                    self.prove(st, bnot(rv.null), 'method call on nil interface', 'nil')
                h = self.models.get('iface.' + ins['mname'])
                if h:
                    return self.finish(st, fr, ins, h, [rv] + args)
                v = self.sym(ins['rt'], '%s.%s()' % (rv.name, ins['mname'])) if self.p.types[ins['rt']].get('k') != 'tuple' or True else None
                return self.done(st, fr, ins, self.untuple(v))
            if isinstance(rv, Opaque):
                h = self.models.get('iface.' + ins['mname'])
                if h:
                    return self.finish(st, fr, ins, h, [rv] + args)
                return self.done(st, fr, ins, self.untuple(self.sym(ins['rt'], '%s.%s()' % (rv.name, ins['mname']))))
            raise Unsupported('invoke on %r' % (rv,))
        f = self.res(st, self.val(st, ins['fn']))
        if isinstance(f, FuncV):
            return self.dispatch(st, fr, ins, f.name, f.binds, args)
        if isinstance(f, Opaque):
            h = self.models.get('opaque-call')
            if h:
                return self.finish(st, fr, ins, lambda e, s, a, i: h(e, s, f, a, i), args)
        raise Unsupported('call of %r' % (f,))

    def untuple(self, v):
        if isinstance(v, TupleV):
            return None if len(v) == 0 else v[0] if len(v) == 1 else v
        return v

    def done(self, st, fr, ins, v):
        if 'n' in ins:
            fr.regs[ins['n']] = v
        fr.i += 1
        return None

    def finish(self, st, fr, ins, h, args):
        snap_h, snap_t, snap_n = dict(st.heap), len(st.trace), st.n
        snap_g = dict(st.ghost)
        try:
            v = h(self, st, args, ins)
        except Fork:
            st.heap, st.n, st.ghost = snap_h, snap_n, snap_g
            del st.trace[snap_t:]
            raise
        if isinstance(v, Inline):
            fr.ret = ins.get('n')
            self.start(st, v.fn, v.args, v.binds)
            return None
        return self.done(st, fr, ins, v)

    def dispatch(self, st, fr, ins, name, binds, args):
        c = self.contracts.get(name.replace(MOD, ''))
        if c is not None:
            return self.finish(st, fr, ins, c, args)
        m = self.models.get(name.replace(MOD, ''))
        if m is not None:
            self.models_used.add(name.replace(MOD, ''))
            return self.finish(st, fr, ins, m, args)
        f = self.p.funcs.get(name)
        if f is not None and f.blocks:
            if len(st.frames) > 60:
                raise Unsupported('recursion in ' + name)
            fr.ret = ins.get('n')
            self.start(st, f, args, binds)
            return None
        raise Unsupported('no contract for ' + name)


class Inline:
    def __init__(self, fn, args, binds=()):
        self.fn, self.args, self.binds = fn, args, binds


def band2(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(zbool(a), zbool(b))
