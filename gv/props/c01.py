"""C01: parsing is total.

ParseMsg and ParseURI are cut at their control points (machine.py).  From every control point the code up to the next ones is
executed once on arbitrary registers and heap; this gives the edges of the control graph with the guard, the new registers and
the obligations of each (indices in range, no nil dereference, an address is linked into a message only with a URI, exactly one
of value and error is returned).  An invariant per control point - differences between the integer registers, 0 and the length
of the input; pointers that are not nil; addresses that have a URI - is proposed by abstract interpretation, and then checked by
the solver edge by edge: it holds at the first control points, every edge keeps it, and it implies every obligation.

Termination: every edge either moves the position or is on no cycle of edges that do not, except for the edges that go back to
the mark; for these it is shown that the mark has moved since the last one, or that control has reached a part of the machine
from which the earlier one is not reached with the same mark (an order on these edges)."""
import os, time
from .machine import *

REPLAY = [('sip', 'TestVerifC01')]
SECS = 20
TRUSTED = {'bytes.IndexByte': 'an index in the slice or -1'}
ASSUME = ['the input is not nil (nil gives neither a value nor an error) and shorter than 2^62 bytes']
INF = 1 << 60


def verify(c):
    from .hdr import last_addr
    c.section('sip.lastAddr', last_addr, c)
    c.section('sip.ParseURI', Total(c, 'sip.ParseURI').run)
    c.section('sip.ParseMsg', Total(c, 'sip.ParseMsg').run)


def m_line(t):
    return t.m.fn.line


class Edge:
    __slots__ = ('bg', 'src', 'guards', 'obl', 'dst', 'regs', 'facts', 'what')


class Total:
    def __init__(self, c, name):
        self.c, self.name = c, name

    def run(self):
        c = self.c
        m = self.m = Machine(c, self.name)

        def either(tag, t):
            def h(e, st, a, ins):
                k = '%s:%d:%d' % (tag, st.n, len(st.trace))
                b = z3.Bool(k)
                d = e.decide(st, b)
                if d is None:
                    raise Fork(b)
                st.n += 1
                if d:
                    return TupleV([Ptr(k + '^'), NILIFACE])
                return TupleV([NIL, SymIface('err:' + k, False)])
            return h

        def slot(e, st, a, ins):
            p = e.res(st, a[0])
            e.nonnil(st, p)
            st.n += 1
            return Ptr('slot%d^' % st.n)

        def index(e, st, a, ins):
            return atom('IndexByte', -1, V.MAXLEN)

        def text(e, st, a, ins):
            return ratom('text')

        def err(e, st, a, ins):
            return SymIface('error', False)
        con = {}
        if self.name != 'sip.ParseURI':
            con['sip.ParseURI'] = either('uri', 'URI')
        con['sdp.Parse'] = either('sdp', 'SDP')
        con['sip.lastAddr'] = slot
        con = {k: v for k, v in con.items() if k == 'sdp.Parse' or c.prog.fn(k)}
        e = self.e = c.engine(self.name, con, {'bytes.IndexByte': index, 'fmt.Sprintf': text, 'errors.New': err})
        e.merge = False
        # the contents of texts do not matter here
        e.slice_rope = self.some_text
        e.symstore = lambda st, a, x, new: a
        e.bytestore = lambda st, v, i, new: v
        m.install(e)
        # -- recording instead of proving

        def prove(st, cond, what, kind='contract', fn=None, line=None):
            if cond is True:
                e.nob += 1
                e.ndis += 1
                return True
            if isinstance(cond, FBool) and X.Engine.decide(e, st, cond) is True:
                return True
            f = st.frames[-1] if st.frames else None
            st.ghost['obl'] = st.ghost.get('obl', ()) + ((what, line or self.line(st), zbool(cond), len(st.pc), dict(st.bm)),)
            X.Engine.assume(e, st, cond)
            return True
        e.prove = prove

        def decide(st, cond):
            if isinstance(cond, bool):
                return cond
            if isinstance(cond, FBool):
                return X.Engine.decide(e, st, cond)
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                return True
            if z3.is_false(cond):
                return False
            neg = z3.is_not(cond)
            k = X.zid(cond.arg(0) if neg else cond)
            if k in st.lits:
                return st.lits[k] != neg
            return None
        e.decide = decide

        def stored(e, st, p, v):
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.b]['instrs'][fr.i]
            if ins['op'] != 'store':
                return
            x = ins['v']
            t = c.prog.types[x['t']]['s'] if x and 't' in x else None
            if t is None and x and x['k'] == 'r':
                t = c.prog.types[m.types[x['n']]]['s'] if fr.fn is m.fn and m.types.get(x['n']) is not None else None
            v = e.res(st, v)
            if t and t.endswith('sip.URI') and isinstance(v, Ptr) and not self.is_msg(st, p) and p.path and v.null is not False:
                # only on the way to returning an error
                st.ghost['nouri'] = bor(st.ghost.get('nouri', False), v.null)
            if isinstance(v, Ptr) and v.null is not True:
                if t and t.endswith('sip.Addr') and t.startswith('*') and not t.startswith('**'):
                    # an address becomes part of a message
                    self.links += 1
                    e.prove(st, bor(v.null, bnot(self.no_uri(st, v))), 'an address is linked only with a URI')
        e.hooks['store'] = stored
        self.links = 0
        st = c.state(e)
        f = m.fn
        args = [e.sym(p['t'], p['n']) for p in f.params]
        self.arg = args[0]
        c.functions.add(f.pretty)
        self.L = args[0].len
        t0 = time.time()
        self.edges = []
        first = m.begin(e, st, args)
        self.fixed, self.roots = {}, {}
        todo, seen = [], set()
        for o in first:
            if m.at(o) is not None:
                for r, v in o.frames[-1].regs.items():
                    if r not in self.phis_of(m.at(o)):
                        self.fixed.setdefault(r, v)
                for k, v in o.heap.items():
                    if k not in st.heap:
                        self.roots[k] = v
            ed = self.edge(None, o)
            todo.append(ed.dst)
        while todo:
            j = todo.pop()
            if j in seen or not isinstance(j, int):
                continue
            seen.add(j)
            s = self.arbitrary(j)
            for o in m.step(e, s):
                todo.append(self.edge(j, o).dst)
        self.points = seen
        t1 = time.time()
        inv = self.infer()
        t2 = time.time()
        self.check(inv)
        t3 = time.time()
        self.ranking(inv)
        t4 = time.time()
        if self.name == 'sip.ParseMsg':
            X.Engine.prove(e, st, self.links >= 2, 'vacuity guard: addresses are linked (%d stores)' % self.links)
        c.notes.append('%s: %d control points, %d edges; edges %.1fs, invariant %.1fs, solver %.1fs, termination %.1fs' % (
            self.name, len(seen), len(self.edges), t1 - t0, t2 - t1, t3 - t2, t4 - t3))
        if os.environ.get('VERIF_DEBUG'):
            print(c.notes[-1])

    # -------------------------------------------------------------- helpers
    def some_text(self, st, s):
        st.n += 1
        return ratom('text%d' % st.n)

    def line(self, st):
        if not st.frames:
            return None
        fr = st.frames[-1]
        return fr.fn.blocks[fr.b]['instrs'][min(fr.i, len(fr.fn.blocks[fr.b]['instrs']) - 1)].get('line')

    def phis_of(self, j):
        b = self.m.fn.blocks[j]
        return {i['n'] for i in b['instrs'][:b['nphi']]}

    def is_msg(self, st, p):
        v = st.heap.get(p.obj)
        return isinstance(v, StructV) and len(v.f) > 20

    def no_uri(self, st, p):
        """Condition: the address p points to has no URI."""
        v = self.e.getpath(st, self.e.objval(st, p.obj), p.path)
        u = self.e.res(st, v.f[0])
        return u.null

    def is_addr(self, t):
        s = self.c.prog.types[t]['s'] if t is not None else ''
        return s.startswith('*') and not s.startswith('**') and s.endswith('sip.Addr')

    def kind(self, r):
        t = self.m.types.get(r)
        u = self.c.prog.u(t)
        if u['k'] == 'ptr':
            return 'ptr'
        if u['k'] == 'basic' and u['name'] in ('int', 'int64'):
            return 'int'
        return u['k']

    def arbitrary(self, j):
        """An arbitrary state at a control point."""
        e, m = self.e, self.m
        s = self.c.state(e)
        for k, v in self.roots.items():
            s.heap[k] = self.generic(k, v)
        f = X.Frame(m.fn)
        f.b = j
        for r in m.live[j]:
            if r in self.fixed and r not in self.phis_of(j):
                f.regs[r] = self.fixed[r]
            else:
                f.regs[r] = self.reg(r)
        s.frames.append(f)
        s.n = 1000
        return s

    def generic(self, k, v):
        t = self.e.objtypes.get(k)
        if isinstance(v, StructV):
            for i in (x for b in self.m.fn.blocks for x in b['instrs'] if x['op'] == 'alloc'):
                u = self.c.prog.u(i['t'])
                z = self.e.zero(u['e'])
                if isinstance(z, StructV) and len(z.f) == len(v.f) and z == v:
                    return self.e.sym(u['e'], k)
            raise Unsupported('object %s' % k)
        if isinstance(v, BytesObj):
            return v
        if v is None or v == NIL or isinstance(v, Rope):
            return v
        return v

    def reg(self, r):
        if self.kind(r) == 'int':
            return atom('r:' + r)
        return self.e.sym(self.m.types[r], 'r:' + r)

    def edge(self, src, o):
        ed = Edge()
        ed.src = src
        ed.guards = list(o.pc)
        ed.obl = o.ghost.get('obl', ())
        j = self.m.at(o)
        ed.what = None
        ed.regs, ed.facts = {}, {}
        if j is None:
            ed.dst = 'return'
            r = o.result
            v, er = self.e.res(o, r[0]), self.e.res(o, r[1])
            nv, ne = self.null(v), self.null(er)
            x = bor(band(nv, bnot(ne)), band(bnot(nv), ne))
            if src is None and nv is True and ne is True:
                ed.what = 'nil'
                cond = z3.simplify(zbool(self.e.equal(o, self.arg, NILSLICE, None)))
                X.Engine.prove(self.e, o, any(g.eq(cond) for g in o.pc), 'neither value nor error is returned only for a nil input', 'post', fn=self.name)
            else:
                if o.ghost.get('nouri', False) is not False:
                    ed.obl = ed.obl + (('an address without URI is not returned', m_line(self), zbool(bor(nv, bnot(o.ghost['nouri']))), len(o.pc), {}),)
                ed.obl = ed.obl + (('exactly one of value and error is returned', self.m.fn.line, zbool(x), len(o.pc), {}),)
        else:
            ed.dst = j
            if o.ghost.get('nouri', False) is not False:
                ed.obl = ed.obl + (('the URI of an address is not nil', m_line(self), zbool(bnot(o.ghost['nouri'])), len(o.pc), {}),)
            for r in self.m.live[j]:
                if r in self.fixed and r not in self.phis_of(j):
                    if not V.same(o.frames[-1].regs[r], self.fixed[r]):
                        raise Unsupported('register %s changes' % r)
                    continue
                v = o.frames[-1].regs[r]
                k = self.kind(r)
                if k == 'int':
                    ed.regs[r] = v
                elif k == 'ptr':
                    v = self.e.res(o, v)
                    ed.facts[r] = self.null(v)
                    if self.is_addr(self.m.types[r]):
                        ed.facts[r + '.uri'] = True if v.null is True else self.no_uri(o, v)
        self.edges.append(ed)
        return ed

    def null(self, v):
        if isinstance(v, (Ptr, SymIface)):
            return v.null
        if isinstance(v, Iface):
            return v.t is None
        raise Unsupported('nil test of %r' % (v,))

    # -------------------------------------------------------------- inference
    def vars(self, j):
        return ['0', 'L'] + sorted(r for r in self.m.live[j] if self.kind(r) == 'int' and not (r in self.fixed and r not in self.phis_of(j)))

    def term(self, v):
        """(variable, constant) of a value, or None."""
        if isinstance(v, int) and not isinstance(v, bool):
            return ('0', v)
        if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1:
            n = v.t[0][0]
            if isinstance(self.L, Lin) and n == self.L.t[0][0]:
                return ('L', v.c)
            if n.startswith('r:'):
                return (n[2:], v.c)
        return None

    def diffs(self, g, out):
        """Difference constraints x - y <= c of a guard."""
        if z3.is_and(g):
            for x in g.children():
                self.diffs(x, out)
            return
        neg = False
        if z3.is_not(g):
            g, neg = g.arg(0), True
        d = g.decl().kind()
        if d not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_int(g.arg(0)):
            return
        a, b = self.poly(g.arg(0)), self.poly(g.arg(1))
        if a is None or b is None:
            return
        p = dict(a[0])
        for k, v in b[0].items():
            p[k] = p.get(k, 0) - v
        p = {k: v for k, v in p.items() if v}
        k = b[1] - a[1]          # p  op  k
        op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}[d]
        if neg:
            if op == '==':
                out.append(('!=', p, k))
                return
            op = {'<=': '>', '>=': '<', '<': '>=', '>': '<='}[op]
        if op in ('<=', '<', '=='):
            self.le(p, k - (op == '<'), out)
        if op in ('>=', '>', '=='):
            self.le({x: -v for x, v in p.items()}, -k - (op == '>'), out)

    def le(self, p, k, out):
        pos = [x for x, v in p.items() if v == 1]
        neg = [x for x, v in p.items() if v == -1]
        if len(pos) + len(neg) != len(p) or len(pos) > 1 or len(neg) > 1:
            return
        out.append((pos[0] if pos else '0', neg[0] if neg else '0', k))

    def poly(self, t):
        if z3.is_int_value(t):
            return {}, t.as_long()
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            p, c = {}, 0
            for x in t.children():
                r = self.poly(x)
                if r is None:
                    return None
                for a, v in r[0].items():
                    p[a] = p.get(a, 0) + v
                c += r[1]
            return p, c
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
            r = self.poly(t.arg(1))
            m = t.arg(0).as_long()
            return r and ({a: v * m for a, v in r[0].items()}, r[1] * m)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
            n = t.decl().name()
            n = self.names.get(n, n)
            if n.startswith('r:'):
                return {n[2:]: 1}, 0
            if n == 'L':
                return {'L': 1}, 0
            return {n: 1}, 0
        return None

    def infer(self):
        self.names = {}
        for n, a in ATOMS.items():
            if a.expr.num_args() == 0:
                self.names[a.expr.decl().name()] = n
        ln = self.L.t[0][0]
        self.names[ATOMS[ln].expr.decl().name()] = 'L'
        out = {}
        for ed in self.edges:
            ed_d = []
            for g in ed.guards:
                self.diffs(g, ed_d)
            out.setdefault(ed.src, []).append((ed, ed_d))
        self.out = out
        for l in out.values():
            for ed, ds in l:
                ed.bg = [g for g in (z3.simplify(g) for g in ed.guards) if (g.arg(0) if z3.is_not(g) else g).num_args() == 0]
        inv, cnt = {}, {}
        work = []
        order = {}
        st = [(None, iter([x for x, _ in out.get(None, ())]))]
        seen = set()
        while st:
            for ed in st[-1][1]:
                if isinstance(ed.dst, int) and ed.dst not in seen:
                    seen.add(ed.dst)
                    st.append((ed.dst, iter([x for x, _ in out.get(ed.dst, ())])))
                    break
            else:
                order[st.pop()[0]] = -len(order)
        import heapq
        queued = set()

        def flow(src):
            for ed, ds in out.get(src, ()):
                if not isinstance(ed.dst, int):
                    continue
                new = self.post(inv.get(src), src, ed, ds)
                if new is None:
                    continue
                old = inv.get(ed.dst)
                j = self.join(old, new, cnt.get(ed.dst, 0))
                if j is not None:
                    inv[ed.dst] = j
                    cnt[ed.dst] = cnt.get(ed.dst, 0) + 1
                    if ed.dst not in queued:
                        queued.add(ed.dst)
                        heapq.heappush(work, (order.get(ed.dst, 0), ed.dst))
        flow(None)
        while work:
            _, x = heapq.heappop(work)
            queued.discard(x)
            flow(x)
        return inv

    def closed(self, I, src, ds):
        """Shortest paths of the invariant and the guard; None when infeasible."""
        vs = self.vars(src) if src is not None else ['0', 'L']
        D = {(x, y): 0 if x == y else INF for x in vs for y in vs}
        if I:
            for k, v in I[0].items():
                D[k] = v
        D['0', 'L'] = min(D['0', 'L'], 0)
        nes = []
        for d in ds:
            if d[0] == '!=':
                nes.append(d)
                continue
            x, y, k = d
            if (x, y) in D:
                D[x, y] = min(D[x, y], k)
        self.floyd(D, vs)
        for _ in range(2):
            ch = False
            for _, p, k in nes:
                t = []
                self.le(p, k, t)
                if len(t) != 1:
                    continue
                x, y, k = t[0]
                if (x, y) not in D:
                    continue
                # x - y != k
                if D[x, y] == k:
                    D[x, y] = k - 1
                    ch = True
                if D[y, x] == -k:
                    D[y, x] = -k - 1
                    ch = True
            if not ch:
                break
            self.floyd(D, vs)
        if any(D[x, x] < 0 for x in vs):
            return None
        return D

    def floyd(self, D, vs):
        for k in vs:
            for i in vs:
                a = D[i, k]
                if a >= INF:
                    continue
                for j in vs:
                    b = D[k, j]
                    if b < INF and a + b < D[i, j]:
                        D[i, j] = a + b

    def post(self, I, src, ed, ds):
        F = I[1] if I else frozenset()
        # guards on pointers
        for g in ed.bg:
            if self.evalb(g, F) is False:
                return None
        D = self.closed(I, src, ds)
        if D is None:
            return None
        vs = self.vars(ed.dst)
        t = {'0': ('0', 0), 'L': ('L', 0)}
        for r, v in ed.regs.items():
            t[r] = self.term(v)
        N = {}
        for x in vs:
            for y in vs:
                if x != y and t.get(x) and t.get(y):
                    (a, ca), (b, cb) = t[x], t[y]
                    d = D.get((a, b), INF)
                    if d < INF:
                        N[x, y] = d + ca - cb
        facts = frozenset(r for r, n in ed.facts.items() if self.evalb(n, F, ed.bg) is False)
        return N, facts

    def evalb(self, b, F, guards=()):
        """Truth of a condition on pointers, given those that are not nil."""
        if isinstance(b, bool):
            return b
        b = z3.simplify(zbool(b))
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if z3.is_not(b):
            r = self.evalb(b.arg(0), F, guards)
            return None if r is None else not r
        for g in guards:
            if g.eq(b):
                return True
            if z3.is_not(g) and g.arg(0).eq(b):
                return False
        if b.num_args() == 0:
            n = b.decl().name()
            if n.startswith('r:') and n.endswith('==nil'):
                k = n[2:-5]
                k = k[:-4] + '.uri' if k.endswith('.Uri') else k
                k = k.replace('^', '')
                if k in F:
                    return False
        return None

    TH = (-2, -1, 0, 1, 2, 3)

    def join(self, old, new, n):
        """Join with widening; None when nothing changes."""
        if old is None:
            return new
        N = {}
        ch = False
        for k, v in old[0].items():
            w = new[0].get(k)
            if w is None:
                ch = True
            elif w > v:
                ch = True
                if n > 3:
                    t = [x for x in self.TH if x >= w]
                    if not t or n > 40:
                        continue
                    w = t[0]
                N[k] = w
            else:
                N[k] = v
        f = old[1] & new[1]
        if f != old[1]:
            ch = True
        return (N, f) if ch else None

    # -------------------------------------------------------------- checking
    def formula(self, I, j, regs=None, facts=None):
        """Invariant as formulas; on the registers of j, or on the values after an edge."""
        def val(x):
            if x == '0':
                return 0
            if x == 'L':
                return self.L
            return regs[x] if regs is not None else atom('r:' + x)
        out = []
        for (x, y), k in I[0].items():
            out.append((lcmp('<=', lsub(val(x), val(y)), k), '%s - %s <= %d' % (x, y, k)))
        for r in I[1]:
            if facts is not None:
                cond = bnot(facts[r])
            else:
                n = 'r:' + (r[:-4] + '.Uri' if r.endswith('.uri') else r) + '==nil'
                cond = z3.Not(z3.Bool(n))
            out.append((cond, r + ' is not nil'))
        return out

    def check(self, inv):
        """Every edge: invariant and guard imply the obligations and the invariant behind the edge."""
        c, e = self.c, self.e
        base = [a.expr >= a.lo for a in [ATOMS[self.L.t[0][0]]]]
        base += [x.expr <= x.hi for x in [ATOMS[self.L.t[0][0]]] if x.hi is not None]
        base += [a.expr >= a.lo for n, a in ATOMS.items() if n.startswith('slack:') and a.lo is not None]
        self.base = base
        by = {}
        for ed in self.edges:
            by.setdefault(ed.src, []).append(ed)
        fails = {}
        unreached = 0
        for src, eds in by.items():
            if src is not None and src not in inv:
                unreached += 1
                continue
            pre = [zbool(x) for x, _ in self.formula(inv[src], src)] if src is not None else []
            s = z3.Solver()
            s.set('timeout', 20000)
            for x in base + pre:
                s.add(x)
            for ed in eds:
                if ed.what == 'nil':
                    continue
                s.push()
                t = time.time()
                todo = []
                done = 0
                goals = [(w, ln, cnd, k) for w, ln, cnd, k, bm in ed.obl]
                if isinstance(ed.dst, int):
                    if ed.dst not in inv:
                        goals.append(('the edge is not taken', None, z3.BoolVal(False), len(ed.guards)))
                    else:
                        for cnd, txt in self.formula(inv[ed.dst], ed.dst, ed.regs, ed.facts):
                            goals.append(('invariant of control point %d: %s' % (ed.dst, txt), None, zbool(cnd), len(ed.guards)))
                # all at once first
                gi = 0
                conj = []
                for w, ln, cnd, k in goals:
                    g = z3.And([zbool(x) for x in ed.guards[:k]]) if k else z3.BoolVal(True)
                    conj.append(z3.Implies(g, cnd))
                e.nob += len(goals)
                for w, ln, cnd, k in goals:
                    kk = 'invariant' if w.startswith('invariant') else 'bounds' if 'range' in w else 'safety'
                    e.kinds[kk] = e.kinds.get(kk, 0) + 1
                if conj:
                    s.push()
                    s.add(z3.Not(z3.And(conj)))
                    r = s.check()
                    s.pop()
                    if r == z3.unsat:
                        done = len(goals)
                    else:
                        for (w, ln, cnd, k), x in zip(goals, conj):
                            s.push()
                            s.add(z3.Not(x))
                            r = s.check()
                            s.pop()
                            if r == z3.unsat:
                                done += 1
                            else:
                                if os.environ.get('VERIF_DEBUG'):
                                    print('FAIL', src, ed.dst, w, ln, ' '.join(cnd.sexpr().split())[:400], [str(g) for g in ed.guards[:k]], inv.get(src, ('',''))[0] if 'slice' in w else '')
                                fails.setdefault((w.split(':')[0] if w.startswith('inv') else w, ln), []).append(src)
                e.ndis += done
                e.solver_time += time.time() - t
                s.pop()
        for (w, ln), srcs in sorted(fails.items(), key=str):
            e.failures.append(X.Failure(self.name, ln or self.m.fn.line, '%s (%d edges, control points %s)' % (w, len(srcs), srcs[:4])))
        self.inv = inv

    # -------------------------------------------------------------- termination
    def ranking(self, inv):
        """Termination: see Rank."""
        Rank(self, inv).run()


class Rank:
    """A lexicographic measure.  Candidates are differences L - x + k for the integer registers; the cycles of the control graph
    are broken one component at a time: in a component, an edge is removed when some measure never grows on the edges of the
    component and shrinks on this one; what is left is decomposed again, until no cycle is left."""

    def __init__(self, t, inv):
        self.t, self.inv = t, inv

    def run(self):
        t = self.t
        edges = []
        for src, l in t.out.items():
            if src is None or src not in self.inv:
                continue
            for ed, ds in l:
                if isinstance(ed.dst, int) and ed.dst in self.inv:
                    D = t.closed(self.inv[src], src, ds)
                    if D is not None:
                        edges.append((ed, D))
        self.used = []
        ok, why = self.solve(edges)
        if ok:
            bad = self.confirm()
            ok, why = bad == 0, '%d edges' % bad
        X.Engine.prove(t.e, t.c.state(t.e), ok, 'terminates: a measure decreases on every cycle%s' % ('' if ok else ' (%s)' % why), 'termination', fn=t.name, line=t.m.fn.line)

    def solve(self, edges):
        nodes = sorted({e.src for e, _ in edges} | {e.dst for e, _ in edges})
        num = {x: k for k, x in enumerate(nodes)}
        succ = [[] for _ in nodes]
        for e, _ in edges:
            succ[num[e.src]].append(num[e.dst])
        comp = sccs(succ)
        groups = {}
        for e, D in edges:
            k = comp[num[e.src]]
            if k == comp[num[e.dst]]:
                groups.setdefault(k, []).append((e, D))
        for k, es in sorted(groups.items()):
            for meas in self.measures(es):
                left = self.apply(es, meas)
                if left is not None and len(left) < len(es):
                    break
            else:
                return False, 'control points %s' % sorted({e.src for e, _ in es})[:6]
            if left:
                ok, why = self.solve(left)
                if not ok:
                    return ok, why
        return True, ''

    def classes(self):
        """Variables of the program: registers that stand for the same variable (only used to propose measures)."""
        if hasattr(self, '_cls'):
            return self._cls
        m = self.t.m
        own, via = {}, {}
        for b in m.fn.blocks:
            for i in b['instrs'][:b['nphi']]:
                own[i['n']] = i.get('comment') or i['n']
        for b in m.fn.blocks:
            for i in b['instrs'][:b['nphi']]:
                for x in i['edges']:
                    if x['k'] == 'r' and x['n'] not in own:
                        via.setdefault(x['n'], set()).add(own[i['n']])
        self._cls = (own, via)
        return self._cls

    def reg(self, j, v):
        own, via = self.classes()
        rs = [r for r in self.t.vars(j)[2:]]
        a = [r for r in rs if own.get(r) == v]
        if len(a) == 1:
            return a[0]
        b = [r for r in rs if v in via.get(r, ())]
        if not a and len(b) == 1:
            return b[0]
        return None

    def measures(self, es):
        own, via = self.classes()
        js = {e.src for e, _ in es} | {e.dst for e, _ in es}
        names = sorted({own[r] for j in js for r in self.t.vars(j)[2:] if r in own} | {v for j in js for r in self.t.vars(j)[2:] for v in via.get(r, ())})
        for sign in (1, -1):
            for a in names:
                yield (sign, a, a)
            for a in names:
                for b in names:
                    if a != b:
                        yield (sign, a, b)

    def apply(self, es, meas):
        """Edges left when the measure (v, or w where v is not there) never falls on these edges; None when it may."""
        sign, v, w = meas
        m = {}
        for j in {e.src for e, _ in es} | {e.dst for e, _ in es}:
            m[j] = self.reg(j, v) or self.reg(j, w)
            if m[j] is None:
                return None
            I = self.inv[j][0]
            if (I.get((m[j], 'L')) if sign > 0 else I.get(('0', m[j]))) is None:
                return None
        W = []
        for e, D in es:
            x = m[e.src]
            t = self.t.term(e.regs.get(m[e.dst]))
            if t is None:
                return None
            y, c = t
            if sign > 0:
                d = D.get((x, y), INF)          # x - y <= d
                if d >= INF:
                    return None
                W.append((e, D, c - d))
            else:
                d = D.get((y, x), INF)          # y - x <= d:  x - y' >= -d - c
                if d >= INF:
                    return None
                W.append((e, D, -d - c))
        # potentials k with  k[src] <= k[dst] + weight
        pot = {j: 0 for j in m}
        for n in range(len(m) + 1):
            ch = False
            for e, D, wt in W:
                if pot[e.src] > pot[e.dst] + wt:
                    pot[e.src] = pot[e.dst] + wt
                    ch = True
            if not ch:
                break
        else:
            return None
        left = []
        for e, D, wt in W:
            if pot[e.dst] + wt - pot[e.src] == 0:
                left.append((e, D))
        self.used.append((es, m, pot, sign, {id(e) for e, _ in left}))
        return left

    def confirm(self):
        """The solver confirms on every edge that the measure chosen for its part of the graph does not fall, or grows."""
        t = self.t
        by = {}
        for es, m, pot, sign, left in self.used:
            for e, _ in es:
                by.setdefault(e.src, []).append((e, m, pot, sign, id(e) in left))
        bad = 0
        for src, l in by.items():
            s = z3.Solver()
            s.set('timeout', 20000)
            for x in t.base + [zbool(x) for x, _ in t.formula(self.inv[src], src)]:
                s.add(x)
            for e, m, pot, sign, keep in l:
                s.push()
                for g in e.guards:
                    s.add(g)
                a = lmulc(atom('r:' + m[src]), sign)
                b = lmulc(lin(e.regs[m[e.dst]]), sign)
                goal = lcmp('>=', ladd(b, pot_neg(pot, e.dst)), ladd(ladd(a, pot_neg(pot, src)), 0 if keep else 1))
                s.add(z3.Not(zbool(goal)))
                t.e.nob += 1
                t.e.kinds['termination'] = t.e.kinds.get('termination', 0) + 1
                if s.check() == z3.unsat:
                    t.e.ndis += 1
                else:
                    bad += 1
                s.pop()
        return bad


def pot_neg(pot, j):
    return pot[j]
