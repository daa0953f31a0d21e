"""Contracts of the linked lists of package sip (Via, Addr, Param, URIParam, ...) and their discharge.

A list is the chain of objects reached through Next. The contracts:
  Last(p)      = nil if p = nil; p if p.Next = nil; Last(p.Next) otherwise
  Get(p, n)    = nil if p = nil; p if EqualFold(p.Name, n); Get(p.Next, n) otherwise
  Copy(p)      = nil if p = nil; otherwise a fresh node with the contents of p, whose Next is Copy(p.Next) (and Uri Copy(p.Uri))
  Reversed(p)  = R(p, nil) with R(nil, a) = a and R(p, a) = R(p.Next, fresh node with the contents of p and Next = a)
They modify nothing that exists. The defining equations are proved of the code (loops by an arbitrary iteration,
recursion by the contract of the callee); callers use the contracts."""
from .common import *


def ev(e, st, f, *a):
    """Evaluates f on a state, splitting it where f has to know more. -> [(state, value)]"""
    work, out = [st], []
    while work:
        s = work.pop()
        snap = (dict(s.heap), dict(s.ghost), s.n, len(s.trace))
        try:
            out.append((s, f(s, *a)))
        except Fork as k:
            s.heap, s.ghost, s.n = snap[0], snap[1], snap[2]
            del s.trace[snap[3]:]
            work.extend(e.split(s, k.cond))
        if len(out) + len(work) > 3000:
            raise Unsupported('too many cases in a specification')
    return out


def B(e, st, c):
    """Truth of a condition, splitting the state when it is open."""
    d = e.decide(st, c)
    if d is None:
        raise Fork(c)
    return d


def isnil(e, st, p):
    p = e.res(st, p)
    if isinstance(p, Ptr):
        if p.null is True or p.null is False:
            return p.null
        return B(e, st, p.null)
    if isinstance(p, (Iface, SymIface)):
        c = p.t is None if isinstance(p, Iface) else p.null
        return c if isinstance(c, bool) else B(e, st, c)
    raise Unsupported('nil test of %r' % (p,))


def nn(p):
    return Ptr(p.obj, p.path, False)


def isnew(o):
    return '#' in o


def ftype(e, tname, fname):
    u = e.p.types[e.p.type_by_name('@' + tname)]
    u = e.p.types[u['u']]
    return next(f['t'] for f in u['fields'] if f['name'] == fname)


class CopyLoop:
    """A loop that copies a list, writing each copy into the cell where the copy so far ends. After two rounds, the loop is in
    this state: a variable for the rest of the list, one for the end of the copy, and others that stay. An arbitrary round from
    such a state is proved to put a copy of the next node into the cell and go on with the rest and the cell in it. So
    going on from such a state puts the copy of the rest into the cell, by induction over the list."""

    def __init__(self, L, c, e, w, t, copy, check):
        self.L, self.c, self.w, self.t, self.copy, self.check = L, c, w, t, copy, check
        self.nx = L.nx[t]
        self.tid = c.prog.type_by_name('@sip.' + t)
        e.objtypes['node^'] = self.tid

    def cell(self, e, ty, v):
        u = e.p.u(ty)
        if u['k'] != 'ptr' or not isinstance(v, Ptr) or v.null is not False:
            return None
        return v if e.p.u(u['e'])['k'] == 'ptr' else Ptr(v.obj, tuple(v.path) + (self.nx,), False) if u['e'] == self.tid else None

    def ends(self, e, st, fr, blk):
        """The variables that know a cell that ends a list: {name: cell}"""
        res = {}
        for i in blk['instrs'][:blk['nphi']]:
            k = self.cell(e, i['t'], fr.regs[i['n']])
            if k is not None and isnew(k.obj):
                v = e.load(st, k)
                if isinstance(v, Ptr) and v.null is True:
                    res[i['n']] = k
        return res

    def __call__(self, e, st, fr, blk, body):
        c, w, nx = self.c, self.w, self.nx
        P = lambda a, m: c.ensures(e, st, a, m, w)
        g = st.ghost.get('copyloop')
        if fr.prev not in body:
            if g is not None or len(st.frames) != 1:
                raise Unsupported('several loops')
            st.ghost['copyloop'] = 0
            return None
        phis = {i['n']: i['t'] for i in blk['instrs'][:blk['nphi']]}
        if g == 0:
            st.ghost['copyloop'] = 1
            return None
        if g == 1:
            chain, q = {}, Ptr('p^', (), False)
            for _ in range(4):
                q = e.load(st, nn(q)).f[nx]
                chain[q.obj] = q
            src = [n for n in phis if isinstance(fr.regs[n], Ptr) and fr.regs[n].obj in chain and fr.regs[n].path == ()]
            ends = self.ends(e, st, fr, blk)
            if len(src) != 1 or len(ends) != 1:
                raise Unsupported('a loop over a list with %d cursors and %d ends' % (len(src), len(ends)))
            src, = src
            end, = ends
            rest = fr.regs[src]
            any_ = st.clone()
            # an arbitrary round
            f2 = any_.frames[-1]
            f2.pend = fr.pend = False
            o = e.alloc(any_, e.sym(self.tid, 'before').set(nx, NIL), 'copy')
            old = fr.regs[end]
            f2.regs[end] = Ptr(o, (nx,) if e.p.u(e.p.u(phis[end])['e'])['k'] == 'ptr' else (), False)
            f2.regs[src] = Ptr('node^', (), False)
            any_.ghost['copyloop'] = 'any'
            any_.ghost['round'] = Snap((src, end, o, dict(any_.heap), {n: f2.regs[n] for n in phis}))
            # the rest of the loop, by induction
            e.store(st, ends[end], Ptr('COPY:' + rest.obj, (), rest.null))
            fr.regs[src] = NIL
            st.ghost['copyloop'] = 'end'
            return [st, any_]
        if g == 'any':
            src, end, o, heap, regs = st.ghost['round'].h
            P(fr.regs[src] == e.load(st, Ptr('node^', (), False)).f[nx], 'the loop goes on with the rest of the list')
            ends = self.ends(e, st, fr, blk)
            P(end in ends, 'the loop goes on at the end of the copy')
            a = e.res(st, st.heap[o].f[nx])
            P(isinstance(a, Ptr) and a.null is False and end in ends and ends[end] == Ptr(a.obj, (nx,), False) and a.obj not in heap, 'the end of the copy is in a fresh node')
            for k, v in heap.items():
                P(V.same(st.heap.get(k), v if k != o else v.set(nx, st.heap[o].f[nx])), 'the copies before stay')
            for n, v in regs.items():
                if n not in (src, end):
                    P(V.same(fr.regs[n], v), 'the loop keeps %s' % n)
            if isinstance(a, Ptr) and a.null is False and a.obj in st.heap:
                self.check(st, a, e.load(st, Ptr('node^', (), False)), True)
            frame(c, e, st, w)
            raise X.PathDone()
        raise Unsupported('the loop does not end with the list')


class Snap:
    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


class Lists:
    def __init__(self, prog):
        self.p = prog
        f = prog.field
        self.nx = {t: f('sip.' + t, 'Next') for t in ('Via', 'Addr', 'Param', 'URIParam', 'URIHeader', 'XHeader')}
        self.name = {t: f('sip.' + t, 'Name') for t in ('Param', 'URIParam', 'URIHeader', 'XHeader')}
        C = {}
        for t in ('Via', 'Addr'):
            C['(*sip.%s).Last' % t] = self.last(t)
            C['(*sip.%s).Copy' % t] = self.copy(t)
        C['(*sip.Addr).Reversed'] = self.reversed
        C['(*sip.URI).Copy'] = self.uricopy
        for t in ('Param', 'URIParam', 'URIHeader', 'XHeader'):
            C['(*sip.%s).Get' % t] = self.get(t)
        for n, k in (('Tag', 'tag'), ('Branch', 'branch'), ('CallID', 'callid'), ('OriginID', 'originid')):
            C['util.Generate' + n] = self.fresh(k)
        C['util.GenerateCSeq'] = self.cseq
        self.C = C

    def known(self, st, o):
        return isnew(o) or o.startswith('last:') or o in st.ghost.get('known', ())

    # -- contracts as used by callers
    def last(self, t):
        nx = self.nx[t]

        def h(e, st, a, ins):
            p = e.res(st, a[0])
            if isnil(e, st, p):
                return NIL
            while True:
                q = e.res(st, e.load(st, nn(p)).f[nx])
                if isnil(e, st, q):
                    return nn(p)
                if not isnew(q.obj):
                    o = 'last:' + q.obj
                    if o not in st.heap:
                        e.objtypes[o] = e.p.type_by_name('@sip.' + t)
                        v = e.sym(e.objtypes[o], o[:-1] if o.endswith('^') else o)
                        st.heap[o] = v.set(nx, NIL)
                    return Ptr(o, (), False)
                p = q
        return h

    def get(self, t):
        nx, nm = self.nx[t], self.name[t]

        def h(e, st, a, ins):
            p, name = e.res(st, a[0]), e.res(st, a[1])
            while True:
                if isnil(e, st, p):
                    return NIL
                if not isnew(p.obj):
                    break
                v = e.load(st, nn(p))
                if B(e, st, models.M['strings.EqualFold'](e, st, [v.f[nm], name], None)):
                    return nn(p)
                p = e.res(st, v.f[nx])
            return self.ghostget(e, st, t, p.obj, name)
        return h

    def ghostget(self, e, st, t, obj, name):
        key = repr(name)
        if len(name) == 1 and name[0][0] == 'L':
            key = name[0][1].decode('latin1').lower()
        o = 'get:%s:%s' % (obj, key)
        e.objtypes[o] = e.p.type_by_name('@sip.' + t)
        return Ptr(o, (), z3.Bool('without:%s:%s' % (obj, key)))

    def copy(self, t):
        nx = self.nx[t]

        def h(e, st, a, ins):
            p = e.res(st, a[0])
            if isnil(e, st, p):
                return NIL
            v = e.load(st, nn(p))
            q = e.res(st, v.f[nx])
            v = v.set(nx, self.copyptr(e, st, t, q, h))
            if t == 'Addr':
                u = e.p.field('sip.Addr', 'Uri')
                v = v.set(u, self.uricopy(e, st, [v.f[u]], None))
            return Ptr(e.alloc(st, v, 'copy'), (), False)
        return h

    def copyptr(self, e, st, t, q, h):
        """Copy of the rest of a list."""
        if q.null is True:
            return NIL
        if isnew(q.obj):
            return h(e, st, [q], None)
        o = 'copy:' + q.obj
        e.objtypes[o] = e.p.type_by_name('@sip.' + t)
        return Ptr(o, (), q.null)

    def uricopy(self, e, st, a, ins):
        p = e.res(st, a[0])
        if isnil(e, st, p):
            return NIL
        return Ptr(e.alloc(st, e.load(st, nn(p)), 'uricopy'), (), False)

    def reversed(self, e, st, a, ins):
        p = e.res(st, a[0])
        if isinstance(p, Ptr) and p.null is True:
            return NIL
        o = 'rev:' + p.obj
        e.objtypes[o] = e.p.type_by_name('@sip.Addr')
        return Ptr(o, (), p.null)

    def fresh(self, k):
        def h(e, st, a, ins):
            st.n += 1
            n = 'fresh:%s#%d' % (k, st.n)
            r = ratom(n)
            if 'len>0:' + n not in X.AXIOMS:
                X.AXIOMS['len>0:' + n] = zint(rlen(r)) >= 12
            return r
        return h

    def cseq(self, e, st, a, ins):
        st.n += 1
        return atom('fresh:cseq#%d' % st.n, 0, 49999)

    # -- discharge
    def discharge(self, c, which):
        for w in which:
            c.section('contract of ' + w, self.one, c, w)

    def one(self, c, w):
        t = w[w.index('.') + 1:w.index(')')]
        k = w[w.index(').') + 2:]
        if k == 'Last':
            self.walk(c, w, t, lambda e, st, p: isnil(e, st, e.load(st, p).f[self.nx[t]]))
        elif k == 'Get':
            self.walk(c, w, t, lambda e, st, p: B(e, st, models.M['strings.EqualFold'](e, st, [e.load(st, p).f[self.name[t]], ratom('name')], None)), get=True)
        elif k == 'Copy' and t == 'URI':
            self.duri(c)
        elif k == 'Copy':
            self.dcopy(c, w, t)
        elif k == 'Reversed':
            self.drev(c, w)

    def walk(self, c, w, t, stop, get=False):
        nx = self.nx[t]
        f = c.fn(w)
        con = {k: v for k, v in self.C.items()}

        def rec(e, st, a, ins):
            p = e.res(st, a[0])
            if p.null is True:
                return NIL
            return Ptr('REC:' + p.obj, (), z3.Bool('REC:%s==nil' % p.obj))
        con[w] = rec
        e = c.engine(w, con)
        tid = c.prog.type_by_name('@sip.' + t)
        p = Ptr('p^', (), z3.Bool('p==nil'))
        e.objtypes['p^'] = tid
        seen = {'back': 0}

        def follow(st, bases, x):
            """x is reached from a base over nodes that do not stop. -> None or the reason why not."""
            x = e.res(st, x)
            if x.null is True:
                o = None
            else:
                o = x.obj
            for b in bases:
                cur = b
                for _ in range(6):
                    if cur.null is True or (o is None and isnil(e, st, cur)):
                        if o is None or isnil(e, st, x):
                            return cur
                        break
                    if cur.obj == o:
                        return cur
                    if isnil(e, st, cur):
                        if o is not None and isnil(e, st, x):
                            return cur
                        break
                    if o == 'REC:' + str(e.load(st, nn(cur)).f[nx].obj) and not stop(e, st, nn(cur)):
                        return x
                    if stop(e, st, nn(cur)):
                        break
                    cur = e.res(st, e.load(st, nn(cur)).f[nx])
            return None

        def loop(e, st, fr, blk, body):
            ptrs = [(i['n'], fr.regs[i['n']]) for i in blk['instrs'][:blk['nphi']] if isinstance(fr.regs[i['n']], Ptr)]
            if len(ptrs) != 1:
                raise Unsupported('loop over more than one list')
            n, x = ptrs[0]
            first = fr.prev not in body
            bases = [p] if first else [Ptr('cur^', (), st.ghost['curnull'])]
            for s, r in ev(e, st.clone(), lambda s: follow(s, bases, x)):
                c.ensures(e, s, r is not None, 'the loop advances along the list past nodes that do not stop it', w)
            if first:
                null = z3.Bool('cur==nil')
                if x.null is False or e.decide(st, x.null) is False:
                    null = False
                st.ghost['curnull'] = null
                e.objtypes['cur^'] = tid
                fr.regs[n] = Ptr('cur^', (), null)
                return None
            if st.ghost['curnull'] is False:
                c.ensures(e, st, bnot(x.null), 'the loop stays on the list', w)
            c.ensures(e, st, isinstance(x, Ptr) and x.obj != 'cur^', 'the loop makes progress', w)
            seen['back'] += 1
            frame(c, e, st, w)
            raise X.PathDone()
        e.inv[(f.name, 'loop')] = loop
        args = [p] + ([ratom('name')] if get else [])
        for o in c.call(e, w, args):
            bases = [p] if 'curnull' not in o.ghost else [Ptr('cur^', (), o.ghost['curnull']), p]
            x = o.result
            frame(c, e, o, w)
            for s, r in ev(e, o, lambda s: follow(s, bases, x)):
                c.ensures(e, s, r is not None, 'the result is reached over nodes that do not stop the search', w)
                x2 = e.res(s, x)
                if x2.null is not True and not x2.obj.startswith('REC:'):
                    for s2, v in ev(e, s, lambda s: isnil(e, s, x2) or stop(e, s, nn(x2))):
                        c.ensures(e, s2, v, 'the search stops at the result', w)

    def dcopy(self, c, w, t):
        con = dict(self.C)
        f = c.fn(w)

        def rec(e, st, a, ins):
            q = e.res(st, a[0])
            c.ensures(e, st, q == st.ghost['tail'], 'the rest of the list is copied', w)
            if q.null is True:
                return NIL
            return Ptr('COPY:' + q.obj, (), q.null)
        con[w] = rec
        e = c.engine(w, con)
        st = c.state(e)
        p = Ptr('p^', (), z3.Bool('p==nil'))
        tid = c.prog.type_by_name('@sip.' + t)
        e.objtypes['p^'] = tid
        nx = self.nx[t]
        v0 = e.objval(st, 'p^')
        st.ghost['tail'] = v0.f[nx]
        names = [x['name'] for x in c.prog.types[c.prog.types[tid]['u']]['fields']]
        e.inv[(f.name, 'loop')] = CopyLoop(self, c, e, w, t, con[w], lambda *a: check(*a))
        n = 0

        def check(s, r, v0, last=None):
            """The node at r is a fresh copy of the node with contents v0, and the nodes after it too (or it is the last one)."""
            c.ensures(e, s, isnew(r.obj), 'the copy is a fresh node', w)
            v = s.heap[r.obj]
            for i, n in enumerate(names):
                a, b = v.f[i], v0.f[i]
                if n == 'Next':
                    if last:
                        c.ensures(e, s, isinstance(a, Ptr) and a.null is True, 'the copy so far ends here', w)
                        continue
                    if isinstance(a, Ptr) and a.null is not True and isnew(a.obj):
                        c.ensures(e, s, bnot(b.null), 'the copy goes on only where the list does', w)
                        check(s, a, e.load(s, nn(b)))
                        continue
                    b = Ptr('COPY:' + b.obj, (), b.null)
                    c.ensures(e, s, same_val(e, s, a, b) if not (isinstance(a, Ptr) and a.null is True) else b.null, 'Next of the copy is the copy of Next', w)
                elif n == 'Uri':
                    for s2, u in ev(e, s, lambda s: isnil(e, s, b)):
                        a2 = e.res(s2, a)
                        c.ensures(e, s2, isnil(e, s2, a2) == u, 'the copy has a URI exactly when the address does', w)
                        if not u:
                            c.ensures(e, s2, isnew(a2.obj) and V.same(s2.heap[a2.obj], e.load(s2, nn(b))), 'the URI of the copy is a fresh copy', w)
                else:
                    c.ensures(e, s, same_val(e, s, a, b), 'field %s of the copy equals the original' % n, w)
        for o in c.call(e, w, [p], st):
            c.ensures(e, o, o.ghost.get('copyloop') != 'any', 'the loop goes on to the end of the list', w)
            frame(c, e, o, w)
            for s, isn in ev(e, o, lambda s: isnil(e, s, p)):
                r = e.res(s, s.result)
                c.ensures(e, s, isnil(e, s, r) == isn, 'the copy is nil exactly when the list is', w)
                if isn:
                    continue
                n += 1
                check(s, r, v0)
        c.obligation(n > 0, 'vacuity guard: a list is copied', w)

    def duri(self, c):
        w = '(*sip.URI).Copy'
        e = c.engine(w, {k: v for k, v in self.C.items() if k != w})
        st = c.state(e)
        p = Ptr('p^', (), z3.Bool('p==nil'))
        e.objtypes['p^'] = c.prog.type_by_name('@sip.URI')
        for o in c.call(e, w, [p], st):
            frame(c, e, o, w)
            for s, isn in ev(e, o, lambda s: isnil(e, s, p)):
                r = e.res(s, s.result)
                c.ensures(e, s, isnil(e, s, r) == isn, 'the copy is nil exactly when the URI is', w)
                if not isn:
                    c.ensures(e, s, isnew(r.obj), 'the copy is fresh', w)
                    for i, (a, b) in enumerate(zip(s.heap[r.obj].f, e.load(s, nn(p)).f)):
                        c.ensures(e, s, same_val(e, s, a, b), 'field %d of the copy equals the original' % i, w)

    def drev(self, c, w):
        nx = self.nx['Addr']
        f = c.fn(w)
        e = c.engine(w, {k: v for k, v in self.C.items() if k != w})
        tid = c.prog.type_by_name('@sip.Addr')
        p = Ptr('p^', (), z3.Bool('p==nil'))
        e.objtypes['p^'] = e.objtypes['cur^'] = e.objtypes['acc^'] = tid
        CUR, ACC = Ptr('cur^', (), z3.Bool('cur==nil')), Ptr('acc^', (), z3.Bool('acc==nil'))
        seen = {'back': 0}

        def loop(e, st, fr, blk, body):
            ptrs = [(i['n'], e.res(st, fr.regs[i['n']])) for i in blk['instrs'][:blk['nphi']] if isinstance(e.res(st, fr.regs[i['n']]), Ptr)]
            if len(ptrs) != 2:
                raise Unsupported('the loop of Reversed keeps %d pointers' % len(ptrs))
            if fr.prev not in body:
                c.ensures(e, st, sum(x == p for _, x in ptrs) == 1 and sum(x.null is True for _, x in ptrs) == 1,
                          'the loop starts with the whole list and an empty result', w)
                for n, x in ptrs:
                    fr.regs[n] = CUR if x == p else ACC
                    if x == p:
                        st.ghost['curreg'] = n
                return None
            seen['back'] += 1
            frame(c, e, st, w)
            for n, x in ptrs:
                v0 = e.objval(st, 'cur^')
                if n == st.ghost['curreg']:
                    c.ensures(e, st, x == v0.f[nx], 'the loop goes on with the next address', w)
                else:
                    c.ensures(e, st, isnew(x.obj) and x.null is False, 'the result starts with a fresh node', w)
                    v = st.heap[x.obj]
                    for i, (a, b) in enumerate(zip(v.f, v0.f)):
                        if i == nx:
                            c.ensures(e, st, a == ACC, 'the fresh node is followed by the result so far', w)
                        else:
                            c.ensures(e, st, same_val(e, st, a, b), 'the fresh node has the contents of the address', w)
            raise X.PathDone()
        e.inv[(f.name, 'loop')] = loop
        for o in c.call(e, w, [p]):
            frame(c, e, o, w)
            c.ensures(e, o, CUR.null if 'curreg' in o.ghost else p.null, 'the loop ends at the end of the list', w)
            c.ensures(e, o, o.result == ACC if 'curreg' in o.ghost else o.result.null is True, 'the result is what the loop has built', w)
        c.obligation(seen['back'] > 0, 'vacuity guard: Reversed loops')


def frame(c, e, o, fn, allowed=(), what='modifies nothing but what it may'):
    """Every object that existed before still has its value, except those allowed."""
    bad = []
    for k, v in o.heap.items():
        if isnew(k) or k in allowed or k.startswith('g:') and V.same(e.base.get(k, v), v):
            continue
        t = e.objtypes.get(k)
        if k in e.base:
            if V.same(e.base[k], v):
                continue
        elif t is not None and not isinstance(t, tuple):
            i = e.sym(t, k[:-1] if k.endswith('^') else k)
            if V.same(i, v):
                continue
            if k.startswith('last:') and isinstance(v, StructV):
                if sum(not V.same(a, b) for a, b in zip(i.f, v.f)) == 1 and any(isinstance(x, Ptr) and x.null is True for x in v.f):
                    continue
        elif isinstance(t, tuple):
            if isinstance(v, BytesObj) and v.rope == ratom(t[1]):
                continue
        bad.append(k)
    c.ensures(e, o, not bad, what + (' (changed: %s)' % ', '.join(bad[:4]) if bad else ''), fn)


def initial(e, o, base=None):
    """The state before the call, with what is known at the end."""
    s = X.State()
    s.heap.update(e.base if base is None else base)
    s.pc, s.lits, s.bm, s.n = list(o.pc), dict(o.lits), dict(o.bm), o.n + 100000
    s.ghost = {k: v for k, v in o.ghost.items() if isinstance(k, tuple)}
    return s


def isfresh(x, kind):
    return isinstance(x, Rope) and len(x) == 1 and 'fresh:%s#' % kind in repr(x)


def iscopy(c, e, s, m, x, old, t, what, fn, but=()):
    """x is a fresh copy of old (except the fields in but)."""
    x, old = e.res(s, x), e.res(s, old)
    c.ensures(e, s, isinstance(x, Ptr) and x.null is False and isnew(x.obj), '%s is a fresh copy' % what, fn)
    A, O = m.obj(s, x, t), m.obj(s, old, t)
    for n in A:
        if n in but:
            continue
        a, b = e.res(s, A[n]), e.res(s, O[n])
        if n == 'Next':
            c.ensures(e, s, isinstance(a, Ptr) and (a.obj == 'copy:%s' % b.obj or a.null is True and e.decide(s, b.null) is True),
                      '%s: the rest is copied' % what, fn)
        elif n == 'Uri':
            if isnil(e, s, b):
                c.ensures(e, s, isnil(e, s, a), '%s has no URI' % what, fn)
            else:
                iscopy(c, e, s, m, a, b, 'sip.URI', what + ': the URI', fn)
        else:
            c.ensures(e, s, V.same(a, b) or same_val(e, s, a, b), '%s: field %s is copied' % (what, n), fn)


class Msgs:
    """Access to fields by name."""

    def __init__(self, c, e):
        self.c, self.e = c, e
        self.names = {}

    def fields(self, t):
        if t not in self.names:
            p = self.c.prog
            self.names[t] = [f['name'] for f in p.types[p.types[p.type_by_name('@' + t)]['u']]['fields']]
        return self.names[t]

    def get(self, st, p, t, f):
        return self.e.res(st, self.e.load(st, nn(self.e.res(st, p))).f[self.fields(t).index(f)])

    def obj(self, st, p, t):
        v = self.e.load(st, nn(self.e.res(st, p)))
        return dict(zip(self.fields(t), v.f))

    def ptr(self, name, t, null=None):
        self.e.objtypes[name + '^'] = self.c.prog.type_by_name('@' + t)
        return Ptr(name + '^', (), z3.Bool(name + '==nil') if null is None else null)
