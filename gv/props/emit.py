"""Loops that write text derived from a field: the text written is followed by an acceptor (a finite automaton over written
pieces that know which field each byte comes from).  A loop over the bytes of a field gets its invariant by closure: the invariant
is a finite disjunction of (acceptor state, what is known about the neighbouring bytes, how many bytes remain at least); every
disjunct is an arbitrary round k of the loop, and the state after one round must be in the disjunction again."""
from .common import *


def out(q):
    return rapp('written', q)


KEEP = V.mask_bytes(b'\r\n \t"\\%')


def coarse(m):
    """A superset of the set, so that the invariant has few disjuncts: small sets are kept, others only say which of the bytes
    with a meaning in quoted text are missing."""
    if bin(m).count('1') <= 2:
        return m
    return V.ALL & ~(KEEP & ~m)


def regs_of(x):
    if isinstance(x, dict):
        if x.get('k') == 'r':
            yield x['n']
        for v in x.values():
            yield from regs_of(v)
    elif isinstance(x, list):
        for v in x:
            yield from regs_of(v)


class Emit:
    """e.inv['*'] handler.  accept(e, st, q, seg) -> state after a written piece."""

    def __init__(self, c, e, accept):
        self.c, self.e, self.accept = c, e, accept
        self.rounds = 0
        self.n = 0
        e.merge = False

        class Inv(dict):
            def get(s, k, d=None):
                return self if k == '*' else dict.get(s, k, d)
        e.inv = Inv()

    def buffer(self, st):
        bs = [k for k, v in st.heap.items() if isinstance(v, BufV)]
        if len(bs) != 1:
            raise Unsupported('%d buffers' % len(bs))
        return bs[0]

    def state(self, e, st, rope):
        q = None
        for s in rope:
            if s[0] == 'F' and s[1] == 'written':
                q = s[2][0]
            else:
                if q is None:
                    raise Unsupported('text before the contract starts')
                q = self.accept(e, st, q, s)
        return q

    def __call__(self, e, st, fr, blk, body):
        head = fr.b
        if fr.prev in body:
            raise Unsupported('loop entered twice')
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        if any(isinstance(st.fr.regs[n], Ptr) for n in phis):
            return self.walk(e, st, fr, blk, body, phis)
        depth = len(st.frames)
        b = self.buffer(st)
        q0 = self.state(e, st, st.heap[b].rope)
        snap = st.clone()
        entry = {n: st.fr.regs[n] for n in phis}
        self.n += 1
        k = atom('round:%d' % self.n, 1, 1 << 40)
        D0 = ('first', q0, (), ())
        seen, work, exits = {D0}, [D0], []
        facts = {}          # field -> [mask of first, middle, last element]

        def stop(s):
            f = s.frames[-1]
            return len(s.frames) == depth and (f.b not in body or f.b == head)

        while work:
            D = work.pop()
            if len(seen) > 400:
                raise Unsupported('loop invariant does not close')
            s = snap.clone()
            f = s.fr
            kk = 0 if D[0] == 'first' else k
            if D[0] != 'first':
                for n in phis:
                    f.regs[n] = self.shift(entry[n], kk)
                s.heap[b] = BufV(out(D[1]))
                for (nm, off), m in D[2]:
                    s.bm['el:%s[%r]' % (nm, ladd(kk, off))] = m
                for nm, m in D[3]:
                    s.pc.append(zbool(lcmp('>=', atom_len(nm), ladd(kk, m))))
            f.i = blk['nphi']
            f.pend = False
            self.rounds += 1
            for o in e.run(s, depth - 1, stop):
                if o.done != 'stop':
                    exits.append((o, kk))
                    continue
                o.done = None
                if o.fr.b != head:
                    exits.append((o, kk))
                    continue
                e.phis(o, o.fr, blk)
                for n in phis:
                    w = self.shift(entry[n], ladd(kk, 1))
                    self.c.ensures(e, o, same_val(e, o, o.fr.regs[n], w), 'the loop advances by one byte per round', fr.fn.name)
                for ob, v in snap.heap.items():
                    if ob != b and not V.same(o.heap.get(ob), v):
                        self.c.ensures(e, o, same_val(e, o, o.heap[ob], v), 'the loop writes nothing but its output', fr.fn.name)
                q = self.state(e, o, o.heap[b].rope)
                names = {x[3:x.rindex('[')] for x in o.bm if x.startswith('el:')}
                masks, rem = [], []
                for nm in sorted(names):
                    for off in (-1, 0, 1, 2):
                        m = o.bm.get('el:%s[%r]' % (nm, ladd(kk, off + 1)))
                        if m is not None and m != e.elem_mask('el:%s[x]' % nm):
                            m = coarse(m)
                            if m != V.ALL:
                                masks.append(((nm, off), m))
                    L = atom_len(nm)
                    r = max([x for x in (0, 1, 2) if e.decide(o, lcmp('>=', L, ladd(kk, x + 1))) is True], default=-1)
                    if r >= 0:
                        rem.append((nm, r))
                    fm = facts.setdefault(nm, [0, 0, 0])
                    m = o.bm.get('el:%s[%r]' % (nm, norm(kk)), e.elem_mask('el:%s[x]' % nm))
                    last = e.decide(o, lcmp('==', L, ladd(kk, 1)))
                    if D[0] == 'first':
                        fm[0] |= m
                    if last is not False:
                        fm[2] |= m
                    if D[0] != 'first' and last is not True:
                        fm[1] |= m
                D2 = ('next', q, tuple(masks), tuple(rem))
                if D2 not in seen:
                    seen.add(D2)
                    work.append(D2)
        res, kept = [], set()
        for o, kk in exits:
            o.done = None
            for nm, fm in facts.items():
                if e.decide(o, lcmp('==', atom_len(nm), kk)) is True:
                    o.ghost['all:' + nm] = tuple(fm)
                elif kk == 0 and e.decide(o, lcmp('==', atom_len(nm), 0)) is True:
                    o.ghost['all:' + nm] = (0, 0, 0)
            key = self.key(e, o, fr.fn, body, b)
            if key is not None:
                if key in kept:
                    continue
                kept.add(key)
                n = snap.clone()
                n.frames = o.frames
                n.heap[b] = BufV(out(self.state(e, o, o.heap[b].rope)))
                n.ghost = o.ghost
                o = n
            res.append(o)
        if not res:
            raise X.PathDone()
        return res

    def walk(self, e, st, fr, blk, body, phis):
        """A loop over a list: in every round the element is arbitrary (and the list may end there)."""
        head, depth, b = fr.b, len(st.frames), self.buffer(st)
        snap = st.clone()
        entry = {n: st.fr.regs[n] for n in phis}
        if any(not isinstance(v, (bool, int, Ptr)) for v in entry.values()):
            raise Unsupported('a loop over a list with other variables')
        self.n += 1
        D0 = (self.state(e, st, st.heap[b].rope), tuple((n, v) for n, v in entry.items() if not isinstance(v, Ptr)))
        seen, work, res = {D0}, [D0], []

        def stop(s):
            f = s.frames[-1]
            return len(s.frames) == depth and (f.b not in body or f.b == head)
        while work:
            D = work.pop()
            if len(seen) > 100:
                raise Unsupported('loop invariant does not close')
            s = snap.clone()
            s.fr.regs.update(D[1])
            for j, n in enumerate(n for n in phis if isinstance(entry[n], Ptr)):
                t = [i for i in blk['instrs'] if i.get('n') == n][0]['t']
                s.fr.regs[n] = e.sym(t, e.p.tname(e.p.u(t)['e']).split('.')[-1] + "'" * (j + 1))
            s.heap[b] = BufV(out(D[0]))
            s.fr.i, s.fr.pend = blk['nphi'], False
            self.rounds += 1
            for o in e.run(s, depth - 1, stop):
                if not (o.done == 'stop' and o.fr.b == head):
                    if o.done == 'stop':
                        o.done = None
                    res.append(o)
                    continue
                o.done = None
                e.phis(o, o.fr, blk)
                for ob, v in snap.heap.items():
                    if ob != b and not V.same(o.heap.get(ob), v):
                        self.c.ensures(e, o, same_val(e, o, o.heap[ob], v), 'the loop writes nothing but its output', fr.fn.name)
                D2 = (self.state(e, o, o.heap[b].rope), tuple((n, o.fr.regs[n]) for n, _ in D[1]))
                if any(not isinstance(v, (bool, int)) for _, v in D2[1]):
                    raise Unsupported('a loop over a list with other variables')
                if D2 not in seen:
                    seen.add(D2)
                    work.append(D2)
        if not res:
            raise X.PathDone()
        return res

    def key(self, e, st, fn, body, b):
        """What is kept of a state that left the loop (None: everything): where it went, the acceptor state, what is known about
        the whole field, and the variables used later, when these do not depend on the round."""
        used = set()
        for j, blk in enumerate(fn.blocks):
            for n, ins in enumerate(blk['instrs']):
                if n < blk['nphi']:
                    for p, x in zip(blk['preds'], ins['edges']):
                        if j not in body and p in body and x and x['k'] == 'r':
                            used.add(x['n'])
                elif j not in body:
                    used |= set(regs_of(ins))
        vals = []
        for n in sorted(used):
            v = st.fr.regs.get(n)
            if n in st.fr.regs and n not in {p['n'] for p in fn.params}:
                if isinstance(v, (FB, FBool)) or z3.is_expr(v) or 'round:' in repr(v):
                    return None
                vals.append((n, repr(v)))
        return (st.fr.b, st.fr.prev, self.state(e, st, st.heap[b].rope), tuple(vals), tuple(sorted((k, v) for k, v in st.ghost.items() if k.startswith('all:'))))

    def shift(self, v, k):
        if isinstance(v, (int, Lin)) and not isinstance(v, bool):
            return ladd(v, k)
        if isinstance(v, SliceV):
            return SliceV(v.obj, ladd(v.off, k), lsub(v.len, k), lsub(v.cap, k), v.path)
        raise Unsupported('loop variable %r' % (v,))
