"""Reading structured text with a generated parser.

The parser (a function that is a state machine written with gotos) runs on a text that becomes known piece by piece.  Its states
between two pieces are those where it waits: the next instruction would need the byte after the known text, or whether there is
one.  A piece is a literal byte, a byte out of a set, a run of one or more chunks each of which is one of several byte sequences
(a byte out of a set, an escape, a line break followed by a blank, ...), or a decimal number.  A run is read by induction: the set
of states after at least one chunk is the invariant, it contains the states after the first chunk and is closed under reading
one more; within a state the chunks read so far are one symbol wherever they were copied to, decoded or not.  Positions in the
text are held relative to the text that is still needed, so what was read earlier does not matter."""
from .machine import *
from .machine import regs_of
from ..vals import mask_of, mask_bytes

REST = 'rest'
PASTSEG = ('F', 'past', ())
PAST = 'past'


class Wait(X.PathDone):
    pass


class Run:
    """One or more chunks.  first/rest: lists of variants (text, meaning); text: list of byte sets or (tab) FBs of the element."""

    def __init__(self, name, rest, first=None, done=None, dtext=None):
        self.name = name
        self.rest = rest
        self.first = first if first is not None else rest
        self.same = all(t == m for t, m in self.rest + self.first)
        self.preM = ('F', 'pre', (name,))
        self.preT = self.preM if self.same else ('F', 'preT', (name,))
        self.done = done if done is not None else ratom(name)[0]       # what has been read when all chunks have: the field
        self.doneT = self.done if self.same else dtext or ('F', 'text', (name,))

        # what the last byte of the text is out of, if every chunk ends with a byte out of a set
        self.ends = all(t and isinstance(t[-1], FB) for t, m in self.rest + self.first)

    def __repr__(self):
        return 'Run(%s)' % self.name


def byte(name, mask, e, tab=V.IDENT):
    """A byte out of a set, the same one wherever the name occurs."""
    e.atommask[name] = mask
    return FB('el:%s[j]' % name, tab)


def raw(name, mask, e):
    x = byte(name, mask, e)
    return ([x], [x])


def text_run(e, name, mask, first=None, done=None):
    """A run of bytes kept as they are."""
    f = [raw(name + '~1', first, e)] if first is not None else None
    return Run(name, [raw(name + '~', mask, e)], f, done)


class Number:
    """Decimal number; val: the value (Lin or bit vector); no leading zero, or just a zero if so wished, or any digits."""

    def __init__(self, name, bits=0, zero=False, any=False):
        self.name, self.bits, self.zero, self.any = name, bits, zero, any
        self.val = z3.BitVec('num:' + name, bits) if bits else atom('num:' + name, 0, (1 << 63) - 1)
        self.pre = z3.BitVec('pre:' + name, bits) if bits else atom('pre:' + name, 0, (1 << 63) - 1)

    def __repr__(self):
        return 'Number(%s)' % self.name


class Peek:
    """The next byte is out of a set; it is not read yet."""

    def __init__(self, name, mask):
        self.name, self.mask = name, mask


# ------------------------------------------------------------------------------------------------ values
def vmap(v, fl, fs, fb, fo, fz=None):
    """Rebuilds a value: fl on integers with atoms, fs on ropes (unit lists), fb on FBs, fo on object names."""
    r = lambda x: vmap(x, fl, fs, fb, fo, fz)
    t = type(v)
    if v is None or t in (int, bool, str):
        return v
    if t is Lin:
        return fl(v)
    if t is Rope:
        return fs(v)
    if t is FB:
        return fb(v)
    if t is FBool:
        x = fb(FB(v.id))
        return FBool(x.id, v.mask) if isinstance(x, FB) else bool(v.mask >> x & 1)
    if t is Ptr:
        if v.null is True:
            return v
        return Ptr(fo(v.obj), tuple(r(x) for x in v.path), v.null)
    if t is SliceV:
        if v is NILSLICE or v == NILSLICE:
            return v
        return SliceV(fo(v.obj), r(v.off), r(v.len), r(v.cap), v.path)
    if t is StructV:
        return StructV(r(x) for x in v.f)
    if t is ArrV:
        return ArrV([r(x) for x in v.e])
    if t is BytesObj:
        return BytesObj(r(v.rope), r(v.size), v.ro)
    if t is BufV:
        return BufV(r(v.rope))
    if t is TupleV:
        return TupleV([r(x) for x in v])
    if t is Iface:
        return Iface(v.t, r(v.v))
    if z3.is_expr(v):
        return fz(v) if fz else v
    return v


NILSLICE = X.NILSLICE


def units(rope):
    """Segments with every byte of a literal on its own."""
    out = []
    for s in rope:
        if s[0] == 'L':
            out += [('L', bytes([b])) for b in s[1]]
        else:
            out.append(s)
    return out


def unit(x):
    if isinstance(x, Run):
        return x.doneT
    return ('L', bytes([x])) if isinstance(x, int) else ('B', x)


ident = lambda x: x


class Reader:
    def __init__(self, c, fn, contracts=None, mods=None, scratch=True):
        self.c = c
        self.m = m = Machine(c, fn)
        self.fn = m.fn
        e = self.e = c.engine(fn, contracts, mods)
        e.merge = False
        e.maxpaths = 200000
        m.install(e)
        self.piece = {}         # segment -> piece, for text that is read again
        self.base_pc, self.base_bm = [], {}
        self.fed = 0
        self.scratch = set()
        self.peek = None
        self.P = self.positions()
        self.lv = {}
        self.fb_at = None
        self.frozen = False
        self.mayend = False
        self.keepbm = False
        self.fromstart = False      # whether the text is kept from its beginning
        self.runmask = {}
        self.runs = {}
        self.trims = self.find_trims()
        lh = e.loop_head
        e.loop_head = lambda st, fr, blk: self.trim(st, fr, blk) if fr.fn is self.fn and fr.b in self.trims else lh(st, fr, blk)
        # bounds and nil are proved by C01; here only what the code does counts
        e.inrange = lambda st, i, n: None
        e.bound = lambda st, c, what='': None
        e.bound3 = lambda st, lo, hi, n: None
        prove = e.prove

        def prv(st, cnd, what, kind='contract', fn=None, line=None):
            if kind in ('nil', 'bounds', 'arith'):
                if cnd is False:
                    raise Unsupported('%s cannot hold' % what)
                return True
            return prove(st, cnd, what, kind, fn, line)
        e.prove = prv
        e.nonnil = lambda st, p, what='': self.notnil(st, p)
        dec = e.decide

        def decide(st, cnd):
            r = dec(st, cnd)
            if r is None and not self.frozen:
                if isinstance(cnd, FBool):
                    if self.peek and cnd.id == 'el:%s[j]' % self.peek.name:
                        self.wait(st, 'peek')
                elif z3.is_expr(cnd) and 'len:' + REST in X.zvars(cnd):
                    self.wait(st, 'end')
            return r
        e.decide = decide
        bop = e.binop

        def binop(st, tok, x, y, xt, yt, line=None):
            r = bop(st, tok, x, y, xt, yt, line)
            if tok in X.TOKCMP and z3.is_expr(r) and not self.frozen and 'len:' + REST in X.zvars(r):
                d = dec(st, r)
                if d is not None:
                    return d
                self.wait(st, 'end')
            return r
        e.binop = binop
        bat = e.bytesat

        def bytesat(st, rope, i):
            if rope and rope[-1] == self.rest() and not self.frozen:
                pos = ladd(i, 0)
                for s in units(rope):
                    L = seg_len(s)
                    if s == self.rest():
                        if self.depth(st) == 1:
                            pass
                        self.wait(st, 'more')
                    if isinstance(pos, int) and pos == 0 and s in self.piece:
                        self.wait(st, ('again', i))
                    if s[0] == 'A' and s[1] == PAST:
                        pos = lsub(pos, L)
                        continue
                    if isinstance(pos, int) and isinstance(L, int):
                        if pos < L:
                            if s[0] == 'L':
                                return s[1][pos]
                            if self.peek and isinstance(s[1], FB) and s[1].id == 'el:%s[j]' % self.peek.name and len(st.frames) == 1:
                                self.shoot(st)
                            return s[1]
                        pos -= L
                        continue
                    d = lcmp('<', pos, L)
                    if z3.is_expr(d):
                        d = dec(st, d)
                    if d is True:
                        if s[0] == 'A' and s not in self.runs:
                            return e.elem(st, s[1], ladd(s[2], pos))
                        return self.inside(st, s, pos)
                    if d is not False:
                        raise Unsupported('position %r in %r' % (pos, s))
                    pos = lsub(pos, L)
            return bat(st, rope, i)
        e.bytesat = bytesat
        bst = e.bytestore

        def bytestore(st, v, i, new):
            w = v.rope
            if isinstance(new, FB):
                new = self.normal(st, new)
            if i == 0:
                return BytesObj(mkrope([unit(new)]), v.size, v.ro)
            if i == rlen(w):
                return BytesObj(mkrope(list(w) + [unit(new)]), v.size, v.ro)
            raise Unsupported('byte stored at %r of scratch text %r' % (i, w))
        e.bytestore = bytestore

        def makeslice(st, ins):
            n = e.as_lin(e.val(st, ins['len']))
            o = 'scratch:%s^' % ins['n']
            self.scratch.add(o)
            st.heap[o] = BytesObj(EMPTY, n)
            return SliceV(o, 0, n, n)
        e.makeslice = makeslice
        ov = e.objval

        def objval(st, o):
            if o not in st.heap and o in e.base:
                return e.base[o]
            return ov(st, o)
        e.objval = objval
        srp = e.slice_rope

        def slice_rope(st, s):
            if isinstance(s, SliceV) and s.obj in self.scratch:
                w = st.heap[s.obj].rope
                if s.off == 0 and s.len == rlen(w):
                    return w
                if s.len == 0:
                    return EMPTY
                raise Unsupported('%r bytes of scratch text %r' % (s.len, w))
            return srp(st, s)
        e.slice_rope = slice_rope

    # -------------------------------------------------------------------------------------------- trimming
    def find_trims(self):
        """Loops that go back in the text one byte at a time: {block: register}"""
        res = {}
        back = {i['n']: i['x']['n'] for b in self.fn.blocks for i in b['instrs'] if i['op'] == 'binop' and i['tok'] == '-' and
                i['x'].get('k') == 'r' and i['y'].get('k') == 'c'}
        for b in self.fn.blocks:
            ph = b['instrs'][:b['nphi']]
            if len(ph) == 1 and len(b['preds']) == 2 and ph[0]['n'] in self.P:
                if any(x.get('k') == 'r' and back.get(x['n']) == ph[0]['n'] for x in ph[0]['edges']):
                    res[b['i']] = ph[0]['n']
        return res

    def trim(self, st, fr, blk):
        """A run of bytes of one set before the position: if a round of the loop at an arbitrary position in the run does
        nothing but go back one byte, the loop goes back to the start of the run."""
        reg, depth = self.trims[fr.b], len(st.frames)
        moved = False
        while st.ghost.get('trimming') is None:
            K, T, more = self.texts(st)
            starts = [K]
            for u in T:
                starts.append(ladd(starts[-1], seg_len(u)))
            v = st.fr.regs[reg]
            j = [k for k in range(1, len(starts)) if starts[k] == v]
            n = None
            if j:
                u = T[j[0] - 1]
                n = u[1] if u[0] == 'A' else u[2][0] if u[:2] == ('F', 'pre') else None
            if n not in self.runmask:
                break
            j = j[0] - 1
            a, b = n + '.1', n + '.2'
            self.e.atommask[a] = self.runmask[n]
            s = st.clone()
            (x, _), = seg_len(T[j]).t
            m = {x: ladd(atom_len(a), atom_len(b))}
            self.apply(s, lambda v: vmap(v, lambda l: lsubst(l, m), lambda r: mkrope([y for q in r for y in ([('A', a, 0, atom_len(a)), ('A', b, 0, atom_len(b))] if q == T[j] else [q])]), ident, ident))
            head = s.fr.b
            s.fr.regs[reg] = ladd(lsubst(starts[j], m), atom_len(a))
            s.pc.append(zbool(lcmp('>=', atom_len(a), 1)))
            s.ghost['trimming'] = True
            s.fr.i, s.fr.pend = blk['nphi'], False
            keep = s.clone()

            def stop(y):
                return len(y.frames) == depth and y.fr.b == head
            go = out = 0
            waits = len(self.waiting)
            try:
                outs = self.e.run(s, depth - 1, lambda y: len(y.frames) == depth and y.fr.b not in self.trim_body(head, y))
            except Wait:
                raise Unsupported('the end of a run is read on')
            for o in outs:
                if o.done == 'stop' and o.fr.b == head:
                    self.e.phis(o, o.fr, blk)
                    same = o.fr.regs[reg] == lsub(keep.fr.regs[reg], 1) and all(V.same(o.heap.get(k), w) for k, w in keep.heap.items())
                    if not same:
                        raise Unsupported('a loop that goes back in the text does something else')
                    go += 1
                else:
                    out += 1
            if len(self.waiting) != waits or go and out or not go and not out:
                raise Unsupported('a loop that goes back in the text')
            if out:
                break
            st = st.clone()
            st.fr.regs[reg] = starts[j]
            moved = True
        if not moved:
            return None
        st.fr.i, st.fr.pend = blk['nphi'], False
        return [st]

    def trim_body(self, head, y):
        """The blocks of a round; the head itself ends a round."""
        B = self.fn.blocks
        r = self.bodies = getattr(self, 'bodies', {})
        if head not in r:
            body, work = set(), [p for p in B[head]['preds'] if any(i['op'] == 'binop' and i.get('n') in [x.get('n') for x in B[head]['instrs'][0]['edges']] for i in B[p]['instrs'])]
            while work:
                b = work.pop()
                if b in body or b == head:
                    continue
                body.add(b)
                work += B[b]['preds']
            r[head] = body
        return r[head]

    # -------------------------------------------------------------------------------------------- small things
    def depth(self, st):
        return len(st.frames)

    def inside(self, st, s, pos):
        p = self.runs.get(s)
        if p is not None and p.ends and lsub(seg_len(s), 1) == pos:
            m = 0
            for t, w in p.rest + p.first:
                m |= self.e.elem_mask(t[-1].id)
            return byte('%s.last' % (s,), m, self.e)
        raise Unsupported('byte %r of %r' % (pos, s))

    def notnil(self, st, p):
        if p.null is True:
            raise Unsupported('nil is dereferenced')

    def rest(self):
        return ('A', REST, 0, atom_len(REST))

    def shoot(self, st):
        """Remembers the state before the next byte is looked at; several looks at one position are one."""
        fr = st.frames[0]
        ins = self.fn.blocks[fr.b]['instrs']
        a = [k for k in range(fr.i) if ins[k].get('n') == ins[fr.i]['x'].get('n')] if isinstance(ins[fr.i].get('x'), dict) else []
        if ins[fr.i]['op'] != 'unop' or not a:
            raise Unsupported('the byte is not loaded where its address is computed')
        at = ins[a[0]]['y'].get('n')
        if st.ghost.get('peekat') == at:
            return
        s = st.clone()
        s.ghost.pop('peeked', None)
        s.frames[0].i = a[0]         # the address is computed again
        st.ghost['peeked'] = s
        st.ghost['peekat'] = at

    def wait(self, st, why):
        if why == 'peek':
            st = st.ghost['peeked'].clone()
        elif len(st.frames) > 1:
            st = st.ghost['call'].clone()
        self.waiting.append((st, why))
        raise Wait()

    def positions(self):
        """Registers that hold positions in the input: those used as an index into it, and what they are made of."""
        par = {}

        def find(x):
            while par.setdefault(x, x) != x:
                x = par[x]
            return x

        def union(a, b):
            par[find(a)] = find(b)
        data = {self.fn.params[0]['n']}
        roots = set()
        for b in self.fn.blocks:
            for i in b['instrs']:
                rs = lambda k: [i[k]['n']] if isinstance(i.get(k), dict) and i[k].get('k') == 'r' else []
                if i['op'] == 'phi':
                    for x in i['edges']:
                        if x and x.get('k') == 'r':
                            union(i['n'], x['n'])
                elif i['op'] == 'binop' and i['tok'] in ('+', '-'):
                    for a, o in (('x', 'y'), ('y', 'x')):
                        if i[o].get('k') == 'c' and rs(a):
                            union(i['n'], rs(a)[0])
                elif i['op'] == 'indexaddr' and i['x'].get('n') in data:
                    roots |= set(rs('y'))
                elif i['op'] == 'slice' and i['x'].get('n') in data:
                    roots |= set(rs('lo') + rs('hi'))
        rr = {find(x) for x in roots}
        return {x for x in list(par) if find(x) in rr}

    def live_at(self, b, i):
        r = self.lv.get((b, i))
        if r is None:
            B = self.fn.blocks
            blk = B[b]
            L = set()
            for s in blk['succs']:
                for j, p in enumerate(B[s]['preds']):
                    if p == b:
                        for ph in B[s]['instrs'][:B[s]['nphi']]:
                            if ph['edges'][j]['k'] == 'r':
                                L.add(ph['edges'][j]['n'])
                L |= self.m.live[s] - {ph['n'] for ph in B[s]['instrs'][:B[s]['nphi']]}
            for k in range(len(blk['instrs']) - 1, i - 1, -1):
                ins = blk['instrs'][k]
                if 'n' in ins:
                    L.discard(ins['n'])
                L |= set(regs_of(ins))
            r = self.lv[(b, i)] = L
        return r

    def normal(self, st, x):
        """A byte computed from a byte of the text that is in fact that byte."""
        m = st.bm.get(x.id, self.e.elem_mask(x.id))
        vs = {x.tab[b] for b in range(256) if m >> b & 1}
        if all(x.tab[b] == b for b in range(256) if m >> b & 1):
            return FB(x.id)
        if len(vs) == 1:
            return vs.pop()
        return x

    # -------------------------------------------------------------------------------------------- running
    def begin(self, st, args, data='data^'):
        """Starts on an unknown text."""
        self.data = data
        R = atom_len(REST)
        st.heap = {k: v for k, v in st.heap.items() if k not in self.e.base}
        st.heap[data] = BytesObj(mkrope([self.rest()]), R)
        self.e.start(st, self.fn, args)
        st.frames[-1].prev = None
        self.finished = []
        return self.collect(st)

    def stop(self, st):
        if len(st.frames) == 1:
            st.ghost['call'] = None
        return False

    def collect(self, st):
        """Runs until the text is used up. -> waiting states, in normal form, without duplicates."""
        self.waiting = []
        e = self.e
        call = e.call

        def rec(s, fr, ins):
            if len(s.frames) == 1:
                s.ghost['call'] = None
                s.ghost['call'] = s.clone()
            return call(s, fr, ins)
        e.call = rec
        try:
            outs = e.run(st, 0, None)
        finally:
            del e.call
        self.finished += outs
        res, seen = [], set()
        for s, why in self.waiting:
            s.ghost['call'] = None
            s.ghost.pop('peeked', None)
            s.ghost.pop('peekat', None)
            if isinstance(why, tuple):
                s.ghost['again'] = why[1]
            k = self.canon(s)
            if k not in seen:
                seen.add(k)
                res.append(s)
        self.waiting = []
        return res

    def texts(self, st):
        """-> (start of the kept text, kept units, length of everything)"""
        r = list(st.heap[self.data].rope)
        K = 0
        if r and r[0][0] == 'A' and r[0][1] == PAST:
            K = seg_len(r.pop(0))
        more = bool(r) and r[-1] == self.rest()
        if more:
            r.pop()
        return K, units(Rope(r)), more

    def retext(self, st, T, K=None, more=True, old=None):
        """Replaces the known text; registers that hold the length of the whole follow."""
        st.ck = None
        o = st.heap[self.data]
        tot = rlen(o.rope)
        if K is None:
            K = self.texts(st)[0]
        segs = ([] if K == 0 else [('A', PAST, 0, K)]) + list(T) + ([self.rest()] if more else [])
        rope = mkrope(segs)
        new = rlen(rope)
        if new != tot:
            f = lambda v: new if v == tot else v
            g = lambda v: vmap(v, f, ident, ident, ident)
            fr = st.frames[0]
            fr.regs = {k: g(v) for k, v in fr.regs.items()}
            for k in [self.data] + list(self.scratch):
                if k in st.heap and k != self.data:
                    st.heap[k] = g(st.heap[k])
        st.heap[self.data] = BytesObj(rope, new)

    def feed(self, st, us):
        """Bytes."""
        self.fed += 1
        st = st.clone()
        again = st.ghost.pop('again', None)
        assert again is None
        K, T, more = self.texts(st)
        self.retext(st, T + list(us))
        n = len(self.finished)
        r = self.resolve(self.collect(st))
        if len(self.finished) > n and not self.mayend:
            s = self.finished[n]
            del self.finished[n:]
            raise Unsupported('returns %r before a legal text has been read' % (s.result,))
        return r

    def resolve(self, sts):
        """States that want to read a part of the known text again which is not just bytes."""
        out = []
        for s in sts:
            i = s.ghost.pop('again', None)
            if i is None:
                out.append(s)
                continue
            K, T, more = self.texts(s)
            pos, n = lsub(i, K), 0
            while pos != 0:
                pos = lsub(pos, seg_len(T[n]))
                n += 1
            todo = T[n:]
            self.retext(s, T[:n])
            ss = [s]
            self.canon(s)
            for u in todo:
                ss = self.read(ss, self.piece[u] if u in self.piece else u)
            out += ss
        return self.uniq(out)

    def uniq(self, sts):
        seen, out = set(), []
        for s in sts:
            k = s.ck or self.canon(s)
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def read(self, sts, p):
        """Reads one piece from every state."""
        out = []
        for s in sts:
            if isinstance(p, (bytes, int)):
                ss = [s]
                for b in ([p] if isinstance(p, int) else p):
                    ss = self.uniq([y for x in ss for y in self.feed(x, [unit(b)])])
                out += ss
            elif isinstance(p, tuple):
                out += self.feed(s, [p])
            elif isinstance(p, FB):
                out += self.feed(s, [('B', p)])
            elif isinstance(p, Run):
                if p.same and all(len(t) == 1 and isinstance(t[0], FB) for t, m in p.rest + p.first):
                    m = 0
                    for t, w in p.rest + p.first:
                        m |= self.e.elem_mask(t[0].id)
                    self.runmask[p.done[1]] = self.runmask[p.name] = m
                self.runs[p.preT] = self.runs[p.doneT] = p
                out += self.run(s, p)
            elif isinstance(p, Number):
                out += self.number(s, p)
            elif isinstance(p, Peek):
                out += self.look(s, p)
            elif isinstance(p, Alt):
                for a in p.alts:
                    out += self.reads([s], a)
            else:
                raise Unsupported('piece %r' % (p,))
        return self.uniq(out)

    def reads(self, sts, ps):
        for p in ps:
            sts = self.read(sts, p)
        return sts

    def end(self, sts):
        """The text ends here. -> states at the return of the function"""
        for s in sts:
            s = s.clone()
            K, T, more = self.texts(s)
            self.retext(s, T, more=False)
            assert not self.collect(s)
        r, self.finished = self.finished, []
        return r

    # -------------------------------------------------------------------------------------------- normal form
    def canon(self, st):
        if len(st.frames) != 1:
            raise Unsupported('waits inside a call')
        fr = st.frames[0]
        live = self.live_at(fr.b, fr.i)
        keep = {p['n'] for p in self.fn.params} & live
        fr.regs = {k: v for k, v in fr.regs.items() if k in live}
        fr.prev, fr.pend, fr.loopn, fr.defers = None, False, {}, []
        if fr.i < self.fn.blocks[fr.b]['nphi']:
            raise Unsupported('waits before a join')
        st.trace, st.lits = [], {}
        st.pc = []
        for x in self.base_pc:
            self.e.assume(st, x)
        # positions
        K, T, more = self.texts(st)
        pos = {}
        for k, v in fr.regs.items():
            if k in self.P and isinstance(v, (int, Lin)) and not isinstance(v, bool):
                pos[k] = lsub(v, K)
        starts = [0]
        for u in T:
            starts.append(ladd(starts[-1], seg_len(u)))
        at = {}
        for k, v in pos.items():
            n = [j for j, s in enumerate(starts) if s == v]
            if n:
                at[k] = n[0]
            elif lcmp('>', v, starts[-1]) is True or not isinstance(lsub(v, starts[-1]), int):
                at[k] = None        # not a place in the text that is still known
            else:
                at[k] = None
        parts = {}      # what is kept as a part of the text
        for k, v in fr.regs.items():
            if isinstance(v, SliceV) and v.obj == self.data and v.path == () and not (V.same(v.off, 0) and v.len == rlen(st.heap[self.data].rope)):
                n = [j for j, s in enumerate(starts) if s == lsub(v.off, K)]
                if not n:
                    raise Unsupported('keeps a part of the text: %r' % (v,))
                parts[k] = n[0]
        lo = min([j for j in at.values() if j is not None] + list(parts.values()), default=len(T))
        if self.fromstart and K == 0:
            lo = 0
        KN = 0 if K == 0 and lo == 0 else atom_len(PAST)
        T2 = T[lo:]
        tot = rlen(st.heap[self.data].rope)
        rope = mkrope(([('A', PAST, 0, KN)] if KN != 0 else []) + T2 + ([self.rest()] if more else []))
        ntot = rlen(rope)
        off = [KN]
        for u in T2:
            off.append(ladd(off[-1], seg_len(u)))
        f = lambda v: ntot if v == tot else v
        g = lambda v: vmap(v, f, ident, ident, ident)
        for k, v in list(fr.regs.items()):
            if k in at and at[k] is not None:
                fr.regs[k] = off[at[k] - lo]
            elif k in at:
                # a stale position, or one outside the text
                d = lsub(pos[k], starts[-1])
                if v == tot:
                    fr.regs[k] = ntot
                elif isinstance(d, int):
                    fr.regs[k] = ladd(off[-1], d)
                else:
                    fr.regs[k] = atom('stale:' + k)
            elif k in parts:
                fr.regs[k] = SliceV(v.obj, off[parts[k] - lo], v.len, v.cap)
            else:
                fr.regs[k] = g(v)
        for k in self.scratch:
            if k in st.heap:
                st.heap[k] = BytesObj(st.heap[k].rope, ntot)
        st.heap[self.data] = BytesObj(rope, ntot)
        # scratch texts
        ints = [v for k, v in fr.regs.items() if k not in self.P and isinstance(v, (int, Lin)) and not isinstance(v, bool)]
        for k in self.scratch:
            if k in st.heap:
                w = st.heap[k].rope
                L = rlen(w)
                if w and L not in ints:
                    st.heap[k] = BytesObj(EMPTY, ntot)
        # texts that point into the input
        def cut(x):
            if isinstance(x, SliceV) and x.obj == self.data:
                r = self.sub_text([PASTSEG] * bool(K != 0) + T, K, x)
                o = 'text:%r^' % (r,)
                st.heap[o] = BytesObj(r, x.len, True)
                return SliceV(o, 0, x.len, x.len)
            if isinstance(x, StructV):
                return StructV(cut(y) for y in x.f)
            return x
        for k in list(st.heap):
            if k not in self.e.base and isinstance(st.heap[k], StructV):
                st.heap[k] = cut(st.heap[k])
        # objects
        new, order, texts = {}, [], set()

        def obj(o):
            if o[-1] == '^' or o in self.e.base:
                texts.add(o)
                return o
            if o not in new:
                new[o] = 'o%d' % len(new)
                order.append(o)
            return new[o]
        h = lambda v: vmap(v, ident, ident, ident, obj)
        fr.regs = {k: h(fr.regs[k]) for k in sorted(fr.regs)}
        heap = {}
        for k in sorted(st.heap):
            if k.endswith('^') and k != self.data and k not in self.scratch:
                heap[k] = h(st.heap[k])
        n = 0
        while n < len(order):
            heap[new[order[n]]] = h(self.e.objval(st, order[n]))
            n += 1
        for k in st.heap:
            if k in self.e.base or k == self.data or k in self.scratch:
                heap[k] = st.heap[k]
            elif k.startswith('text:') and k not in texts:
                heap.pop(k, None)
        st.heap = heap
        st.n = 100 + len(new)
        # bytes that still matter
        ids = set()

        def fb(x):
            x = self.normal(st, x)
            if isinstance(x, FB):
                ids.add(x.id)
            return x

        def seg(r):
            return mkrope([unit(fb(s[1])) if s[0] == 'B' and isinstance(s[1], FB) else s for s in r])
        fv = lambda v: vmap(v, ident, seg, fb, ident)
        fr.regs = {k: fv(v) for k, v in fr.regs.items()}
        for k in st.heap:
            if not k in self.e.base:
                st.heap[k] = fv(st.heap[k])
        # a byte that is only copied need not be known more closely than it is in the text
        used = set()
        for v in list(fr.regs.values()):
            vmap(v, lambda l: used.update(lin_ids(l)) or l, ident, lambda x: used.add(x.id) or x, ident)
        st.bm = {k: m for k, m in st.bm.items() if (k in used or self.keepbm) and m != self.e.elem_mask(k)}
        for k, m in self.base_bm.items():
            st.bm.setdefault(k, m)
        st.ghost = {k: v for k, v in st.ghost.items() if k == 'again' or (isinstance(k, tuple) and k[0] == 'keep')}
        st.ck = self.key(st)
        return st.ck

    def sub_text(self, us, K, x):
        """The text a slice of the input stands for."""
        pos, out = 0, None
        for u in us:
            if pos == x.off:
                out = []
            if out is not None and pos == ladd(x.off, x.len):
                break
            if out is not None:
                out.append(u)
            pos = ladd(pos, K if u is PASTSEG else seg_len(u))
        if out is None or pos != ladd(x.off, x.len):
            raise Unsupported('a part of the input %r' % (x,))
        return mkrope(out)

    def key(self, st):
        fr = st.frames[0]
        skip = lambda k: False
        return repr((fr.b, fr.i, sorted(fr.regs.items(), key=lambda x: x[0]), sorted((k, v) for k, v in st.heap.items() if not skip(k)),
                     sorted(st.bm.items()), sorted((repr(k), repr(v)) for k, v in st.ghost.items())))

    # -------------------------------------------------------------------------------------------- runs
    def run(self, st, p):
        """At least one chunk."""
        self.piece[p.doneT] = p
        inv, work = {}, []

        def add(s):
            k = self.canon(s)
            if k not in inv:
                if len(inv) > 300:
                    raise Unsupported('no finite invariant for the run %s' % p.name)
                inv[k] = s
                work.append(s)
        for v in p.first:
            for s in self.chunk(st, v):
                self.fold(s, p, v)
                add(s)
        while work:
            g = work.pop()
            for v in p.rest:
                for s in self.chunk(g, v):
                    self.fold(s, p, v)
                    add(s)
        out = []
        for s in inv.values():
            m = {}
            for a, b in ((p.preM, p.done), (p.preT, p.doneT)):
                (n, _), = lin(seg_len(a)).t
                m[n] = seg_len(b)
            fs = lambda r: mkrope([self.sub(x, p) for x in r])
            fl = lambda l: lsubst(l, m)
            g = lambda v: vmap(v, fl, fs, ident, ident)
            s = s.clone()
            self.apply(s, g)
            out.append(s)
        return out

    def sub(self, x, p):
        return p.doneT if x == p.preT and not p.same else p.done if x == p.preM else x

    def apply(self, s, g):
        s.ck = None
        fr = s.frames[0]
        fr.regs = {k: g(v) for k, v in fr.regs.items()}
        for k in s.heap:
            if not k in self.e.base:
                s.heap[k] = g(s.heap[k])

    def chunk(self, st, v):
        ss = [st]
        for x in v[0]:
            ss = self.read(ss, x) if isinstance(x, Run) else self.uniq([y for s in ss for y in self.feed(s, [unit(x)])])
        return ss

    def fold(self, st, p, v):
        """The chunk just read joins the ones before."""
        st.ck = None
        fr = st.frames[0]
        K, T, more = self.texts(st)
        # positions by unit
        starts = [K]
        for u in T:
            starts.append(ladd(starts[-1], seg_len(u)))
        at = {k: starts.index(x) for k, x in fr.regs.items() if k in self.P and isinstance(x, (int, Lin)) and x in starts}
        text, mean = [unit(x) for x in v[0]], [x.done if isinstance(x, Run) else unit(x) for x in v[1]]
        tot = rlen(st.heap[self.data].rope)
        # positions that are not between two pieces of the text are kept only if they are relative to its end
        for k, x in fr.regs.items():
            if k in self.P and k not in at and isinstance(x, (int, Lin)) and x != tot:
                d = lsub(x, starts[-1])
                at[k] = ('end', d) if isinstance(d, int) else None
        ends = {}
        for o in self.scratch:
            if o in st.heap and st.heap[o].rope:
                L = rlen(st.heap[o].rope)
                ends[o] = [k for k, x in fr.regs.items() if k not in self.P and x == L]

        def join(us, pre, pat):
            n = len(pat)
            for i in range(len(us) - n, -1, -1) if n else []:
                if us[i:i + n] == pat:
                    if i and us[i - 1] == pre:
                        return us[:i - 1] + [pre] + us[i + n:], i - 1, i + n
                    return us[:i] + [pre] + us[i + n:], i, i + n
            return us, None, None
        T2, a, b = join(T, p.preT, text)
        if a is not None:
            for k, n in at.items():
                if isinstance(n, int) and a < n < b:
                    raise Unsupported('a position inside a chunk of %s is kept' % p.name)
            at = {k: n if not isinstance(n, int) or n <= a else n - (b - a) + 1 for k, n in at.items()}
        elif p.preT in T:
            raise Unsupported('the text of %s ends before the chunk' % p.name)
        self.retext(st, T2, K, more)
        starts = [K]
        for u in T2:
            starts.append(ladd(starts[-1], seg_len(u)))

        def fs(r):
            us = units(r)
            x, a, b = join(us, p.preM, mean)
            if a is None and not p.same:
                x, a, b = join(us, p.preT, text)
            keep = a if a is not None else -1 if mean else None
            # elsewhere, what had been read before the chunk is not what has been read now
            return mkrope([('F', 'former', y[2] + (y[1],)) if y in (p.preM, p.preT) and keep is not None and j != keep else y for j, y in enumerate(x)])
        g = lambda v: vmap(v, ident, fs, ident, ident)
        for k in list(fr.regs):
            fr.regs[k] = g(fr.regs[k])
        for o in st.heap:
            if not (o in self.e.base or o == self.data):
                st.heap[o] = g(st.heap[o])
        ntot = rlen(st.heap[self.data].rope)
        lens = {n for x in (p.preM, p.preT) for n, _ in lin(seg_len(x)).t}
        keep = {k for ks in ends.values() for k in ks}
        for k, x in list(fr.regs.items()):
            if k not in self.P and k not in keep and isinstance(x, Lin) and x != ntot and {n for n, _ in x.t} & lens:
                fr.regs[k] = atom('former:' + k)
        for k, n in at.items():
            fr.regs[k] = atom('stale:' + k) if n is None else starts[n] if isinstance(n, int) else ladd(starts[-1], n[1])
        for o, ks in ends.items():
            L = rlen(st.heap[o].rope)
            for k in ks:
                fr.regs[k] = L
        # what is left of the bytes of the chunk elsewhere is an earlier byte from now on
        names = {x.id for x in list(v[0]) + list(v[1]) if isinstance(x, FB)}
        inner = [x for x in list(v[0]) + list(v[1]) if isinstance(x, Run)]
        ren = {y: ('F', 'former', (x.name, i)) for x in inner for i, y in enumerate((x.done, x.doneT))}
        rl = {n: seg_len(z) for y, z in ren.items() for n, _ in lin(seg_len(y)).t}

        def old(x):
            if x.id in names:
                return FB(x.id.replace('[j]', '[old]'), x.tab)
            return x
        g = lambda v: vmap(v, lambda l: self.linfb(lsubst(l, rl) if rl else l, names), lambda r: mkrope([('B', old(s[1])) if s[0] == 'B' and isinstance(s[1], FB) else ren.get(s, s) for s in r]), old, ident)
        self.apply(st, g)
        for k in list(st.bm):
            if k in names:
                m = st.bm.pop(k)
                st.bm[k.replace('[j]', '[old]')] = m

    def linfb(self, l, names):
        if isinstance(l, Lin) and lin_ids(l) & names:
            raise Unsupported('an integer computed from a byte of a run is kept')
        return l

    # -------------------------------------------------------------------------------------------- numbers
    def number(self, st, p):
        e = self.e
        out = []
        first = byte(p.name + '.d1', mask_bytes(b'0123456789' if p.any else b'123456789'), e)
        digit = byte(p.name + '.d', mask_bytes(b'0123456789'), e)
        if p.zero:
            z = byte(p.name + '.d0', mask_bytes(b'0'), e)
            for s in self.feed(st, [('B', z)]):
                out.append(self.count(s, p, z, None))
        inv, work = {}, []

        def add(s):
            k = self.canon(s)
            if k not in inv:
                if len(inv) > 50:
                    raise Unsupported('no finite invariant for the number %s' % p.name)
                inv[k] = s
                work.append(s)
        for s in self.feed(st, [('B', first)]):
            add(self.count(s, p, first, None))
        while work:
            g = work.pop()
            for s in self.feed(g, [('B', digit)]):
                add(self.count(s, p, digit, p.pre))
        for s in inv.values():
            out.append(s)
        res = []
        for s in out:
            s = s.clone()
            if p.bits:
                sub = lambda x: z3.substitute(x, (p.pre, p.val)) if z3.is_expr(x) else x
                fl = ident
            else:
                sub = ident
                (a, _), = lin(p.pre).t
                fl = lambda l: lsubst(l, {a: p.val})
            self.apply(s, lambda v: vmap(v, fl, ident, ident, ident, sub))
            res.append(s)
        return res

    def count(self, st, p, d, pre):
        """The value after one more digit: wherever the digit went it must have made 10*value + digit."""
        e = self.e
        s = st.clone()

        def isv(x):
            if isinstance(x, (Lin, int)):
                want = ladd(d.mapped(lambda b: b - 48).lin(), lmulc(pre, 10) if pre is not None else 0)
                return x == want or e.decide(s, lcmp('==', x, want)) is True
            w = x.size()
            dd = d.mapped(lambda b: b - 48 & 255).bv(8)
            dd = z3.ZeroExt(w - 8, dd) if w > 8 else dd
            want = dd if pre is None else pre * 10 + dd
            if want.size() != w:
                return False
            b = d.bv(8)
            sol = z3.Solver()
            sol.set('timeout', 10000)
            sol.add(z3.Or([b == k for k in range(256) if e.elem_mask(d.id) >> k & 1]), x != want)
            return e.decide(s, x == want) is True or sol.check() == z3.unsat
        nv = p.pre
        old, seen = {n for n, _ in lin(pre).t} if pre is not None and not p.bits else set(), []

        def fl(l):
            if d.id in lin_ids(l):
                if not p.bits and isv(l):
                    return nv
                raise Unsupported('a digit of %s makes %r' % (p.name, l))
            # what has been read before the digit is not what has been read now
            if old & {n for n, _ in l.t}:
                seen.append(l)
                return atom('former:%d' % len(seen))
            return l

        def fz(x):
            if z3.is_bv(x) and 'sb_' + d.id in X.zvars(x):
                if p.bits and isv(x):
                    return nv
                raise Unsupported('a digit of %s makes %s' % (p.name, str(x)[:200]))
            if pre is not None and p.bits and z3.is_bv(x) and str(pre) in X.zvars(x):
                return z3.BitVec('former', x.size())
            return x

        def fb(x):
            if x.id == d.id:
                if p.bits == 8 and isv(x.bv(8)):
                    return nv
                if p.bits and self.wide(x, d) and pre is None:
                    return nv
                raise Unsupported('a digit of %s makes %r' % (p.name, x))
            return x
        fr = s.frames[0]
        K, T, more = self.texts(s)
        g = lambda v: vmap(v, fl, ident, fb, ident, fz)
        fr.regs = {k: g(v) for k, v in fr.regs.items()}
        for o in s.heap:
            if not (o in e.base or o.startswith('g:') or o == self.data or o in self.scratch):
                s.heap[o] = g(s.heap[o])
        s.ck = None
        if any(u[0] == 'B' and u[1].id == d.id for u in T if isinstance(u[1], FB)):
            self.fold(s, Run(p.name + '#', [([d], [d])]), ([d], [d]))
        s.bm.pop(d.id, None)
        return s

    def wide(self, x, d):
        m = self.e.elem_mask(d.id)
        return all(x.tab[b] == b - 48 for b in range(256) if m >> b & 1)

    # -------------------------------------------------------------------------------------------- looking ahead
    def look(self, st, p):
        """Reads up to the byte that comes next, of which only the set is known; it is not read."""
        self.peek = p
        try:
            x = byte(p.name, p.mask, self.e)
            ss = self.feed(st, [('B', x)])
        finally:
            self.peek = None
        out = []
        for s in ss:
            K, T, more = self.texts(s)
            if not T or T[-1] != ('B', x):
                raise Unsupported('the byte after the end is read')
            self.retext(s, T[:-1])
            out.append(s)
        return out


class Alt:
    def __init__(self, *alts):
        self.alts = alts


def lin_ids(l):
    """Ids of the bytes an integer depends on."""
    out = set()
    for n, k in l.t:
        m = V.ATOMS[n].meta
        if isinstance(m, FB):
            out.add(m.id)
        elif n.startswith('z3:') or V.ATOMS[n].expr is not None:
            out |= {x[3:] for x in X.zvars(V.ATOMS[n].expr) if x.startswith('sb_')}
    return out
