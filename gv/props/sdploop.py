"""The contract of sdp.Parse, line by line.

Every text without line breaks is exactly one of the *shapes* below (a partition by the keywords of the format), and the loop of
Parse is proved to make the transition the format prescribes for each shape, from an arbitrary state of the loop. After the last
line, the outcome is proved to be what the accumulated state says. What holds one thing or another (which variable holds the
audio line, where mapping lines are collected) is found by looking at what changes, and then has to be consistent."""
from .sdpx import *

BIG = 1 << 40
MEDIA = [b'audio ', b'video ']
ATTR = [b'rtpmap:', b'fmtp:', b'ptime:', b'sendrecv', b'sendonly', b'recvonly']


class Shape:
    def __init__(self, name, what, rope, arg=None, differ=()):
        self.name, self.what, self.rope, self.arg, self.differ = name, what, rope, arg, differ


def byte(e, name, without):
    """A byte other than some."""
    e.atommask[name] = V.ALL & ~mask_bytes(without)
    return FB('el:%s[0]' % name)


def trie(words):
    """All proper prefixes of the words with what may not follow them (word ends count as prefixes of longer words)."""
    pre = sorted({w[:i] for w in words for i in range(len(w))})
    return [(p, bytes(sorted({w[len(p)] for w in words if w.startswith(p) and len(w) > len(p)}))) for p in pre]


def shapes(e):
    """The partition of all lines. Distinct bytes and texts are arbitrary within their class."""
    out = []

    def add(name, what, rope, arg=None, differ=()):
        out.append(Shape(name, what, rope, arg, differ))

    def any_(nm, without=b''):
        return text(e, nm, without)

    X = any_('x')
    B = lambda nm='b', w=b'': [('B', nm, w)]
    add('empty', 'skip', EMPTY)
    add('one byte', 'skip', [('b0', b'')])
    add('two bytes', 'skip', [('b0', b''), ('b1', b'')])
    add('no = sign', 'skip', [('b0', b''), ('b1', b'='), X], differ=('nonempty',))
    for l in b'st':
        add('%c=' % l, chr(l), [rlit(bytes([l]) + b'='), ('b0', b''), X], arg=2)
    for l in b'co':
        add('%c=' % l, chr(l), [rlit(bytes([l]) + b'='), ('b0', b''), X], arg=2)
    # media lines
    for w in MEDIA:
        add('m=%s' % w.decode(), w.decode().strip(), [rlit(b'm=' + w), X], arg=2 + len(w))
    for p, nxt in trie(MEDIA):
        if p:
            add('m=%s (end)' % p.decode(), 'skip', [rlit(b'm=' + p)])
        add('m=%s (other)' % p.decode(), 'skip', [rlit(b'm=' + p), ('b0', nxt), X])
    # attributes
    for w in ATTR[:3]:
        add('a=%s' % w.decode(), w.decode()[:-1], [rlit(b'a=' + w), X], arg=2 + len(w))
    for w in ATTR[3:]:
        add('a=%s' % w.decode(), w.decode(), [rlit(b'a=' + w)])
    for p, nxt in trie(ATTR) + [(w, b'') for w in ATTR[3:]]:
        full = p in ATTR
        if p and not full:
            add('a=%s (end)' % p.decode(), 'attr', [rlit(b'a=' + p)], arg=('name', 2))
        add('a=%s (other)' % p.decode(), 'attr', [rlit(b'a=' + p), ('b0', nxt + b':'), any_('y', b':')], arg=('name', 2))
        add('a=%s (other, value)' % p.decode(), 'attr', [rlit(b'a=' + p), ('b0', nxt + b':'), any_('y', b':'), rlit(b':'), X], arg=('colon', 2))
        if b':' not in nxt:
            add('a=%s (value)' % p.decode(), 'attr' if p else 'skip', [rlit(b'a=' + p + b':'), X], arg=('colon', 2) if p else None)
    # other lines
    add('==', 'skip', [rlit(b'=='), ('b0', b''), X])
    add('other', 'other', [('b1', b'=mstcao'), rlit(b'='), ('b0', b''), X])
    res = []
    for s in out:
        r = EMPTY
        for x in (s.rope if isinstance(s.rope, list) else [s.rope]):
            if isinstance(x, tuple) and not isinstance(x, Rope) and isinstance(x[0], str) and x[0] in ('b0', 'b1'):
                nm = 'line.%s' % x[0]
                r = rcat(r, mkrope([('B', byte(e, nm + x[1].hex(), x[1]))]))
            else:
                r = rcat(r, x)
        res.append((s, r))
    return res


# ---------------------------------------------------------------- the formats of single lines
def conn_spec(e, st, r, want=3):
    """Body of a c= line -> (state, well-formed, address)."""
    out = []
    n, at = pieces(e, st, r, b' ')
    for s, ok in both(e, st, lcmp('==', n, want)):
        if not ok:
            out.append((s, False, None))
            continue
        i = want - 3
        for s1, good in both(e, s, band(e.rope_eq(s, at(e, s, i), rlit(b'IN')), bor(e.rope_eq(s, at(e, s, i + 1), rlit(b'IP4')), e.rope_eq(s, at(e, s, i + 1), rlit(b'IP6'))))):
            if not good:
                out.append((s1, False, None))
                continue
            for s2, multi in both(e, s1, has(e, s1, at(e, s1, i + 2), rlit(b'/'))):
                out.append((s2, not multi, None if multi else [at(e, s2, j) for j in range(want) if j not in (i, i + 1)]))
    return out


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def pieces(e, st, r, sep):
    ps = split(e, st, r, rlit(sep))
    if ps is not None:
        return len(ps), lambda e, st, i: ps[i]
    v = e.on_split(st, r, rlit(sep), None) if getattr(e, 'on_split', None) else None
    if v is not None:
        return v
    return tokens(e, r, rlit(sep))


def info_spec(e, st, r):
    """Text of a media line after the kind -> (state, well-formed so far, (port, proto, number of types, i -> (value, error))).
    It is well-formed when every payload type is a number up to 255 as well."""
    out = []
    n, at = pieces(e, st, r, b' ')
    for s, ok in both(e, st, lcmp('>=', n, 3)):
        if not ok:
            out.append((s, False, None))
            continue
        p = at(e, s, 0)
        i = index(e, s, p, rlit(b'/'))
        for s1, cut in both(e, s, lcmp('>', i, 0)):
            q = rslice(p, 0, i, lambda c: e.decide(s1, c)) if cut else p
            v = m_parseuint(e, s1, [q, 10, 16], {})
            for s2, good in both(e, s1, isnil(v[1])):
                out.append((s2, good, (v[0], at(e, s2, 1), ladd(n, -2), lambda e, st, j: m_parseuint(e, st, [at(e, st, ladd(j, 2)), 10, 8], {})) if good else None))
    return out


# ---------------------------------------------------------------- the loop of Parse
class ParseLoop:
    def __init__(self, c, label):
        self.c, self.label = c, label
        self.fn = c.fn('sdp.Parse')
        self.head = outer_loop(self.fn)
        self.N, self.k = atom('len(lines)', 1, BIG), atom('k', 0, BIG)
        self.roles = {}
        self.loc0 = None
        self.sf = fields(c, '@sdp.SDP')
        self.of = fields(c, '@sdp.Origin')
        self.mf = fields(c, '@sdp.Media')
        c.inline = None

    def engine(self, extra=None):
        C = {'sdp.parseMediaInfo': self.media_info, 'sdp.populateCodecs': self.codecs}
        e = engine(self.c, self.label, C, extra)
        return e

    def media_info(self, e, st, a, ins):
        r = e.res(st, a[0])
        n = 'info(%r)' % (r,)
        ok = z3.Bool('ok:' + n)
        d = e.decide(st, ok)
        if d is None:
            raise Fork(ok)
        st.ghost['infos'] = TupleV(list(st.ghost.get('infos', ())) + [(r, d)])
        if not d:
            return TupleV([0, EMPTY, NILSLICE, models.some_error(e, n) if hasattr(models, 'some_error') else Iface('error', n)])
        L = atom('npts:' + n, 1, BIG)
        st.heap['pts:' + n] = SeqV('pts:' + n, lambda e, st, i: FB('pt:%s[%r]' % (n, i)))
        return TupleV([z3.BitVec('port:' + n, 16), ratom('proto:' + n), SliceV('pts:' + n, 0, L, L), NILERR])

    def codecs(self, e, st, a, ins):
        m, pts, rt, fm = (e.res(st, x) for x in a)
        for w, v in (('rtpmap', rt), ('fmtp', fm)):
            self.is_list(e, st, w, v)
        e.prove(st, isinstance(m, Ptr) and m.null is False and isinstance(pts, SliceV) and pts.off == 0, 'codecs are filled in for a medium', 'pre', fn=self.fn.name)
        n = 'codecs(%s)' % pts.obj
        ok = z3.Bool('ok:' + n)
        d = e.decide(st, ok)
        if d is None:
            raise Fork(ok)
        st.ghost['resolved'] = TupleV(list(st.ghost.get('resolved', ())) + [(pts.obj, d)])
        v = dict(zip(self.mf, e.load(st, m).f))
        v['Codecs'] = SliceV(n, 0, pts.len, pts.len)
        st.heap.setdefault(n, SeqV(n, None))
        e.store(st, m, StructV([v[x] for x in self.mf]))
        return NILERR if d else Iface('error', n)

    def is_list(self, e, st, w, v):
        """That a slice is the list collected from the lines of one kind."""
        r = self.roles.get(w)
        ok = isinstance(v, SliceV) and r is not None
        if ok and r[0] == 'count':
            ok = v.obj == r[1] and v.off == 0 and V.same(v.len, st.ghost['head'].h[('phi', r[2])])
        elif ok:
            ok = V.same(v, st.ghost['head'].h[r])
        e.prove(st, bool(ok), 'codecs are looked up in all %s lines' % w, 'pre', fn=self.fn.name)

    # -- running
    def run(self, line, extra=None):
        """Runs one iteration on a line (or, for None, what follows the loop). -> (engine, back states, returned states)"""
        c = self.c
        e = self.engine(extra)
        if callable(line):
            line = line(e)
        self.line = line
        self.backs = []
        st = c.state(e)
        s = ratom('s')
        e.inv[(self.fn.name, e.loop_ordinal(self.fn, self.head))] = self

        def on_split(st, r, sep, n):
            if not (len(r) == 1 and r[0][0] == 'A' and r[0][1] == 's'):
                return None
            e.prove(st, V.same(r, mkrope([('A', 's', 5, V.atom_len('s'))])), 'what follows the version line is split', 'pre', fn=self.fn.name)
            e.prove(st, V.same(sep, rlit(b'\r\n')), 'lines end in CR LF', 'pre', fn=self.fn.name)
            st.heap['lines'] = SeqV('lines', self.at)
            st.ghost['split'] = True
            return SliceV('lines', 0, self.N, self.N)
        e.on_split = on_split
        self.e = e
        if getattr(self, 'facts', None):
            self.facts(e, st)
        out = c.call(e, 'sdp.Parse', [s], st)
        return e, self.backs, out

    def at(self, e, st, i):
        if self.line is None or not V.same(norm(i), norm(self.k)):
            raise Unsupported('looks at line %r' % (i,))
        return self.line

    def __call__(self, e, st, fr, blk, body):
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        key = 'parse'
        if fr.prev not in body:
            self.enter(e, st, fr, blk, body, phis)
            return None
        h = st.ghost['head'].h
        for p, c0 in self.cnt:
            e.prove(st, lcmp('==', fr.regs[p], ladd(self.k, c0 + 1)), 'the lines are taken one by one', 'invariant', fn=self.fn.name)
        self.backs.append((st, self.changes(e, st, fr)))
        raise X.PathDone()

    def enter(self, e, st, fr, blk, body, phis):
        """The state at the loop head is arbitrary: what lines have been collected, which flags are set, ..."""
        e.prove(st, bool(st.ghost.get('split')), 'the text after the version line is split into lines', 'pre', fn=self.fn.name)
        h, first = {}, {}
        k = self.k
        self.cnt = [(p, fr.regs[p]) for p in phis if isinstance(fr.regs[p], int) and not isinstance(fr.regs[p], bool) and fr.regs[p] in (0, -1) and self.counter(fr, blk, p, body)]
        if len(self.cnt) != 1:
            raise Unsupported('which line is it')
        for p, c0 in self.cnt:
            fr.regs[p] = ladd(k, c0)
        e.assume(st, zbool(lcmp('<', k, self.N)) if self.line is not None else zbool(lcmp('==', k, self.N)))

        def havoc(nm, v):
            if isinstance(v, Rope):
                return ratom('old:' + nm)
            if isinstance(v, bool):
                return z3.Bool('old:' + nm)
            if isinstance(v, int):
                return atom('old:' + nm, 0, BIG)
            if isinstance(v, SliceV):
                n = atom('old:len ' + nm, 0, BIG)
                st.pc.append(zbool(lcmp('<=', n, k)))
                o = v.obj
                if o is None:
                    o = 'list:' + nm
                    st.heap[o] = None
                cap = v.cap if v.obj is not None else n
                e.prove(st, band(lcmp('==', v.off, 0), lcmp('==', v.len, 0)), 'lists start empty', 'invariant', fn=self.fn.name)
                st.heap[o] = Table(nm, cap, self.old(nm))
                return SliceV(o, 0, n, cap)
            return v
        for p in phis:
            if p in dict(self.cnt):
                continue
            nm = next((i.get('comment') or p for i in blk['instrs'] if i.get('n') == p), p)
            first[('phi', p)] = fr.regs[p]
            fr.regs[p] = havoc(nm, fr.regs[p])
            if isinstance(fr.regs[p], Lin):
                st.pc.append(zbool(lcmp('<=', fr.regs[p], k)))
            h[('phi', p)] = fr.regs[p]
        # objects: the description, and the lists
        T = self.c.prog.type_by_name('@sdp.SDP')
        objs = [o for o, v in st.heap.items() if isinstance(v, StructV) and '#' in o and len(v.f) == len(self.sf)]
        if len(objs) != 1:
            raise Unsupported('which object is the description')
        self.sdp = o = objs[0]
        v = dict(zip(self.sf, st.heap[o].f))
        for f in self.sf:
            first[f] = v[f]
            if f == 'Origin':
                for g, w in zip(self.of, v[f].f):
                    first['Origin.' + g] = w
                v[f] = StructV([havoc('Origin.' + g, w) for g, w in zip(self.of, v[f].f)])
                for g, w in zip(self.of, v[f].f):
                    h['Origin.' + g] = w
                continue
            v[f] = havoc(f, v[f])
            h[f] = v[f]
        st.heap[o] = StructV([v[f] for f in self.sf])
        used = {x.obj for x in h.values() if isinstance(x, SliceV)}
        for o, t in list(st.heap.items()):
            if isinstance(t, Table) and o not in used:
                e.prove(st, not t.over, 'lists start empty', 'invariant', fn=self.fn.name)
                st.heap[o] = Table('list:' + o, t.size, self.old(o))
        for o, t in st.heap.items():
            if o != self.sdp:
                h[('obj', o)] = t
        self.first = first
        st.ghost['head'] = Snap(h)
        if self.loc0 is not None and sorted(map(repr, first)) != self.loc0:
            raise Unsupported('the loop starts in different ways')
        self.loc0 = sorted(map(repr, first))

    def old(self, nm):
        def f(e, st, x):
            raise Unsupported('looks at earlier lines')
        return f

    def counter(self, fr, blk, p, body):
        """The phi that goes up by one on every way back (the others do so only on some)."""
        return counts(fr.fn, blk, p, body)

    def changes(self, e, st, fr=None):
        """What an iteration changed: {location: ('set', value) | ('append', value)}"""
        h = st.ghost['head'].h
        now = {}
        for l in h:
            if isinstance(l, tuple) and l[0] == 'phi':
                now[l] = fr.regs[l[1]] if fr else h[l]
            elif isinstance(l, tuple):
                now[l] = st.heap.get(l[1])
        v = dict(zip(self.sf, st.heap[self.sdp].f))
        for f in self.sf:
            if f == 'Origin':
                for g, w in zip(self.of, v[f].f):
                    now['Origin.' + g] = w
            else:
                now[f] = v[f]
        ch = {}
        lists = {}
        for l, a in h.items():
            b = now[l]
            if V.same(a, b):
                continue
            if isinstance(l, tuple) and l[0] == 'obj':
                if isinstance(a, Table) and isinstance(b, Table):
                    lists[l[1]] = b.over
                    continue
            if isinstance(a, SliceV) and isinstance(b, SliceV):
                t = e.heapv(st, b)
                if V.same(b.off, 0) and V.same(b.len, ladd(a.len, 1)) and isinstance(t, Table) and len(t.over) == 1 and V.same(t.over[0][0], a.len) \
                        and t.name == h[('obj', a.obj)].name:
                    ch[l] = ('append', t.over[0][1])
                    lists.pop(a.obj, None)
                    st.ghost['seen:' + a.obj] = True
                    continue
                ch[l] = ('?', b)
                continue
            ch[l] = ('set', b)
        for l, a in h.items():
            if isinstance(a, SliceV) and l in ch and ch[l][0] == 'append':
                lists.pop(a.obj, None)
        for o, over in lists.items():
            if len(over) != 1:
                ch[('obj', o)] = ('?', over)
                continue
            i, x = over[0]
            cn = [l for l, w in ch.items() if w[0] == 'set' and isinstance(l, tuple) and l[0] == 'phi' and V.same(h[l], i) and V.same(w[1], ladd(i, 1))]
            if len(cn) != 1:
                ch[('obj', o)] = ('?', over)
                continue
            del ch[cn[0]]
            ch[('count', o, cn[0][1])] = ('append', x)
        return ch

    # -- checking
    def role(self, e, st, name, loc):
        """A location must play the same role every time, and no other."""
        if name not in self.roles:
            e.prove(st, loc not in self.roles.values(), '%s is kept apart' % name, 'invariant', fn=self.fn.name)
            self.roles[name] = loc
        e.prove(st, self.roles[name] == loc, '%s is kept in one place' % name, 'invariant', fn=self.fn.name)

    def only(self, e, st, ch, name, what, val, loc=None):
        """That the iteration made exactly this change."""
        P = lambda c, w: e.prove(st, c, w, 'post', fn=self.fn.name)
        ok = len(ch) == 1
        P(ok, '%s: exactly one thing changes%s' % (name, '' if ok else ': %s' % sorted(map(repr, ch))))
        if not ok:
            return
        (l, (w, v)), = ch.items()
        P(w == what, '%s: it is %s' % (name, 'appended' if what == 'append' else 'set'))
        if w == what:
            P(self.equal(e, st, v, val), '%s: with the right contents' % name)
        self.role(e, st, loc or name, l)

    def equal(self, e, st, a, b):
        if isinstance(b, list):
            return self.equal_arr(e, st, a, b)
        if isinstance(b, bool) or isinstance(b, int):
            return e.equal(st, a, b, None)
        return same_val(e, st, a, b)

    def equal_arr(self, e, st, a, b):
        c = isinstance(a, ArrV) and len(a.e) == len(b)
        for x, y in zip(a.e if c else (), b):
            c = X.band2(c, e.rope_eq(st, x, y))
        return c
