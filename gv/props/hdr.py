"""Header lines: contracts of the parts of the generated message parser."""
from .wire import *
from .writer import *

FN = 'sip.ParseMsg'
ALPHA = b'abcdefghijklmnopqrstuvwxyz'
UP = ALPHA.upper()
DIG = b'0123456789'
TOKEN = mask_bytes(ALPHA + UP + DIG + b"-.!%*_+`'~")
WSP = mask_bytes(b' \t')
NWSP = V.ALL & ~WSP


def uri_of(rope):
    """The object for the URI that a text stands for."""
    out = ''
    for u in rope:
        if u[0] == 'L':
            out += repr(u[1].decode('latin1'))
        elif u[0] == 'A' and u[2] == 0 and u[3] == atom_len(u[1]):
            out += '{%s}' % u[1]
        elif u[0] == 'F':
            out += '{%s}' % u[2][0]
        else:
            raise Unsupported('a URI of the text %r' % (rope,))
    return 'uri:%s^' % out


class Headers:
    def __init__(self, c):
        self.c = c

        def parse_uri(e, st, a, ins):
            t = e.slice_rope(st, a[0])
            return TupleV([Ptr(uri_of(t)), X.NILIFACE])

        def last(e, st, a, ins):
            p = e.res(st, a[0])
            if p.obj != 'msg^' or len(p.path) != 1:
                raise Unsupported('the end of a list that starts at %r' % (p,))
            o = 'end:%s^' % self.fields[p.path[0]]
            st.heap[o] = NIL
            return Ptr(o)
        text = lambda e, st, a, ins: ratom('text')
        self.fields = [x['name'] for x in c.prog.u(self.fnty())['fields']]

        def parse_sdp(e, st, a, ins):
            ok = z3.Bool('the body is a session description')
            d = e.decide(st, ok)
            if d is None:
                raise Fork(ok)
            if d:
                st.ghost['keep', 'sdp'] = a[0]
                return TupleV([Ptr('sdp^'), X.NILIFACE])
            return TupleV([NIL, SymIface('error', False)])
        self.rd = rd = Reader(c, FN, {'sip.ParseURI': parse_uri, 'sip.lastAddr': last, 'sdp.Parse': parse_sdp}, {'fmt.Sprintf': text, 'errors.New': lambda e, st, a, ins: SymIface('error', False)})
        self.e = rd.e
        self.fn = FN
        R = atom_len(REST)
        self.init = rd.begin(c.state(self.e), [SliceV('data^', 0, R, R)])

    def start(self):
        """The states after a start line, before the first byte of a line."""
        rd = self.rd
        s = rd.reads(self.init, [b'SIP/2.0 200 OK\r\n', Peek('next', NWSP)])
        return s

    # -------------------------------------------------------------------------------------------- the state between two lines
    def general(self, s):
        """The state before a line, with everything that was read before replaced by symbols."""
        e, c = self.e, self.c
        s = self.forget(s)
        fr = s.frames[0]
        ms = [k for k, v in s.heap.items() if isinstance(v, StructV) and len(v.f) == len(self.fields)]
        if len(ms) != 1:
            raise Unsupported('%d messages' % len(ms))
        msg = ms[0]
        tot = rlen(s.heap['data^'].rope)
        self.first = {k: v for k, v in fr.regs.items()}
        for k, v in fr.regs.items():
            if k in self.rd.P or v == tot or isinstance(v, SliceV) and v.obj == 'data^' or isinstance(v, SliceV) and v.obj in self.rd.scratch:
                continue
            if isinstance(v, Ptr) and v.obj == msg:
                if v.path == ():
                    fr.regs[k] = Ptr('msg^')
                elif v.path == (self.fields.index('Via'),):
                    fr.regs[k] = Ptr('via.end^')
                else:
                    raise Unsupported('a pointer into the message')
            elif isinstance(v, Rope):
                fr.regs[k] = ratom('reg:' + k)
            elif isinstance(v, (int, Lin)) and not isinstance(v, bool):
                fr.regs[k] = atom('reg:' + k, 0, (1 << 63) - 1)
            else:
                raise Unsupported('%s = %r' % (k, v))
        p = e.sym(self.msgty(), 'msg')
        s.heap['msg^'] = e.objval(s, p.obj)
        s.heap['via.end^'] = NIL
        del s.heap[msg]
        self.rd.canon(s)
        return s

    def forget(self, s):
        """The state with the text read so far unknown; positions in it are unknown, too."""
        s = s.clone()
        rd = self.rd
        K, T, more = rd.texts(s)
        end = K
        for u in T:
            end = ladd(end, seg_len(u))
        fr = s.frames[0]
        for k, v in fr.regs.items():
            if k in rd.P and isinstance(v, (int, Lin)) and v != end:
                fr.regs[k] = atom('stale:' + k)
        rd.canon(s)
        return s

    def ending(self, H):
        """The empty line and the body, from the state before a line -> states at the return."""
        rd = self.rd
        rd.mayend = True
        sts = rd.read([H], b'\r\n')
        rd.frozen = True
        try:
            for s in sts:
                s = s.clone()
                if rd.collect(s):
                    raise Unsupported('the text is read on')
        finally:
            rd.frozen = rd.mayend = False
        r, rd.finished = rd.finished, []
        return r

    def roles(self, H, outs):
        """The registers that the outcome depends on: (the length of the body, its type)"""
        seen = set()
        for o in outs:
            for x in o.pc:
                seen |= {v for v in X.zvars(x)}
            names = lambda l: seen.update(n for n, k in l.t) or l
            for k, v in o.heap.items():
                if k not in self.e.base and k != 'data^' and k not in self.rd.scratch:
                    vmap(v, names, lambda r: [seen.add(q[1]) for q in r if q[0] == 'A'] and r or r, ident, ident)
        used = {k: v for k, v in H.frames[0].regs.items() if any(x in seen for x in ('reg:' + k, 'len:reg:' + k, 'str:reg:' + k))}
        num = [k for k, v in used.items() if isinstance(v, Lin)]
        txt = [k for k, v in used.items() if isinstance(v, Rope)]
        if len(num) != 1 or len(txt) != 1 or len(used) != 2:
            raise Unsupported('the outcome depends on %r' % sorted(used))
        return num[0], txt[0]

    def msgty(self):
        return self.c.fn('(*sip.Msg).Append').params[0]['t']

    def fnty(self):
        return self.c.prog.u(self.msgty())['e']

    # -------------------------------------------------------------------------------------------- names
    def trie(self, H):
        """Reads a name byte by byte.  -> (states with the name still exactly known [(sets of bytes, state)], the state in which
        any name is kept as a text)"""
        rd, e = self.rd, self.e
        exact, other = [], {}
        work = [((), H)]
        n = 0
        while work:
            name, s = work.pop()
            n += 1
            x = byte('hn:%d' % n, TOKEN, e)
            for masks, y in self.split(s, x):
                nm = name + (masks,)
                if self.diverged(y, nm):
                    g = self.anyname(y, len(nm))
                    other.setdefault(g.ck, g)
                else:
                    exact.append((nm, y))
                    work.append((nm, y))
        X = list(other.values())
        if len(X) != 1:
            raise Unsupported('%d states that keep a name' % len(X))
        x = byte('hn:more', TOKEN, e)
        for y in rd.feed(X[0], [('B', x)]):
            g = self.anyname(y, 2)
            if g.ck != X[0].ck:
                raise Unsupported('a name is not kept')
        return exact, X[0]

    def split(self, s, x):
        """Reads a byte: one state per control point, with the set of bytes that lead to it."""
        rd, e = self.rd, self.e
        rd.keepbm = True
        try:
            outs = rd.feed(s, [('B', x)])
        finally:
            rd.keepbm = False
        groups = {}
        for y in outs:
            m = y.bm.get(x.id, e.elem_mask(x.id))
            rd.canon(y)
            a = groups.setdefault(y.ck, [0, y])
            a[0] |= m
        res = []
        for m, y in groups.values():
            z = byte('%s:%x' % (x.id[3:-3], m), m, e)
            ren = lambda b: FB(z.id, b.tab) if b.id == x.id else b
            y = y.clone()
            rd.apply(y, lambda v: vmap(v, ident, lambda r: mkrope([('B', ren(q[1])) if q[0] == 'B' and isinstance(q[1], FB) else q for q in r]), ren, ident))
            rd.canon(y)
            res.append((m, y))
        return res

    def diverged(self, y, name):
        """Whether from here on every name byte is treated the same."""
        try:
            g = self.anyname(y, len(name))
        except Unsupported:
            return False
        x = byte('hn:more', TOKEN, self.e)
        outs = self.rd.feed(g, [('B', x)])
        fr = g.frames[0]
        return all(o.frames[0].b == fr.b and o.frames[0].i == fr.i for o in outs)

    def anyname(self, y, n, more_text=False):
        """The state with the n units known taken as one text; they are the whole text known unless more_text."""
        rd = self.rd
        y = y.clone()
        K, T, more = rd.texts(y)
        if len(T) < n or len(T) > n and not more_text:
            raise Unsupported('the name is not kept')
        A = ratom('name')[0]
        name = Rope(T[:n])
        fr = y.frames[0]
        starts = [K]
        for u in T:
            starts.append(ladd(starts[-1], seg_len(u)))
        at = {k: starts.index(v) for k, v in fr.regs.items() if k in rd.P and isinstance(v, (int, Lin)) and v in starts}
        if any(0 < j < n for j in at.values()):
            raise Unsupported('a position inside the name')
        rd.retext(y, [A] + T[n:], K, more)
        starts = [K]
        for u in [A] + T[n:]:
            starts.append(ladd(starts[-1], seg_len(u)))
        for k, j in at.items():
            fr.regs[k] = starts[j if j == 0 else j - n + 1]
        if more_text:
            for k, v in fr.regs.items():
                if isinstance(v, Rope) and Rope(units(v)) == name:
                    fr.regs[k] = mkrope([A])
        ids = {b.id for u in T[:n] if u[0] == 'B' and isinstance(u[1], FB) for b in [u[1]]}
        seen = set()
        for k, v in list(fr.regs.items()) + [kv for kv in y.heap.items() if kv[0] not in self.e.base]:
            vmap(v, lambda l: seen.update(lin_ids(l)) or l, lambda r: [seen.add(q[1].id) for q in r if q[0] == 'B' and isinstance(q[1], FB)] and r or r, lambda b: seen.add(b.id) or b, ident)
        if seen & ids:
            raise Unsupported('a byte of the name is kept elsewhere')
        rd.canon(y)
        return y

    def colon(self, sts, first=None):
        """White space, the colon, white space and line breaks; then the first byte of what follows, which is not read."""
        w = lambda n: text_run(self.e, n, WSP)
        return self.rd.reads(sts, [Alt([], [w('w1')]), b':', Alt([], [w('w2')], [b'\r\n', w('w2')], [w('w2'), b'\r\n', w('w3')])] + ([first] if first else []))

    def word(self, s, w):
        """Reads a word in any mix of letter case."""
        sts = [s]
        for ch in w:
            m = mask_bytes(bytes([ord(ch.lower()), ord(ch.upper())]))
            sts = self.rd.read(sts, byte('in:%02x' % (ord(ch) | 32), m, self.e) if ch.isalpha() else ord(ch))
        return sts

    # -------------------------------------------------------------------------------------------- values
    def utf8(self, name, first=True):
        """The chunks a plain header text is made of: visible characters of one byte or more, blanks, and line breaks followed
        by a blank."""
        e = self.e
        vis = [raw(name + '~', mask_bytes(bytes(range(0x21, 0x80))), e)]
        for n, (lo, hi) in enumerate(((0xc0, 0xdf), (0xe0, 0xef), (0xf0, 0xf7), (0xf8, 0xfb), (0xfc, 0xfd))):
            x = [byte('%s~u%d' % (name, n), mask_bytes(bytes(range(lo, hi + 1))), e)]
            x += [byte('%s~u%d.%d' % (name, n, k), mask_bytes(bytes(range(0x80, 0xc0))), e) for k in range(n + 1)]
            vis.append((x, x))
        ws = [raw(name + '~w', WSP, e)]
        x = [13, 10, byte(name + '~f', WSP, e)]
        return Run(name, vis + ws + [(x, x)], vis)

    def renamed(self, s, to):
        """The state with other objects in the place of some."""
        s = s.clone()
        self.rd.apply(s, lambda v: self.reptr(v, to))
        self.rd.canon(s)
        return s

    def reptr(self, v, to):
        if isinstance(v, Ptr) and v.null is not True:
            k = (v.obj, v.path)
            return Ptr(*to[k], null=v.null) if k in to else v
        if isinstance(v, StructV):
            return StructV(self.reptr(x, to) for x in v.f)
        return v

    def changes(self, s, H):
        """What a line has changed: {field of the message: value}, {register: value}, {object: value}; None if the state is
        not one before a line."""
        a, b = s.frames[0], H.frames[0]
        if (a.b, a.i) != (b.b, b.i):
            return None
        m, n = s.heap.get('msg^'), H.heap['msg^']
        if not isinstance(m, StructV):
            return None
        f = {k: x for k, x, y in zip(self.fields, m.f, n.f) if not V.same(x, y)}
        la, lb = rlen(s.heap['data^'].rope), rlen(H.heap['data^'].rope)
        K, T, more = self.rd.texts(s)
        r = {}
        for k, v in b.regs.items():
            if k in self.rd.P or isinstance(v, SliceV) or v == lb:
                continue
            if k not in a.regs or not V.same(a.regs[k], v):
                r[k] = a.regs.get(k)
        # the position before the line is where the text that is known ends
        end = K
        for u in T:
            end = ladd(end, seg_len(u))
        p = [k for k, v in b.regs.items() if k in self.rd.P and v == self.rd.texts(H)[0]]
        if not p or any(a.regs.get(k) != end for k in p) or not more:
            return None
        o = {k: v for k, v in s.heap.items() if k not in self.e.base and k not in ('msg^', 'data^') and k not in self.rd.scratch and
             not (k in H.heap and V.same(H.heap[k], v))}
        o.update({k: None for k in H.heap if k not in s.heap})
        return f, r, o

    def line_end(self, sts):
        return self.rd.reads(sts, [b'\r\n', Peek('next', NWSP)])


def last_addr(c):
    """The end of the list that starts at a cell: the cell if it holds nil, otherwise the end of the list after the element.
    A recursive call must be for the cell in the first element; a loop must come back to its head in the state that it has for
    that cell."""
    fn = 'sip.lastAddr'
    f = c.fn(fn)
    REST_ = Ptr('the end of the rest^')
    e = c.engine(fn, {fn: lambda e, st, a, ins: REST_ if a[0] == Ptr('elem^', (nxt,)) else Ptr('something else^')})
    types = c.prog.u(c.prog.u(c.prog.u(f.params[0]['t'])['e'])['e'])['fields']
    nxt = [x['name'] for x in types].index('Next')

    def head(e, st, fr, blk, back):
        now = {i['n']: e.res(st, fr.regs[i['n']]) if isinstance(fr.regs[i['n']], Ptr) else fr.regs[i['n']] for i in blk['instrs'][:blk['nphi']]}
        k = ('head', fr.b)
        if k not in st.ghost:
            st.ghost[k] = now
            return None
        to = {Ptr('cell^'): Ptr('elem^', (nxt,)), Ptr('elem^'): old['elem^'].f[nxt]}
        first = st.ghost[k]
        same = lambda a, b: isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.path == b.path or V.same(a, b)
        if not all(same(now[n], to.get(v, v)) for n, v in first.items()) or not any(v in to for v in first.values()):
            raise Unsupported('a loop that does not go on to the next element')
        e.ret(st, REST_)
        return [st]

    class Inv(dict):
        def get(s, k, d=None):
            return head if k == '*' else dict.get(s, k, d)
    e.inv = Inv()
    for empty in (True, False):
        st = c.state(e)
        st.heap['cell^'] = NIL if empty else Ptr('elem^')
        st.heap['elem^'] = StructV(e.sym(x['t'], 'elem.' + x['name']) for x in types)
        old = dict(st.heap)
        for o in c.call(e, fn, [Ptr('cell^')], st):
            ok = o.result == (Ptr('cell^') if empty else REST_) and all(V.same(o.heap[k], v) for k, v in old.items())
            c.ensures(e, o, ok, 'an empty list ends where it starts' if empty else 'a list ends where the list after its first element ends', fn)
