"""C04: SIP messages survive serialisation and parsing.

Writing.  (*Msg).Append runs on an arbitrary message of each kind (a request, a response with a phrase, a response without one),
cut where the text written so far ends with a line: from there on the state must be the same whatever was written, so every
piece between two cuts is one step of a finite graph, with the text it writes and the condition for it.  The list of Vias is
written by a loop of which an arbitrary round is run; addresses, Vias, parameters and extension headers have Append methods
whose contracts are the finitely many forms an element is written in (writer.py), recursive calls being the list of the elements
that follow or precede.  Reading.  Every line so written is read by ParseMsg from the state before a line (hdr.py, wire.py, as in
C05 and C06), and must set exactly the field it was written for, to the value written, and lead to the state before a line again;
every form of an element must be read as an element with the same parts (C06).  Over the graph: on every path each field is
either written once or its being unset is the condition of the path.  The start line must lead from the beginning to the state
before a line, in a message that has only the fields of the start line; the empty line and the body must end the parse with that
message, and the body with its type."""
from .c06 import *
from .c02 import finders, one_buffer
from .emit import regs_of
from .c17 import phrases
from .c05 import Names, VIS, WORD
REPLAY = [('sip', 'TestVerifC04')]
SECS = 8
TRUSTED = {'sip.ParseURI reads what (*sip.URI).Append writes': 'C02; what is written is a scheme, a colon and legal URI characters (C03)',
           'Payload.ContentType, Payload.Data': 'return the type and the bytes of the body; for a session description C14 and C15',
           'sdp.Parse': 'reads a session description back (C14, C15)'}
ASSUME = ['a well-formed message: a request has a status of 0 and no phrase, a response a status from 100 to 999 and no method, URI or hop count; sender and recipient are there; numbers are not negative',
          'a plain header text begins with a visible character and is otherwise visible characters and blanks; the Call-ID, methods, '
          'host names, Via fields, parameter and extension header names are not empty and of the characters the grammar has for them; '
          'display names and parameter values are ASCII without line breaks',
          'an extension header is not named like a header that has a field of its own; the type of the body is a token, a slash and a token; a body is not empty',
          'decimal digits are written without leading zeros (strconv)']
ASCII = mask_bytes(bytes(range(128))) & ~mask_bytes(b'\r\n')
PHRASE = mask_bytes(ALPHA + UP + DIG + b";/?:@&=+$,-_.!~*'() \t")
MSG = '(*sip.Msg).Append'


def verify(c):
    p = Written(c)
    c.section('sip.ParseMsg: the state before a line', p.setup)
    if p.H is None:
        return
    c.section('sip.lastAddr', last_addr, c)
    c.section('sip.ParseMsg: the end of the header', p.roles)
    c.section('sip.ParseMsg: addresses and Vias', p.lists)
    c.section('sip.ParseMsg: extension headers', p.extensions)
    for t in ('Addr', 'Via', 'Param', 'XHeader'):
        c.section('(*sip.%s).Append' % t, p.element, t)
    c.section('sip.ParseMsg reads what (*sip.Addr).Append writes', p.read_addrs)
    c.section('sip.ParseMsg reads what (*sip.Via).Append writes', p.read_vias)
    for k in ('addr', 'via'):
        c.section('sip.ParseMsg reads what (*sip.Param).Append writes: ' + k, p.read_params, k)
    c.section('sip.ParseMsg reads what (*sip.XHeader).Append writes', p.read_xheaders)
    c.section('the standard phrases', phrases, c)
    c.section('sip.Phrase', p.standard)
    for m in MODES:
        c.section('%s: %s' % (MSG, m), p.message, m)
    c.section('sip.ParseMsg: the body', p.body)



MODES = ('a request', 'a response with a phrase', 'a response without a phrase')


class Forms(Writer):
    """Writer for loops that write; loops that only look at the bytes of a field are searches: leaving at the end means that every
    byte (the first, those between, the last) is one of those the search goes on at."""

    def __call__(self, e, st, fr, blk, body):
        at = 'table', len(st.frames), fr.fn.name, fr.b
        if fr.prev in body and at not in st.ghost:
            raise Unsupported('loop entered twice')
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        if any(isinstance(st.fr.regs[n], Ptr) for n in phis):
            return self.walk(e, st, fr, blk, body, phis)
        ints = [n for n in phis if isinstance(st.fr.regs[n], (int, Lin)) and not isinstance(st.fr.regs[n], bool)]
        if not ints:
            return None
        if at in st.ghost or self.table(e, st, fr, blk, body):
            st.ghost[at] = True
            return None
        self.n += 1
        b = one_buffer(st)
        depth, head = len(st.frames), fr.b
        entry = {n: st.fr.regs[n] for n in phis}
        k = atom('search:%d' % self.n, 0, 1 << 40)
        leave, facts, names = [], [0, 0, 0], set()

        def stop(x):
            f = x.frames[-1]
            return len(x.frames) == depth and (f.b not in body or f.b == head)
        for first in (True, False):
            s = st.clone()
            if not first:
                s.pc.append(zbool(lcmp('>=', k, 1)))
            kk = 0 if first else k
            for n in phis:
                s.fr.regs[n] = shift(entry[n], kk)
            s.fr.i, s.fr.pend = blk['nphi'], False
            s.heap[b] = BufV(rapp('sofar'))
            for o in e.run(s, depth - 1, stop):
                if o.heap[b].rope != rapp('sofar'):
                    return Writer.__call__(self, e, st, fr, blk, body)
                for ob, v in st.heap.items():
                    if ob != b and not V.same(o.heap.get(ob), v):
                        raise Unsupported('a search that writes')
                if not (o.done == 'stop' and o.fr.b == head):
                    leave.append((o, kk))
                    continue
                e.phis(o, o.fr, blk)
                for n in phis:
                    self.c.ensures(e, o, same_val(e, o, o.fr.regs[n], shift(entry[n], ladd(kk, 1))), 'the search goes on by one byte per round', fr.fn.name)
                ns = {x[3:x.rindex('[')] for x in o.bm if x.startswith('el:') and 'search' in x or x.startswith('el:') and x.endswith('[0]')}
                names |= ns
                for nm in ns:
                    m = o.bm.get('el:%s[%r]' % (nm, norm(kk)), e.elem_mask('el:%s[x]' % nm))
                    last = e.decide(o, lcmp('==', atom_len(nm), ladd(kk, 1)))
                    if first:
                        facts[0] |= m
                    if last is not False:
                        facts[2] |= m
                    if not first and last is not True:
                        facts[1] |= m
        if len(names) != 1:
            raise Unsupported('a search in %s' % (sorted(names) or 'nothing'))
        nm = names.pop()
        res, seen = [], set()
        for o, kk in leave:
            o.done = None
            o.heap[b] = st.heap[b]
            whole = e.decide(o, lcmp('<=', atom_len(nm), kk))
            if whole is None:
                raise Unsupported('the end of a search')
            if whole:
                if kk == 0 and e.decide(st, lcmp('>=', atom_len(nm), 1)) is True:
                    continue
                o.ghost['all', nm] = tuple(facts) if kk != 0 else (0, 0, 0)
            key = (len(o.frames), o.fr.b, o.fr.prev, whole, tuple(sorted((a, repr(v)) for a, v in o.fr.regs.items() if a not in phis and not isinstance(v, (FB, FBool)) and 'search' not in repr(v))))
            if key not in seen:
                seen.add(key)
                res.append(o)
        return res

    def table(self, e, st, fr, blk, body):
        """Is this a loop over a list whose length is fixed by the code?"""
        t = blk['instrs'][-1]
        if t['op'] != 'if' or set(blk['succs']) <= set(body):
            return False
        d = [i for i in blk['instrs'] if i.get('n') is not None and i['n'] == t['x'].get('n')]
        if not d or d[0]['op'] != 'binop':
            return False
        inside = {i.get('n') for b in body for i in fr.fn.blocks[b]['instrs']} - {None}
        return any(x.get('n') not in inside and isinstance(e.val(st, x), int) for x in (d[0]['x'], d[0]['y']))

    def tail(self, e, st, fr, blk, body, phis, n):
        """A loop over the list that the function is called for, from its beginning: the rest of the list is written as the
        function itself writes it, after a separator.  Shown for an arbitrary element: a later round writes the separator and what
        the first round writes under the same condition."""
        b = one_buffer(st)
        t = [i for i in blk['instrs'] if i.get('n') == n][0]['t']
        nx = [x['name'] for x in e.p.u(e.p.u(t)['e'])['fields']].index('Next')
        head, rest = fr.b, [x for x in phis if x != n]
        if not hasattr(e, 'pc0') or st.heap[b].rope != EMPTY or any(not isinstance(st.fr.regs[x], (bool, int)) for x in rest):
            raise Unsupported('a loop over a list with other variables')
        for y in set(y for x in body for y in fr.fn.blocks[x]['succs']) - set(body):
            if [i['op'] for i in fr.fn.blocks[y]['instrs']] != ['return']:
                raise Unsupported('something is done after the list')

        def stop(x):
            f = x.frames[-1]
            return len(x.frames) == 1 and (f.b not in body or f.b == head)

        def round(s, vals):
            s.fr.regs.update(vals)
            s.heap[b] = BufV(rapp('sofar'))
            s.fr.i, s.fr.pend, self.n = blk['nphi'], False, k
            res = []
            for o in e.run(s, 0, stop):
                back = o.done == 'stop' and o.fr.b == head
                us = units(o.heap[b].rope)
                isnil = e.decide(o, zbool(vals[n].null)) if vals[n].null is not True else True
                self.c.ensures(e, o, isnil is (not back), 'the loop ends exactly at the end of the list', fr.fn.name)
                if any(ob != b and not V.same(o.heap.get(ob), x) for ob, x in st.heap.items()) or us[:1] != [('F', 'sofar', ())]:
                    raise Unsupported('a loop that writes more than its output')
                if back:
                    e.phis(o, o.fr, blk)
                    w = e.objval(o, vals[n].obj).f[nx]
                    got = e.res(o, o.fr.regs[n])
                    self.c.ensures(e, o, isinstance(got, Ptr) and (got.obj, got.path) == (w.obj, w.path), 'the loop goes on with the next of the list', fr.fn.name)
                    res.append((tuple(us[1:]), o, w))
                else:
                    self.c.ensures(e, o, len(us) == 1, 'nothing is written after the list', fr.fn.name)
            return res

        def rounds(vals):
            # the element the function is called for is arbitrary, and stands for any other
            s = st.clone()
            v = p0
            s.pc, s.lits, s.bm = list(e.pc0), {}, {}
            s.ghost = {a: x for a, x in s.ghost.items() if not (isinstance(a, tuple) and a[0] == 'all')}
            sig = {}
            for us, o, w in round(s, dict(vals, **{n: v})):
                key = (repr(o.pc), repr(sorted(o.bm.items())), repr(sorted((a, x) for a, x in o.ghost.items() if isinstance(a, tuple) and a[0] == 'all')))
                sig.setdefault(key, set()).add((us, tuple(o.fr.regs[x] for x in rest)))
            return sig
        self.n += 1
        k = self.n
        first = {x: st.fr.regs[x] for x in rest}
        p0 = e.res(st, st.fr.regs[n])
        one = rounds(first)
        after = {a for x in one.values() for _, a in x}
        P = lambda cond, w: self.c.ensures(e, st, cond, w, fr.fn.name)
        if len(after) != 1:
            raise Unsupported('a loop over a list with other variables')
        later = dict(zip(rest, after.pop()))
        two = rounds(later)
        sep = None
        P(set(one) == set(two), 'the rest of the list is written under the same conditions')
        for key in one:
            for (x, _), (y, a) in zip(sorted(one[key], key=repr), sorted(two.get(key, ()), key=repr)):
                k0 = len(y) - len(x)
                g = b''.join(u[1] for u in y[:k0]) if k0 >= 0 and all(u[0] == 'L' for u in y[:k0]) else None
                P(g is not None and y[k0:] == x and (sep is None or sep == g) and dict(zip(rest, a)) == later, 'the rest of the list is written as a list of its own, after a separator')
                sep = g or b''
            P(len(one[key]) == len(two.get(key, ())), 'the rest of the list is written in as many ways')
        res = []
        for us, o, w in round(st.clone(), dict(first, **{n: p0})):
            for isnil in (True, False):
                d = e.decide(o, zbool(w.null))
                if d is not None and d is not isnil:
                    continue
                q = o.clone()
                q.done = None
                e.assume(q, zbool(w.null) if isnil else z3.Not(zbool(w.null)))
                q.fr.regs.update(later)
                q.fr.regs[n] = NIL
                q.fr.i, q.fr.pend = blk['nphi'], False
                q.heap[b] = BufV(rcat(us) if isnil else rcat(us, sep, rapp('list', self.what(e, t), w.obj)))
                res.append(q)
        q = st.clone()
        if p0.null is True or e.decide(q, zbool(p0.null)) is not False:
            e.assume(q, zbool(p0.null))
            q.fr.regs[n] = NIL
            q.fr.i, q.fr.pend = blk['nphi'], False
            res.append(q)
        return res

    def what(self, e, t):
        return e.p.tname(e.p.u(t)['e']).split('.')[-1]

    def walk(self, e, st, fr, blk, body, phis):
        """A loop over a list."""
        ptrs = [n for n in phis if isinstance(st.fr.regs[n], Ptr)]
        own = len(st.frames) == 1 and len(ptrs) == 1 and same_val(e, st, st.fr.regs[ptrs[0]], st.fr.regs.get(fr.fn.params[0]['n'], st.fr.regs[ptrs[0]])) is True
        if own and e.res(st, st.fr.regs[ptrs[0]]).null is True:
            return None
        if own:
            return self.tail(e, st, fr, blk, body, phis, ptrs[0])
        if len(ptrs) != 1 or len(phis) != 1:
            raise Unsupported('a loop over a list with other variables')
        n, = ptrs
        b = one_buffer(st)
        p0 = e.res(st, st.fr.regs[n])
        t = [i for i in blk['instrs'] if i.get('n') == n][0]['t']
        depth, head = len(st.frames), fr.b
        self.n += 1
        name = 'item:%d' % self.n
        s = st.clone()
        v = e.sym(t, name)
        s.fr.regs[n] = v
        s.heap[b] = BufV(rapp('sofar'))
        s.fr.i, s.fr.pend = blk['nphi'], False
        nx = [x['name'] for x in e.p.u(e.p.u(t)['e'])['fields']].index('Next')

        def stop(x):
            f = x.frames[-1]
            return len(x.frames) == depth and (f.b not in body or f.b == head)
        forms, leave = [], []
        for o in e.run(s, depth - 1, stop):
            back = o.done == 'stop' and o.fr.b == head
            isnil = e.decide(o, zbool(v.null))
            self.c.ensures(e, o, isnil is (not back), 'the loop ends exactly at the end of the list', fr.fn.name)
            for ob, x in st.heap.items():
                if ob != b and not V.same(o.heap.get(ob), x):
                    raise Unsupported('a loop that writes more than its output')
            us = units(o.heap[b].rope)
            if us[:1] != [('F', 'sofar', ())]:
                raise Unsupported('the output is not extended')
            if back:
                e.phis(o, o.fr, blk)
                w = e.objval(o, v.obj).f[nx]
                got = e.res(o, o.fr.regs[n])
                self.c.ensures(e, o, isinstance(got, Ptr) and (got.obj, got.path) == (w.obj, w.path), 'the loop goes on with the next of the list', fr.fn.name)
                if tuple(us[1:]) not in forms:
                    forms.append(tuple(us[1:]))
            else:
                self.c.ensures(e, o, len(us) == 1, 'nothing is written after the list', fr.fn.name)
                leave.append(o)
        if len(leave) != 1 or p0.null is True:
            raise Unsupported('%d ways out of a loop over a list' % len(leave))
        o = leave[0]
        o.done = None
        o.fr.regs[n] = NIL
        o.heap[b] = BufV(rcat(st.heap[b].rope, rapp('each', p0.obj, name, tuple(forms))))
        o.pc = list(st.pc)
        return [o]


class Written(Lists):
    def __init__(self, c):
        Lists.__init__(self, c)
        self.el, self.lines, self.comma, self.slot = {}, {}, None, None
        self.pstate = {}

    def contract(self, what, nilok=True):
        """Append of an element: writes the list that starts there."""
        def h(e, st, a, ins):
            p = e.res(st, a[0])
            if p.path != ():
                raise Unsupported('a list inside an object')
            d = e.decide(st, zbool(p.null))
            if d is None:
                raise Fork(zbool(p.null))
            if d and not nilok:
                raise Unsupported('nil is written')
            if not d:
                b = one_buffer(st)
                st.heap[b] = BufV(rcat(st.heap[b].rope, rapp('list', what, p.obj)))
            return None
        return h

    def contracts(self):
        return {'(*sip.%s).Append' % t: self.contract(t, t != 'Via') for t in ('Addr', 'Via', 'Param', 'XHeader', 'URI')}

    def element(self, t):
        """The forms an element is written in: [(pieces, state)]"""
        c = self.c
        fn = '(*sip.%s).Append' % t
        f = c.fn(fn)
        self.el[t] = res = {}
        for v6 in ((False, True) if t == 'Via' else (False,)):
            fs = finders(v6)
            e = c.engine(fn, self.contracts(), fs if t == 'Via' else None)
            Forms(c, e)
            if t != 'Via' and not v6:
                st = c.state(e)
                st.heap['out^'] = BufV(EMPTY)
                for o in c.call(e, fn, [NIL, Ptr('out^')], st):
                    c.ensures(e, o, o.heap['out^'].rope == EMPTY, 'nothing is written for no elements', fn)
            for n, m in self.domain.items():
                e.atommask[n] = m
            st = c.state(e)
            p = e.sym(f.params[0]['t'], t)
            st.pc.append(z3.Not(zbool(p.null)))
            for n in ('Param.Name', 'XHeader.Name', 'Via.Protocol', 'Via.Version', 'Via.Transport', 'Via.Host'):
                if n.split('.')[0] == t:
                    st.pc.append(zbool(lcmp('>=', atom_len(n), 1)))
            if t == 'Addr':
                u = [x for x, y in zip(e.objval(st, p.obj).f, c.prog.u(c.prog.u(f.params[0]['t'])['e'])['fields']) if y['name'] == 'Uri'][0]
                st.pc.append(z3.Not(zbool(u.null)))
            st.heap['out^'] = BufV(EMPTY)
            old = {k: v for k, v in st.heap.items() if k != 'out^'}
            e.pc0 = list(st.pc)
            for o in c.call(e, fn, [p, Ptr('out^')], st):
                us = tuple(units(o.heap['out^'].rope))
                c.ensures(e, o, all(V.same(o.heap.get(k), v) for k, v in old.items()), 'only the output is written', fn)
                res.setdefault((v6, us), []).append((e, o))

    # ---------------------------------------------------------------------------------------- elements
    def gap(self, at, blank):
        return [self.comma] if at == 'after,' and self.comma else []

    def fails(self, what, fn):
        self.c.ensures(self.e, self.c.state(self.e), False, what, fn)

    def text(self, us, o, field, name):
        """A text field as written -> (what it is read with, in quotes)"""
        lit, rest = head(us)
        if len(rest) == 1 and not lit and rest[0] == ('A', field, 0, atom_len(field)):
            return rest[0], o.ghost.get(('all', field))
        quoted = lit == b'"' and len(rest) == 2 and rest[1] == ('L', b'"')
        if (quoted or not lit and len(rest) == 1) and rest[0][0] == 'F' and rest[0][1] == 'esc' and rest[0][2][0] == field:
            var = rest[0][2][1]
            m = self.domain.get(field, V.ALL)
            ok = all(us for m, us in var) and m == union(var)
            self.c.ensures(self.e, self.c.state(self.e), ok, 'every character of %s is written' % field, MSG)
            r = [esc_run(self.rd, field, var, name)]
            return ([b'"'] + r + [b'"'] if quoted else r), 'esc'
        raise Unsupported('%s is written as %r' % (field, us))

    domain = {'Param.Name': TOKEN, 'Param.Value': ASCII, 'Addr.Display': ASCII, 'XHeader.Name': TOKEN}

    def absent(self, e, o, what, cond):
        """Something is left out exactly when it is not set."""
        self.c.ensures(e, o, e.decide(o, cond) is True, what + ' is left out only if there is none', MSG)

    def read_addrs(self):
        c, e = self.c, self.e
        A = self.kinds('addr')[0]
        forms = {}
        for (_, us), os in self.el['Addr'].items():
            us = list(us)
            k = [i for i, u in enumerate(us) if u[0] == 'F' and u[1] == 'list' and u[2] == ('URI', 'Addr.Uri^')]
            if len(k) != 1 or us[k[0] - 1:k[0]] != [('L', b'<')] or us[k[0] + 1:k[0] + 2] != [('L', b'>')]:
                raise Unsupported('an address is written as %r' % us)
            disp, rest = us[:k[0] - 1], us[k[0] + 2:]
            for we, o in os:
                par = rest[:1] == [('F', 'list', ('Param', 'Addr.Param^'))]
                if not par:
                    self.absent(we, o, 'the parameters of an address', z3.Bool('Addr.Param==nil'))
                sep = rest[1:] if par else rest
                if not sep:
                    self.absent(we, o, 'the next address', z3.Bool('Addr.Next==nil'))
                elif sep[-1] != ('F', 'list', ('Addr', 'Addr.Next^')):
                    raise Unsupported('after an address %r is written' % sep)
                else:
                    lit, r = head(sep[:-1])
                    if r or lit[:1] != b',' or lit[1:].strip(b' \t') or self.comma not in (None, lit[1:]):
                        raise Unsupported('between addresses %r is written' % lit)
                    self.comma = lit[1:]
                if not disp:
                    self.absent(we, o, 'the display name', zbool(lcmp('==', atom_len('Addr.Display'), 0)))
                    forms['an address'] = ([], EMPTY)
                else:
                    c.ensures(we, o, we.decide(o, lcmp('>=', atom_len('Addr.Display'), 1)) is True, 'a display name is written only if there is one', '(*sip.Addr).Append')
                    lit = b''
                    while disp[-1][0] == 'L' and disp[-1][1] in b' \t':
                        lit = disp[-1][1] + lit
                        disp = disp[:-1]
                    t, f = self.text(disp, o, 'Addr.Display', 'display')
                    if f == 'esc':
                        forms['an address with a quoted display name'] = (t + [lit], ratom('display'))
                    else:
                        blank = TOKEN | 1 << 32
                        ok = bool(f) and not f[0] & ~TOKEN and not f[2] & ~TOKEN and not f[1] & ~blank and bool(lit)
                        c.ensures(we, o, ok, 'a display name without quotes is words with blanks between', '(*sip.Addr).Append')
                        forms['an address with a display name'] = (self.words() + [lit], ratom('display'))
        c.ensures(e, c.state(e), self.comma is not None and 'an address' in forms and len(forms) >= 2, 'all parts of an address are written', '(*sip.Addr).Append')
        for what, (t, d) in forms.items():
            self.ends('addr', self.rd.reads([A], t + self.angled()), what, {'Uri': Ptr("uri:{scheme}':'{uric}^"), 'Display': d})

    def read_vias(self):
        c, e, rd = self.c, self.e, self.rd
        A = self.kinds('via')[0]
        forms = {}
        port = z3.BitVec('Via.Port', 16)
        for (v6, us), os in self.el['Via'].items():
            us = list(us)
            for we, o in os:
                if us[-1] == ('F', 'list', ('Param', 'Via.Param^')):
                    t = us[:-1]
                else:
                    t = us
                    self.absent(we, o, 'the parameters of a Via', z3.Bool('Via.Param==nil'))
                f = []
                for u in t:
                    if u[0] == 'D':
                        p = we.conv_int(port, 'uint16', 'int64')
                        c.ensures(we, o, we.decide(o, lcmp('==', u[1], p)) is True, 'the number written is the port', '(*sip.Via).Append')
                        u = ('port',)
                    f.append(u)
                if ('port',) not in f:
                    self.absent(we, o, 'the port of a Via', port == 0)
                forms[v6, tuple(f)] = None
        n = Number('port', bits=16, any=True)
        for v6, us in forms:
            ps = []
            for u in us:
                if u[0] == 'L':
                    ps.append(u[1])
                elif u == ('port',):
                    ps.append(n)
                elif u[0] == 'A' and u[1] == 'Via.Host' and u[2] == 0 and u[3] == atom_len(u[1]):
                    ps.append(text_run(e, 'host6' if v6 else 'host', IPV6 if v6 else HOST))
                elif u[0] == 'A' and u[1] in ('Via.Protocol', 'Via.Version', 'Via.Transport') and u[2] == 0 and u[3] == atom_len(u[1]):
                    ps.append(text_run(e, u[1][4:].lower(), TOKEN))
                else:
                    raise Unsupported('a Via is written as %r' % (us,))
            f = {x: ratom(x.lower()) for x in ('Protocol', 'Version', 'Transport')}
            f['Host'] = ratom('host6' if v6 else 'host')
            if n in ps:
                f['Port'] = n.val
            what = 'a Via with a %s%s' % ('IPv6 address' if v6 else 'host name', ' and a port' if n in ps else '')
            sts = [A]
            for k, y in enumerate(ps):
                sts = rd.read(sts, y)
                if isinstance(y, bytes):
                    sts = rd.uniq([self.shed(s) for s in sts])
            self.ends('via', sts, what, f)
        c.ensures(e, c.state(e), len(forms) >= 4, 'Vias are written with and without port', '(*sip.Via).Append')

    def read_params(self, kind):
        c, e, rd = self.c, self.e, self.rd
        P = self.pstate[kind]
        gen = {n: ratom('elem.' + n) for n in self.names(kind)}
        gen.update({'Uri': Ptr('elem.Uri^'), 'Port': z3.BitVec('elem.Port', 16), 'Next': NIL})
        forms = {}
        for (_, us), os in self.el['Param'].items():
            us = list(us)
            for we, o in os:
                t = us
                if t[0] == ('F', 'list', ('Param', 'Param.Next^')):
                    t = t[1:]
                else:
                    self.absent(we, o, 'the parameters before', z3.Bool('Param.Next==nil'))
                if t[0] != ('L', b';') or ('F', 'list') in [u[:2] for u in t]:
                    raise Unsupported('a parameter is written as %r' % us)
                t = t[1:]
                if ('L', b'=') in t:
                    k = t.index(('L', b'='))
                    name, val = t[:k], t[k + 1:]
                    v, f = self.text(val, o, 'Param.Value', 'pvalue')
                    c.ensures(we, o, we.decide(o, lcmp('>=', atom_len('Param.Value'), 1)) is True, 'a value is written only if there is one', '(*sip.Param).Append')
                    if f != 'esc':
                        m = f[0] | f[1] | f[2] if f else V.ALL
                        v = [text_run(e, 'pvalue', m)]
                    key = 'a parameter with a %s value' % ('quoted' if f == 'esc' else 'plain')
                    val = [b'='] + v, ratom('pvalue')
                else:
                    name, key, val = t, 'a parameter without a value', ([], EMPTY)
                    self.absent(we, o, 'the value of a parameter', zbool(lcmp('==', atom_len('Param.Value'), 0)))
                n, f = self.text(name, o, 'Param.Name', 'pname')
                if f != 'esc':
                    n = [text_run(e, 'pname', TOKEN)]
                forms[key] = (n + val[0], val[1])
        c.ensures(e, c.state(e), len(forms) >= 2, 'all parts of a parameter are written', '(*sip.Param).Append')
        for what, (t, v) in forms.items():
            self.ends(kind, rd.reads([P], t), 'an element with ' + what, {n: gen[n] for n in self.names(kind)}, (ratom('pname'), v, Ptr('elem.Param^')))

    # ---------------------------------------------------------------------------------------- extension headers
    def extensions(self):
        Names.names(self)

    def read_xheaders(self):
        c, e, rd, h = self.c, self.e, self.rd, self.h
        exact, X_ = h.trie(self.H)
        forms = {}
        for (_, us), os in self.el['XHeader'].items():
            us = list(us)
            for we, o in os:
                t = us
                if t[0] == ('F', 'list', ('XHeader', 'XHeader.Next^')):
                    t = t[1:]
                else:
                    self.absent(we, o, 'the extension headers before', z3.Bool('XHeader.Next==nil'))
                k = [i for i, u in enumerate(t) if u[0] == 'L']
                if not k or t[-2:] != [('L', b'\r'), ('L', b'\n')]:
                    raise Unsupported('an extension header is written as %r' % us)
                n, f = self.text(t[:k[0]], o, 'XHeader.Name', 'xname')
                c.ensures(we, o, f != 'esc' or identity(t[0][2][1]), 'the name of an extension header is written as it is', '(*sip.XHeader).Append')
                lit, v = head(t[k[0]:-2])
                if v not in ([], [('A', 'XHeader.Value', 0, atom_len('XHeader.Value'))]):
                    raise Unsupported('an extension header is written as %r' % us)
                if not v:
                    self.absent(we, o, 'the text of an extension header', zbool(lcmp('==', atom_len('XHeader.Value'), 0)))
                forms[lit, bool(v)] = we.decide(o, lcmp('>=', atom_len('XHeader.Value'), 1))
        for (lit, v), d in forms.items():
            x = rd.reads([X_], [lit])
            if d is not True:
                self.xline(h.line_end(x), 'an extension header without a text is read back', EMPTY)
            if v and d is not False:
                self.xline(h.line_end(rd.reads(x, [Peek('first', VIS), h.utf8('text')])), 'an extension header is read back with its name and text before the ones read earlier', ratom('text'))
        c.ensures(e, c.state(e), bool(forms), 'extension headers are written', '(*sip.XHeader).Append')

    # ---------------------------------------------------------------------------------------- the message
    bodytext = ratom('Payload#0')

    def phrase_of(self, e, st, a, ins):
        return ratom('Phrase' if a[0] == self.F['Status'] else 'another phrase')

    def data(self, e, st, a, ins):
        return e.untuple(e.sym(ins['rt'], 'Payload'))

    def message(self, mode):
        c = self.c
        f = c.fn(MSG)
        e = c.engine(MSG, self.contracts(), {'iface.ContentType': lambda e, st, a, ins: ratom('Payload.type'), 'iface.Data': self.data, 'sip.Phrase': self.phrase_of})
        Forms(c, e)
        st = c.state(e)
        p = e.sym(f.params[0]['t'], 'Msg')
        ty = c.prog.u(c.prog.u(f.params[0]['t'])['e'])['fields']
        fields = [x['name'] for x in ty]
        m = e.objval(st, p.obj)
        F = dict(zip(fields, m.f))
        st.pc += [z3.Not(zbool(F[n].null)) for n in ('From', 'To')] + [z3.Not(zbool(p.null))]
        st.pc += [zbool(lcmp('>=', F[n], 0)) for n in ('CSeq', 'MaxForwards', 'Expires', 'MinExpires')]
        st.pc += [zbool(lcmp('>=', atom_len('Msg.' + n), 1)) for n in ('CallID', 'CSeqMethod')]
        if mode == MODES[0]:
            st.pc += [zbool(lcmp('==', F['Status'], 0)), zbool(lcmp('==', atom_len('Msg.Phrase'), 0))]
        else:
            st.pc += [zbool(lcmp('>=', F['Status'], 100)), zbool(lcmp('<=', F['Status'], 999)), zbool(F['Request'].null), zbool(lcmp('==', F['MaxForwards'], 0)), zbool(lcmp('==', atom_len('Msg.Method'), 0))]
            st.pc.append(zbool(lcmp('>=' if mode == MODES[1] else '==', atom_len('Msg.Phrase'), 1 if mode == MODES[1] else 0)))
        st.heap['out^'] = BufV(EMPTY)
        self.F, self.mode, self.we = F, mode, e
        st.ghost['keep', 'msg'] = p.obj
        edges = self.graph(e, st, f, [p, Ptr('out^')])
        self.paths(edges, fields)

    def unset(self, o, n):
        """Whether a field of the message is known to be blank."""
        v = self.F[n]
        if isinstance(v, Rope):
            cnd = lcmp('==', rlen(v), 0)
        elif isinstance(v, (Ptr, SymIface)):
            cnd = v.null
        else:
            cnd = lcmp('==', self.we.as_lin(v), 0)
        return self.we.decide(o, zbool(cnd)) is True

    def paths(self, edges, fields):
        """On every path every field is written once or known to be blank."""
        c, e = self.c, self.we
        todo = set(fields) - {'SourceAddr'}
        order, out = [], {}
        for x in edges:
            out.setdefault(x[0], []).append(x)
        state = {0: set()}
        work = [0]
        memo = {}
        while work:
            n = work.pop(0)
            for o, d, us, s in out.get(n, []):
                done = set(state[n])
                k = (n, tuple(us), tuple(map(str, s.pc)))
                if k not in memo:
                    memo[k] = self.step(us, s, n == 0, d == 'end')
                for f in memo[k]:
                    c.ensures(e, s, f not in done, '%s is written once' % f, MSG)
                    done.add(f)
                done |= {f for f in todo - done if self.unset(s, f)}
                if d == 'end':
                    for f in sorted(todo):
                        c.ensures(e, s, f in done, '%s is written, or blank' % f, MSG)
                    continue
                if d in state:
                    if not state[d] <= done:
                        for f in sorted(state[d] - done):
                            c.ensures(e, s, False, '%s is written, or blank' % f, MSG)
                    for f in sorted(done - state[d]):
                        # written or blank here, but not on the other way to this point
                        c.ensures(e, s, False, '%s is written, or blank' % f, MSG)
                else:
                    state[d] = done
                    work.append(d)

    def step(self, us, s, first, last):
        """The lines written between two cuts -> the fields they set."""
        done = []
        cur, ls, i = [], [], 0
        while i < len(us):
            u = us[i]
            if u == ('L', b'\r') and us[i + 1:i + 2] == [('L', b'\n')]:
                i += 2
                if not cur and last and not (ls and ls[-1][0] == 'F'):
                    return done + self.finish(ls, us[i:], s, first)
                ls.append(tuple(cur))
                cur = []
                continue
            if not cur and u[0] == 'F' and (u[1] == 'each' or u[1] == 'list' and u[2][0] == 'XHeader'):
                ls.append(u)
            else:
                cur.append(u)
            i += 1
        self.c.ensures(self.we, s, not cur and not last, 'whole lines are written, and at the end the body', MSG)
        return done + self.all_lines(ls, s, first)

    def all_lines(self, ls, s, first):
        done = []
        for i, l in enumerate(ls):
            done += self.start_line(l, s) if first and i == 0 else self.line_of(l, s)
        return done

    def finish(self, ls, rest, s, first):
        """The last lines, the empty line and the body."""
        c, e = self.c, self.we
        done = self.all_lines(ls, s, first)
        ct, cl = [x for x in done if x == 'type'], [x for x in done if isinstance(x, tuple)]
        done = [x for x in done if x not in ct and x not in cl]
        c.ensures(e, s, len(cl) == 1, 'the length of the body is written', MSG)
        if not rest:
            c.ensures(e, s, self.unset(s, 'Payload'), 'no body is written only if there is none', MSG)
            c.ensures(e, s, cl == [('length', 0)], 'the length written is the length of the body', MSG)
        else:
            body = mkrope(rest)
            L = rlen(body)
            c.ensures(e, s, body == self.bodytext, 'the body is written as it is', MSG)
            c.ensures(e, s, bool(cl) and (cl[0][1] == L or e.decide(s, lcmp('==', cl[0][1], L)) is True), 'the length written is the length of the body', MSG)
            c.ensures(e, s, ct == ['type'], 'the type of the body is written', MSG)
            done.append('Payload')
        return done

    # -- one line
    def read_line(self, l, what):
        """Reads the literal beginning of a line from the state before it."""
        lit, rest = head(l)
        return lit, rest, self.rd.reads([self.H], [lit])

    def line_of(self, l, s):
        """-> the fields that are set by the line"""
        c, e, h, rd = self.c, self.e, self.h, self.rd
        key = l
        if l[0] == 'F':
            if l[1] == 'list':
                c.ensures(self.we, s, l[2] == ('XHeader', 'Msg.XHeader^'), 'the extension headers of the message are written', MSG)
                return ['XHeader']
            obj, item, forms = l[2]
            c.ensures(self.we, s, obj == 'Msg.Via^', 'the Vias are written from the first', MSG)
            for f in forms:
                f = list(f)
                if f[-2:] != [('L', b'\r'), ('L', b'\n')] or f[-3] != ('F', 'list', ('Via', item + '^')):
                    raise Unsupported('a line of the list is %r' % f)
                lit, rest = head(f[:-3])
                if rest:
                    raise Unsupported('a line of the list is %r' % f)
                if ('via', lit) not in self.lines:
                    V, = self.via.values()
                    gs = rd.reads([self.H], [lit, Peek('first', TOKEN)])
                    self.lines['via', lit] = bool(gs) and {g.ck for g in gs} == {V.ck}
                c.ensures(self.we, s, self.lines['via', lit], '%s is the name of a Via line' % show_(lit), MSG)
            c.ensures(self.we, s, len(forms) >= 1, 'every Via is written', MSG)
            return ['Via']
        lit, rest = head(l)
        k = [u[0] for u in rest]
        if k == ['A'] and rest[0][2] == 0 and rest[0][3] == atom_len(rest[0][1]):
            return self.text_line(lit, rest[0][1], s)
        if k == ['D']:
            return self.number_line(lit, rest[0][1], s)
        if k == ['F'] and rest[0][1] == 'list' and rest[0][2][0] == 'Addr':
            return self.addr_line(lit, rest[0][2][1], s)
        if len(rest) == 3 and k == ['D', 'L', 'A'] or len(rest) > 3 and k[0] == 'D' and k[-1] == 'A' and set(k[1:-1]) == {'L'}:
            mid, _ = head(rest[1:-1])
            f = self.field_of(rest[0][1], s)
            ok = f == 'CSeq' and rest[-1] == ('A', 'Msg.CSeqMethod', 0, atom_len('Msg.CSeqMethod'))
            if ok and ('cseq', lit, mid) not in self.lines:
                v = Number('n', any=True)
                x = rd.reads([self.fresh('CSeq')], [lit, v, mid, text_run(e, 'method', TOKEN)])
                self.line(h.line_end(x), '%s is read as the number and the method' % show_(lit), {'CSeq': v.val, 'CSeqMethod': ratom('method')})
                self.lines['cseq', lit, mid] = True
            c.ensures(self.we, s, ok, 'number and method are written together', MSG)
            return ['CSeq', 'CSeqMethod']
        if not rest:
            return self.const_line(lit, s)
        raise Unsupported('a line %r' % (l,))

    def text_line(self, lit, a, s):
        c, e, h, rd = self.c, self.e, self.h, self.rd
        if a == 'Payload.type':
            if ('type', lit) not in self.lines:
                x = rd.reads([self.H], [lit, Peek('first', TOKEN), text_run(e, 'major', TOKEN), b'/', text_run(e, 'minor', TOKEN)])
                r = mkrope([ratom('major')[0], ('L', b'/'), ratom('minor')[0]])
                self.line(h.line_end(x), '%s is read as the type of the body' % show_(lit), regs={self.ctype: r})
                self.lines['type', lit] = True
            return ['type']
        f = a[4:]
        if a[:4] != 'Msg.' or f not in h.fields:
            raise Unsupported('the text %s in a line' % a)
        if f == 'CallID':
            if ('id', lit) not in self.lines:
                t = text_run(e, 'id', WORD)
                self.line(h.line_end(rd.reads([self.H], [lit, t])), '%s is read as the Call-ID' % show_(lit), {'CallID': ratom('id')})
                n = rd.reads([self.H], [lit, t, b'@', text_run(e, 'host', WORD)])
                self.line(h.line_end(n), '%s is read as the Call-ID with an at sign' % show_(lit), {'CallID': mkrope([ratom('id')[0], ('L', b'@'), ratom('host')[0]])})
                self.lines['id', lit] = True
            return [f]
        c.ensures(self.we, s, self.we.decide(s, lcmp('>=', atom_len(a), 1)) is True, '%s is written only if it is set' % f, MSG)
        if (f, lit) not in self.lines:
            i = h.fields.index(f)
            gs = {}
            for x in rd.reads([self.H], [lit, Peek('first', VIS)]):
                g = h.renamed(x, {('msg^', (i,)): ('slot^', ())})
                g.heap['slot^'] = ratom('slot.old')
                rd.canon(g)
                gs[g.ck] = g
            if self.slot is None and len(gs) == 1:
                x, = gs.values()
                p = [k for k, v in x.frames[0].regs.items() if v == Ptr('slot^')]
                if p:
                    self.slot = x
                    self.line(h.line_end(rd.reads([x], [h.utf8('text')])), 'a text is put where it belongs, and nothing else is changed',
                              objs=lambda s, o: set(o) == {'slot^'} and o['slot^'] == ratom('text'))
            self.lines[f, lit] = self.slot is not None and set(gs) == {self.slot.ck}
        c.ensures(self.we, s, self.lines[f, lit], '%s is read as %s' % (show_(lit), f), MSG)
        return [f]

    def addr_line(self, lit, obj, s):
        c, e, h, rd = self.c, self.e, self.h, self.rd
        f = obj[4:-1]
        if obj[:4] != 'Msg.' or f not in h.fields:
            raise Unsupported('the addresses %s in a line' % obj)
        if (f, lit) not in self.lines:
            A, = self.addr.values()
            gs = set()
            for x in rd.reads([self.H], [lit, Peek('first', VIS)]):
                g = h.renamed(h.forget(x), {('end:%s^' % f, ()): ('end^', ())})
                ok = g.heap.pop('end:%s^' % f, 0) != 0 and V.same(g.heap['msg^'], self.H.heap['msg^'])
                g.heap['end^'] = NIL
                rd.canon(g)
                gs.add(g.ck if ok else None)
            self.lines[f, lit] = gs == {A.ck}
        c.ensures(self.we, s, self.lines[f, lit], '%s is read as the addresses of %s' % (show_(lit), f), MSG)
        return [f]

    def field_of(self, v, s):
        """The field whose number it is."""
        for n, x in self.F.items():
            if isinstance(x, (Lin, int)) and not isinstance(x, bool) and x == v:
                return n
        for n, x in self.F.items():
            if isinstance(x, (Lin, int)) and not isinstance(x, bool) and n != 'Status' and self.we.decide(s, lcmp('==', x, v)) is True:
                return n

    def number_line(self, lit, v, s):
        c, e, h, rd = self.c, self.e, self.h, self.rd
        f = self.field_of(v, s)
        num = Number('n', any=True)
        if f is None:
            if ('length', lit) not in self.lines:
                self.line(h.line_end(rd.reads([self.H], [lit, num])), '%s is read as the length of the body' % show_(lit), regs={self.clen: num.val})
                self.lines['length', lit] = True
            return [('length', v)]
        if (f, lit) not in self.lines:
            self.line(h.line_end(rd.reads([self.H], [lit, num])), '%s is read as %s' % (show_(lit), f), {f: num.val})
            self.lines[f, lit] = True
        return [f]

    def const_line(self, lit, s):
        """A line that is always the same: a length of 0, or the default number of hops."""
        c, e, h, rd = self.c, self.e, self.h, self.rd
        if ('const', lit) not in self.lines:
            res = set()
            for x in h.line_end(rd.reads([self.H], [lit])):
                d = h.changes(x, self.H)
                keep = {self.clen, self.ctype} | {k for k, v in self.H.frames[0].regs.items() if isinstance(v, Ptr)}
                r = {k: v for k, v in d[1].items() if k in keep} if d else {}
                if d and not d[2] and len(d[0]) + len(r) == 1:
                    (k, v), = list(d[0].items()) + [('length' if q == self.clen else None, w) for q, w in r.items()]
                    res.add((k, v) if isinstance(v, int) else None)
                else:
                    res.add(None)
            self.lines['const', lit] = res
        res = self.lines['const', lit]
        if res == {('length', 0)}:
            return [('length', 0)]
        ok = res == {('MaxForwards', 70)} and self.unset(s, 'MaxForwards')
        c.ensures(self.we, s, ok, '%s is written only as the default of a blank field' % show_(lit), MSG)
        return ['MaxForwards']

    # -- the start line
    def start_line(self, l, s):
        c, e, h, rd = self.c, self.e, self.h, self.rd
        ps, want, cur = [], {}, b''
        status = [byte('status%d' % i, mask_bytes(DIG if i else DIG[1:]), e) for i in range(3)]
        maj, mnr = Number('major', bits=8, any=True), Number('minor', bits=8, any=True)
        for u in l:
            if u[0] == 'A' and u[1] == 'Msg.Method':
                c.ensures(self.we, s, not self.unset(s, 'Method'), 'the method is written if there is one', MSG)
                ps.append(text_run(e, 'method', TOKEN))
                want['Method'] = ratom('method')
            elif u == ('F', 'list', ('URI', 'Msg.Request^')):
                ps += self.uri()
                want['Request'] = Ptr("uri:{scheme}':'{uric}^")
            elif u[0] == 'D' and u[1] == self.F['Status']:
                ps += status
                want['Status'] = linsum([status[i].mapped(lambda b: b - 48).lin() for i in range(3)])
            elif u[0] == 'D' and isinstance(u[1], (Lin, int)):
                n = [x for x in ('VersionMajor', 'VersionMinor') if self.we.as_lin(self.F[x]) == u[1]]
                if len(n) != 1:
                    raise Unsupported('the number %r in the start line' % (u[1],))
                ps.append(maj if n[0] == 'VersionMajor' else mnr)
                want[n[0]] = ps[-1].val
            elif u[0] == 'A' and u[1] in ('Msg.Phrase', 'Phrase'):
                ps.append(Run('phrase', self.phrase()))
                want['Phrase'] = ratom('phrase')
                c.ensures(self.we, s, u[1] == ('Phrase' if self.mode == MODES[2] else 'Msg.Phrase'), 'the phrase is the one given, or else the standard one', MSG)
            elif u[0] == 'L':
                if ps and isinstance(ps[-1], bytes):
                    ps[-1] += u[1]
                else:
                    ps.append(u[1])
            else:
                raise Unsupported('%r in the start line' % (u,))
        text = tuple(u if u[0] != 'D' else ('D', repr(u[1])) for u in l)
        # defaults
        if 'Method' not in want and self.mode == MODES[0]:
            c.ensures(self.we, s, self.unset(s, 'Method'), 'the default method is written only if there is none', MSG)
            want['Method'] = rlit(b'INVITE')
        if 'VersionMajor' not in want:
            c.ensures(self.we, s, self.unset(s, 'VersionMajor'), 'the default version is written only if there is none', MSG)
            want.update({'VersionMajor': 2, 'VersionMinor': 0})
        if 'Request' not in want and self.mode == MODES[0]:
            c.ensures(self.we, s, self.unset(s, 'Request'), 'a default URI is written only if there is none', MSG)
            want['Request'] = None
        if ('start', text) not in self.lines:
            rd.fromstart = True
            try:
                sts = rd.reads(h.init, ps[:2])
            finally:
                rd.fromstart = False
            sts = rd.reads(sts, ps[2:] + [b'\r\n', Peek('next', NWSP)])
            self.lines['start', text] = [self.started(x, want) for x in sts]
        r = self.lines['start', text]
        c.ensures(self.we, s, bool(r) and all(x == '' for x in r), 'the start line %s is read back%s' % (''.join(show_(u[1]) if u[0] == 'L' else '{%s}' % (u[1] if u[0] == 'A' else u[2][1] if u[0] == 'F' else u[1]) for u in text),
                  ': ' + r[0] if r and r[0] else ''), MSG)
        return ['Method', 'Request', 'VersionMajor', 'VersionMinor'] if self.mode == MODES[0] else ['Status', 'Phrase', 'VersionMajor', 'VersionMinor']

    def standard(self):
        """Every standard phrase is one that can be read."""
        c, fn = self.c, 'sip.Phrase'
        e = c.engine(fn)
        legal = PHRASE

        def ok(r):
            return all(ok(x[2]) and ok(x[3]) if x[0] == 'I' else x[0] == 'L' and all(legal >> b & 1 for b in x[1]) for x in r)
        for o in c.call(e, fn, [atom('status', 100, 999)]):
            c.ensures(e, o, isinstance(o.result, Rope) and ok(o.result), 'every standard phrase consists of legal characters', fn)

    def phrase(self):
        e = self.e
        vs = [raw('phrase~', PHRASE, e)]
        for n, (lo, hi) in enumerate(((0xc0, 0xdf), (0xe0, 0xef), (0xf0, 0xf7), (0xf8, 0xfb), (0xfc, 0xfd))):
            x = [byte('phrase~u%d' % n, mask_bytes(bytes(range(lo, hi + 1))), e)]
            x += [byte('phrase~u%d.%d' % (n, k), mask_bytes(bytes(range(0x80, 0xc0))), e) for k in range(n + 1)]
            vs.append((x, x))
        return vs

    def started(self, x, want):
        """What is wrong with the state after the start line."""
        h, e = self.h, self.e
        ms = [v for k, v in x.heap.items() if isinstance(v, StructV) and len(v.f) == len(h.fields)]
        if len(ms) != 1:
            return '%d messages' % len(ms)
        for n, v in zip(h.fields, ms[0].f):
            if n not in want:
                ok = v == NIL or v == EMPTY or v == X.NILIFACE or isinstance(v, (int, Lin)) and v == 0
                ok = ok or isinstance(v, Ptr) and v.null is True
            elif want[n] is None:
                ok = isinstance(v, Ptr) and v.null is False
            else:
                w = want[n]
                ok = V.same(v, w) or z3.is_expr(v) and not z3.is_expr(w) and isinstance(w, int) and e.decide(x, v == w) is True
                if not ok and n.startswith('Version') and not isinstance(v, int):
                    ok = z3.is_expr(v) and z3.is_expr(w) and e.decide(x, v == w) is True
            if not ok:
                return '%s is %r' % (n, v)
        if h.general(x).ck != self.H.ck:
            return 'the header does not begin'
        return ''

    # -- the body
    def body(self):
        c, e = self.c, self.e
        n = atom('reg:' + self.clen)
        R = atom_len(REST)
        got = set()
        for o in self.outcomes:
            r, o = o.result, o.clone()
            o.pc += [zbool(lcmp('==', n, R))]
            none = e.decide(o, lcmp('<=', n, 0))
            if e.decide(o, lcmp('==', n, R)) is False:
                continue
            got.add(self.outcome(o, r, none))
        c.ensures(e, c.state(e), got == {'none', 'sdp', 'misc', 'bad sdp'}, 'a message without a body, with a session description and with any other body can be read', FN)

    def outcome(self, o, r, none):
        c, e, h = self.c, self.e, self.h
        m = dict(zip(h.fields, o.heap['msg^'].f))
        old = dict(zip(h.fields, self.H.heap['msg^'].f))
        same = all(V.same(m[k], old[k]) for k in m if k != 'Payload')
        c.ensures(e, o, same, 'the body changes nothing but the body', FN)
        whole = lambda v: isinstance(v, (SliceV, Rope)) and (e.slice_rope(o, v) if isinstance(v, SliceV) else v) == ratom(REST)
        bad = e.res(o, r[0]) == NIL
        sdp = o.ghost.get(('keep', 'sdp'))
        if none:
            c.ensures(e, o, e.res(o, r[0]) == Ptr('msg^') and r[1] == X.NILIFACE and V.same(m['Payload'], old['Payload']), 'without a body there is none', FN)
            return 'none'
        if bad:
            d = e.decide(o, z3.Bool('the body is a session description'))
            c.ensures(e, o, d is False, 'a message with a body is refused only for a bad session description', FN)
            return 'bad sdp'
        c.ensures(e, o, e.res(o, r[0]) == Ptr('msg^') and r[1] == X.NILIFACE, 'a message with a body is read', FN)
        p = m['Payload']
        if isinstance(p, Iface) and isinstance(p.v, Ptr) and p.v == Ptr('sdp^'):
            c.ensures(e, o, whole(sdp), 'the session description is read from the whole body', FN)
            return 'sdp'
        x = o.heap.get(p.v.obj) if isinstance(p, Iface) and isinstance(p.v, Ptr) else None
        ok = isinstance(x, StructV) and len(x.f) == 2 and x.f[0] == ratom('reg:' + self.ctype) and whole(x.f[1])
        c.ensures(e, o, ok, 'the body is kept with its type, whole', FN)
        return 'misc'

    def graph(self, e, st, f, args):
        c = self.c
        base = list(st.pc)
        e.start(st, f, args)
        st.frames[-1].prev = None
        rpo = {}

        def order(fn):
            if fn.name not in rpo:
                seen, post = set(), []

                def dfs(b):
                    work = [(b, iter(fn.blocks[b]['succs']))]
                    seen.add(b)
                    while work:
                        x, it = work[-1]
                        for y in it:
                            if y not in seen:
                                seen.add(y)
                                work.append((y, iter(fn.blocks[y]['succs'])))
                                break
                        else:
                            post.append(x)
                            work.pop()
                dfs(0)
                rpo[fn.name] = {b: len(post) - i for i, b in enumerate(post)}
            return rpo[fn.name]

        def where(s):
            return tuple((order(x.fn)[x.b], x.fn.name, x.b, x.i) for x in s.frames)

        def stop(x):
            fr = x.frames[-1]
            back = x.ghost.pop('back', None)
            if x.ghost.pop('go', None):
                return False
            return back or fr.i == 0 and len(fr.fn.blocks[fr.b]['preds']) >= 2
        e.stopret = stop
        edges, nodes, waiting = [], {}, {}
        work = [(0, st)]
        end = []
        text = lambda s: units(s.heap['out^'].rope)[1:]
        st.heap['out^'] = BufV(rapp('sofar'))
        n = 0
        while work or waiting:
            if not work:
                k = min(waiting)
                arr = waiting.pop(k)
                ts = [text(s) for o, s in arr]
                cut = [ends_line(t) for t in ts]
                if any(cut) and all(x or not t for x, t in zip(cut, ts)):
                    for o, s in arr:
                        fr = s.frames[-1]
                        if fr.i == 0:
                            e.phis(s, fr, fr.fn.blocks[fr.b])
                            fr.i = fr.fn.blocks[fr.b]['nphi']
                        key = (k, tuple(live(x) for x in s.frames), tuple(sorted((a, repr(v)) for a, v in s.heap.items() if a != 'out^' and a not in e.base)))
                        t = text(s)
                        if key not in nodes:
                            nodes[key] = len(nodes) + 1
                            g = s.clone()
                            g.pc = list(base)
                            g.bm = {}
                            g.heap['out^'] = BufV(rapp('sofar'))
                            g.ghost['go'] = True
                            work.append((nodes[key], g))
                        edges.append((o, nodes[key], t, s))
                else:
                    for o, s in arr:
                        s.ghost['go'] = True
                        work.append((o, s))
                continue
            o, s = work.pop()
            for x in e.run(s, 0, stop):
                if x.done == 'stop':
                    x.done = None
                    waiting.setdefault(where(x), []).append((o, x))
                else:
                    edges.append((o, 'end', text(x), x))
        e.stopret = None
        return edges


def ends_line(us):
    return bool(us) and us[-1][0] == 'L' and us[-1][1] == b'\n' or us[-1:] == [('L', b'\r\n')] or bool(us) and us[-1][0] == 'F' and us[-1][1] in ('each',) or us[-1:] and us[-1][0] == 'F' and us[-1][2][:1] == ('XHeader',)


def live(fr):
    """The registers that may still be used."""
    fn = fr.fn
    seen, work, used = set(), list(fn.blocks[fr.b]['succs']), set()
    for j, ins in enumerate(fn.blocks[fr.b]['instrs']):
        if j >= fr.i:
            used |= set(regs_of(ins))
    prev = {fr.b}
    while work:
        b = work.pop()
        if b in seen:
            continue
        seen.add(b)
        used |= set(regs_of(fn.blocks[b]['instrs']))
        work += fn.blocks[b]['succs']
    return tuple(sorted((k, repr(v)) for k, v in fr.regs.items() if k in used))


def head(us):
    """-> (the literal bytes at the beginning, the rest)"""
    lit, us = b'', list(us)
    while us and us[0][0] == 'L':
        lit += us.pop(0)[1]
    return lit, us


def union(var):
    m = 0
    for x, us in var:
        m |= x
    return m


def identity(var):
    return all(len(us) == 1 and us[0][0] == 'B' and all(us[0][1].tab[b] == b for b in range(256) if m >> b & 1) for m, us in var)


def linsum(ds):
    return ladd(ladd(lmulc(ds[0], 100), lmulc(ds[1], 10)), ds[2])


def show_(lit):
    return lit.decode('latin1').strip()
