"""C06: Via and address lists keep wire order.

As in C05 the message parser runs on a line of which only the kind is known.  An address header leads, whatever its name, to
one state A in which the cell that ends its list is known (`lastAddr` is under contract, C05); a Via header to one state in
which the parser's own cell is the end of the Via list (an invariant of the state before a line: it holds at the start, every
other header leaves the register alone, and a Via line moves it to the end of the element it has linked).  From A every form of
an address (bare, in angle brackets, with a quoted or an unquoted display name) leads to states where one element holds what
was read; at a line's end that element, and no other, is linked to the cell; at a comma it is linked and the parser is in A
again with the cell at the end of the element; at a semicolon it is in the state before a parameter, from where each form of
parameter leads to the same three ends with the parameter added to that element.  The same for Vias.  So by induction over
the elements of a line, and over the lines, the list holds what was read in order.  Runs of characters are read by induction
(wire.py), URIs through the contract of ParseURI (C02, C01)."""
from .hdr import *
from .c05 import Names, VIS, WORD
REPLAY = [('sip', 'TestVerifC06')]
SECS = 8
TRUSTED = {'sip.ParseURI': 'a URI that depends on the text alone, or an error (C01, C02); the text of a request line and of an address is a legal URI'}
ASSUME = ['a number in a header fits the type of its field']
SCHEMEC = mask_bytes(ALPHA + UP + DIG + b'+-.')
URIC = mask_bytes(ALPHA + UP + DIG + b";/?:@&=+$,-_.!~*'()%[]")
BARE = URIC & ~mask_bytes(b';,')
TOKENHOST = TOKEN | mask_bytes(b'[]:')
HOST = mask_bytes(ALPHA + UP + DIG + b'-.')
IPV6 = mask_bytes(DIG + b'abcdefABCDEF.:')


def verify(c):
    p = Lists(c)
    c.section('sip.ParseMsg: the state before a line', p.setup)
    if p.H is None:
        return
    c.section('sip.lastAddr', last_addr, c)
    c.section('sip.ParseMsg: the end of the header', p.roles)
    c.section('sip.ParseMsg: addresses and Vias', p.lists)
    c.section('sip.ParseMsg: an address', p.addresses)
    c.section('sip.ParseMsg: parameters of an address', p.params, 'addr')
    c.section('sip.ParseMsg: a Via', p.vias)
    c.section('sip.ParseMsg: parameters of a Via', p.params, 'via')


class Lists(Names):
    def w(self, n):
        return text_run(self.e, n, WSP)

    def lws(self, n):
        return Alt([self.w(n)], [b'\r\n', self.w(n)], [self.w(n), b'\r\n', self.w(n + '+')])

    def sws(self, n):
        return Alt([], [self.w(n)], [b'\r\n', self.w(n)], [self.w(n), b'\r\n', self.w(n + '+')])

    def uri(self):
        return [text_run(self.e, 'scheme', SCHEMEC, mask_bytes(ALPHA + UP)), b':', text_run(self.e, 'uric', URIC)]

    def bare(self):
        return [text_run(self.e, 'scheme', SCHEMEC, mask_bytes(ALPHA + UP)), b':', text_run(self.e, 'uric', BARE)]

    def angled(self):
        return [b'<'] + self.uri() + [b'>']

    def quoted(self, name):
        """The chunks of a quoted text."""
        e, h = self.e, self.h
        vs = list(h.utf8(name).rest)
        q = byte(name + '~q', mask_bytes(bytes(range(0x21, 0x80))) & ~mask_bytes(b'"\\\x7f'), e)
        vs[0] = ([q], [q])
        x = byte(name + '~e', mask_bytes(bytes(range(0, 0x80))) & ~mask_bytes(b'\r\n'), e)
        vs.append(([ord('\\'), x], [x]))
        return Run(name, vs)

    def gap(self, at, blank):
        """What may stand between an element and the end of the line, and around a comma or semicolon."""
        if at == 'line' and not blank:
            return []
        return [self.sws('w9' if at.startswith('after') else 'w8')]

    def words(self):
        """Words without quotes: token characters, with blanks and line breaks between."""
        e = self.e
        f = byte('display~', TOKEN, e)
        x = [13, 10]
        w, v = self.w('display~w'), self.w('display~v')
        vs = [[f], [w, f], x + [w, f], [w] + x + [v, f]]
        return [Run('display', [(t, t) for t in vs], [([f], [f])])]

    # ---------------------------------------------------------------------------------------- states in general
    def abstract(self, s):
        """The state with what was read before unknown: the text, the registers that hold texts and numbers."""
        s = self.h.forget(s)
        fr = s.frames[0]
        tot = rlen(s.heap['data^'].rope)
        H = self.H.frames[0].regs
        for k, v in fr.regs.items():
            if k in self.rd.P or v == tot:
                continue
            if isinstance(v, Rope):
                if v not in (H[self.clen], H[self.ctype]):
                    fr.regs[k] = ratom('reg:' + k)
            elif isinstance(v, (int, Lin)) and not isinstance(v, bool) and v != H[self.clen]:
                fr.regs[k] = atom('reg:' + k, 0, (1 << 63) - 1)
        self.rd.canon(s)
        return s

    def shed(self, s):
        """The state with the text read so far unknown, if nothing that follows depends on it (what does cannot be shown then)."""
        return self.h.forget(s)

    def names(self, kind):
        c = self.c
        t = {'addr': 'Contact', 'via': 'Via'}[kind]
        f = [x for x in c.prog.u(self.h.fnty())['fields'] if x['name'] == t][0]
        return [x['name'] for x in c.prog.u(c.prog.u(f['t'])['e'])['fields']]

    def kinds(self, kind):
        A, = (self.addr if kind == 'addr' else self.via).values()
        if kind == 'addr':
            return self.abstract(A), 'end^', VIS
        return self.abstract(A), 'via.end^', TOKEN

    def want(self, kind, fields):
        z = dict({'Param': NIL, 'Next': NIL}, **({'Display': EMPTY} if kind == 'addr' else {'Port': 0}))
        return StructV(dict(z, **fields)[n] for n in self.names(kind))

    def is_elem(self, s, o, w, param):
        x = s.heap.get(o)
        if not isinstance(x, StructV) or len(x.f) != len(w.f):
            return False
        i = self.pi
        for j, (a, b) in enumerate(zip(x.f, w.f)):
            if j == i and param is not None:
                if not (isinstance(a, Ptr) and a.null is False and a.path == () and V.same(s.heap.get(a.obj), StructV(param))):
                    return False
            elif not V.same(a, b) and not (z3.is_expr(a) and self.e.decide(s, a == b) is True):
                return False
        return True

    def ends(self, kind, sts, what, fields, param=None, blank=False):
        """An element has been read that holds these fields and in front of its parameters the new one: the three ends."""
        c, e, h, rd = self.c, self.e, self.h, self.rd
        A, cell, first = self.kinds(kind)
        self.pi = self.names(kind).index('Param')
        nxt = self.names(kind).index('Next')
        w = self.want(kind, fields)
        given = {k for k in A.heap if k[-1] == '^'} | {cell}
        c.ensures(e, c.state(e), bool(sts), what + ' can be read', FN)
        gap = lambda at: self.gap(at, blank)

        def linked(s, o):
            """-> the new element if that is what the cell holds, and there are no other new things."""
            p = o.get(cell)
            if not (isinstance(p, Ptr) and p.null is False and p.path == () and self.is_elem(s, p.obj, w, param)):
                return None
            mine = {cell, p.obj} | ({s.heap[p.obj].f[self.pi].obj} if param is not None else set())
            return p.obj if set(o) == mine | (set(o) & {'elem.Param^'}) and p.obj[-1] != '^' else None
        # the end of the line
        ok = bool(sts)
        for s in h.line_end(rd.reads(sts, gap('line'))):
            d = h.changes(s, self.H)
            if d is None:
                ok = False
                continue
            f, r, o = d
            keep = {self.clen, self.ctype} | {k for k, v in self.H.frames[0].regs.items() if isinstance(v, Ptr)}
            r = {k: v for k, v in r.items() if k in keep}
            o = {k: v for k, v in o.items() if not (k not in self.H.heap and v is None)}
            x = linked(s, o)
            ok = ok and x is not None and not f
            vr = [k for k, v in self.H.frames[0].regs.items() if v == Ptr('via.end^')]
            ok = ok and (r == {} if kind == 'addr' else r == {k: Ptr(x, (nxt,)) for k in vr} and bool(vr))
        c.ensures(e, c.state(e), ok, 'at the end of the line %s is linked to the end of the list, whole' % what, FN)
        # a comma
        ok = bool(sts)
        for s in rd.reads(sts, gap('before,') + [b','] + gap('after,') + [Peek('first', first)]):
            o = {k: v for k, v in s.heap.items() if k not in e.base and k != 'data^' and k not in rd.scratch and not (k in A.heap and V.same(A.heap[k], v) and k != cell)}
            new = [k for k, v in o.items() if kind == 'via' and self.is_elem(s, k, self.want('via', {n: EMPTY for n in self.names('via') if n not in ('Port', 'Param', 'Next')}), None)]
            x = linked(s, {k: v for k, v in o.items() if k not in new})
            if x is None or len(new) > 1:
                ok = False
                continue
            g = h.renamed(s, {(x, (nxt,)): (cell, ()), (cell, ()): ('former cell^', ())})
            g.heap[cell] = NIL
            rd.canon(g)
            g = self.abstract(g)
            ok = ok and g.ck == A.ck
        c.ensures(e, c.state(e), ok, 'at a comma %s is linked to the end of the list, whole, and the next one is read' % what, FN)
        # a semicolon
        ok, res = bool(sts), {}
        for s in rd.reads(sts, gap('before;') + [b';'] + gap('after;') + [Peek('pfirst', TOKEN)]):
            a = [k for k in s.heap if k not in e.base and self.is_elem(s, k, w, param) and k[-1] != '^']
            if len(a) != 1:
                ok = False
                continue
            s = s.clone()
            if param is not None:
                del s.heap[s.heap[a[0]].f[self.pi].obj]
            gen = {n: ratom('elem.' + n) for n in self.names(kind)}
            gen.update({'Uri': Ptr('elem.Uri^'), 'Port': z3.BitVec('elem.Port', 16), 'Param': Ptr('elem.Param^'), 'Next': NIL})
            s.heap[a[0]] = StructV(gen[n] for n in self.names(kind))
            rd.canon(s)
            s = self.abstract(s)
            res[s.ck] = s
        P = self.pstate.get(kind)
        if P is None and len(res) == 1:
            P, = res.values()
            self.pstate[kind] = P
        c.ensures(e, c.state(e), ok and P is not None and set(res) == {P.ck}, 'at a semicolon %s is kept while a parameter is read' % what, FN)

    # ---------------------------------------------------------------------------------------- addresses
    pstate = None

    def addresses(self):
        self.pstate = {}
        A = self.kinds('addr')[0]
        rd = self.rd
        u = Ptr("uri:{scheme}':'{uric}^")
        self.ends('addr', rd.reads([A], self.bare()), 'a bare address', {'Uri': u})
        self.ends('addr', rd.reads([A], self.angled()), 'an address in angle brackets', {'Uri': u}, blank=True)
        self.ends('addr', rd.reads([A], [b'""', self.sws('w1')] + self.angled()), 'an address with an empty display name', {'Uri': u}, blank=True)
        self.ends('addr', rd.reads([A], [b'"', self.quoted('display'), b'"', self.sws('w1')] + self.angled()), 'an address with a quoted display name', {'Uri': u, 'Display': ratom('display')}, blank=True)
        self.ends('addr', rd.reads([A], self.words() + [self.lws('w1')] + self.angled()), 'an address with a display name without quotes', {'Uri': u, 'Display': ratom('display')}, blank=True)

    def vias(self):
        V0 = self.kinds('via')[0]
        e, rd = self.e, self.rd
        slash = lambda n: [self.sws(n), b'/', self.sws(n + '/')]
        sent = [text_run(e, 'protocol', TOKEN)] + slash('s1') + [text_run(e, 'version', TOKEN)] + slash('s2') + [text_run(e, 'transport', TOKEN), self.lws('s3')]
        f = {n: ratom(n.lower()) for n in ('Protocol', 'Version', 'Transport', 'Host')}
        sts = [V0]
        for k, y in enumerate(sent):
            sts = rd.read(sts, y)
            if y == b'/' or sent[k - 1] == b'/' or k == len(sent) - 1:
                sts = rd.uniq([self.shed(s) for s in sts])
        n = Number('port', bits=16, any=True)
        colon = [self.sws('c1'), b':', self.sws('c2')]
        for what, host in (('a Via with a host name', [text_run(e, 'host', HOST)]), ('a Via with an IPv6 address', [b'[', text_run(e, 'host6', IPV6), b']'])):
            a = rd.reads(sts, host)
            f['Host'] = ratom(host[-1 if len(host) == 1 else 1].name)
            self.ends('via', a, what, f)
            for k, y in enumerate(colon):
                a = rd.read(a, y)
                a = rd.uniq([self.shed(s) for s in a]) if k else a
            self.ends('via', rd.read(a, n), what + ' and a port', dict(f, Port=n.val))

    # ---------------------------------------------------------------------------------------- parameters
    def params(self, kind):
        P = self.pstate[kind]
        e, rd = self.e, self.rd
        gen = {n: ratom('elem.' + n) for n in self.names(kind)}
        gen.update({'Uri': Ptr('elem.Uri^'), 'Port': z3.BitVec('elem.Port', 16), 'Next': NIL})
        f = {n: gen[n] for n in self.names(kind)}
        name = rd.reads([P], [text_run(e, 'pname', TOKEN)])
        eq = rd.reads(name, [self.sws('w1'), b'=', self.sws('w2')])
        par = lambda v: (ratom('pname'), v, Ptr('elem.Param^'))
        who = 'an element with a parameter'
        self.ends(kind, name, who + ' without a value', f, par(EMPTY))
        self.ends(kind, rd.reads(eq, [text_run(e, 'pvalue', TOKENHOST)]), who, f, par(ratom('pvalue')))
        self.ends(kind, rd.reads(eq, [b'""']), who + ' with an empty value', f, par(EMPTY))
        self.ends(kind, rd.reads(eq, [b'"', self.quoted('pvalue'), b'"']), who + ' with a quoted value', f, par(ratom('pvalue')))
