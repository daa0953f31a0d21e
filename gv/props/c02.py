"""C02: URIs survive formatting and parsing.

The Append methods run on an arbitrary URI (the loop that escapes gives one text per byte, writer.py); this yields the texts a
URI can be written as: one sequence of pieces per combination of empty and set fields.  Each of these texts is read by ParseURI
(wire.py): runs of bytes by induction on their length, lists by induction on the number of elements, the port by induction on
its digits.  At the end the parser must have returned a URI without error whose fields are the fields of the URI written."""
from .wire import *
from .writer import *

REPLAY = [('sip', 'TestVerifC02')]
SECS = 5
ALPHA = b'abcdefghijklmnopqrstuvwxyz'
DIG = b'0123456789'
SCHEME = mask_bytes(ALPHA + DIG + b'+-.')
HOST = mask_bytes(ALPHA + DIG + b'-.')
HOST6 = mask_bytes(b'abcdef' + DIG + b'.:')
AT = ('keep', '@')
TRUSTED = {'bytes.IndexByte': 'an index of the byte in the slice, -1 exactly when it is not there',
           'strings.Index, Contains, IndexByte (on the host)': 'find the colon exactly when there is one'}
ASSUME = ['scheme and host are as the parser delivers them: in lower case; a letter followed by letters, digits and +-. ; a host name '
          'of letters, digits, dots and dashes, or an IPv6 address of hexadecimal digits, dots and colons with at least one colon',
          'the names of parameters and headers are not empty; a password comes with a user name',
          'a formatted port is its decimal digits without leading zeros (strconv)']


def verify(c):
    lists = {}
    for t in ('URIParam', 'URIHeader'):
        c.section('(*sip.%s).Append' % t, lambda: lists.__setitem__(t, element(c, t)))
    c.section('sip.ParseURI reads what (*sip.URI).Append writes', roundtrip, c, lists)


def one_buffer(st):
    return [k for k, v in st.heap.items() if isinstance(v, BufV)][0]


def writes(what):
    def h(e, st, a, ins):
        p = e.res(st, a[0])
        d = e.decide(st, zbool(p.null))
        if d is None:
            raise Fork(zbool(p.null))
        if not d:
            b = one_buffer(st)
            st.heap[b] = BufV(rcat(st.heap[b].rope, rapp('list', what)))
        return None
    return h


def element(c, t):
    """Append writes nothing for nil, otherwise the elements after this one, then this one.
    -> {(is it the first one written, has it a value): pieces}"""
    fn = '(*sip.%s).Append' % t
    f = c.fn(fn)
    e = c.engine(fn, {fn: writes(t)})
    Writer(c, e)
    st = c.state(e)
    st.heap['out^'] = BufV(EMPTY)
    for o in c.call(e, fn, [NIL, Ptr('out^')], st):
        c.ensures(e, o, o.heap['out^'].rope == EMPTY, 'nothing is written for no elements', fn)
    st = c.state(e)
    p = e.sym(f.params[0]['t'], t)
    st.pc += [z3.Not(zbool(p.null)), zbool(lcmp('>=', atom_len(t + '.Name'), 1))]
    st.heap['out^'] = BufV(EMPTY)
    res = {}
    for o in c.call(e, fn, [p, Ptr('out^')], st):
        us = units(o.heap['out^'].rope)
        nil = e.decide(o, z3.Bool(t + '.Next==nil'))
        val = e.decide(o, lcmp('>=', atom_len(t + '.Value'), 1))
        if val is None:
            raise Unsupported('written the same with and without value')
        for first in ((True,) if nil is True else (False,) if nil is False else (True, False)):
            if not first:
                c.ensures(e, o, us[:1] == [('F', 'list', (t,))], 'the elements before it are written first', fn)
                us = us[1:]
            if any(u[0] == 'F' and u[1] == 'list' for u in us):
                raise Unsupported('the elements before are not written first')
            k = (first, val)
            if k in res and res[k] != us:
                raise Unsupported('an element is written in two ways')
            res[k] = us
    c.ensures(e, st, set(res) == {(a, b) for a in (True, False) for b in (True, False)}, 'every element is written', fn)
    return res


def finder(has, name):
    """What looking for the colon finds."""
    def h(e, st, a, ins):
        s, sub = e.res(st, a[0]), e.res(st, a[1])
        if sub not in (58, rlit(b':')) or not (isinstance(s, Rope) and len(s) == 1 and s[0][0] == 'A' and s[0][1].endswith('Host')):
            raise Unsupported('looks for %r in %r' % (sub, s))
        if name.startswith('Contains'):
            return bool(has)
        if name == 'Count':
            return atom('colons', 1, V.MAXLEN) if has else 0
        return atom('colon', 0, V.MAXLEN) if has else -1
    return h


def finders(has):
    return {'strings.' + n: finder(has, n) for n in ('Index', 'IndexByte', 'Contains', 'ContainsRune', 'IndexRune', 'IndexAny', 'ContainsAny', 'LastIndex', 'LastIndexByte', 'Count')}


def formats(c, v6, scheme):
    """The texts (*URI).Append writes: [(pieces, facts)]"""
    fn = '(*sip.URI).Append'
    f = c.fn(fn)
    fs = finders(v6)
    e = c.engine(fn, {'(*sip.URIParam).Append': writes('URIParam'), '(*sip.URIHeader).Append': writes('URIHeader')}, fs)
    Writer(c, e)
    st = c.state(e)
    p = e.sym(f.params[0]['t'], 'URI')
    st.pc.append(z3.Not(zbool(p.null)))
    u = e.objval(st, p.obj)
    names = [x['name'] for x in c.prog.u(c.prog.u(f.params[0]['t'])['e'])['fields']]
    port = u.f[names.index('Port')]
    st.pc.append(zbool(lcmp('>=', atom_len('URI.Host'), 1)))
    st.pc.append(z3.Or(zbool(lcmp('==', atom_len('URI.Pass'), 0)), zbool(lcmp('>=', atom_len('URI.User'), 1))))
    st.pc.append(zbool(lcmp('>=' if scheme else '<=', atom_len('URI.Scheme'), 1 if scheme else 0)))
    st.heap['out^'] = BufV(EMPTY)
    res = []
    for o in c.call(e, fn, [p, Ptr('out^')], st):
        us = []
        for x in units(o.heap['out^'].rope):
            if x[0] == 'D':
                ok = x[1] == e.conv_int(port, 'uint16', 'int64') or e.decide(o, lcmp('==', x[1], e.conv_int(port, 'uint16', 'int64'))) is True
                c.ensures(e, o, ok, 'the number written is the port', fn)
                x = ('port',)
            us.append(x)
        facts = {n: e.decide(o, lcmp('>=', atom_len('URI.' + n), 1)) for n in ('Scheme', 'User', 'Pass')}
        facts['Port'] = e.decide(o, port != 0)
        facts['Param'] = e.decide(o, z3.Not(z3.Bool('URI.Param==nil')))
        facts['Header'] = e.decide(o, z3.Not(z3.Bool('URI.Header==nil')))
        # fields that were not looked at could be either: what is not decided is free
        res.append((tuple(us), facts))
    return res, names


def roundtrip(c, lists):
    total = 0
    trips = {}
    for v6 in (False, True):
        for scheme in (True, False):
            rs, names = formats(c, v6, scheme)
            groups = {}
            for us, facts in rs:
                groups.setdefault(any(u == ('L', b'@') for u in us), []).append((us, facts))
            for at, g in groups.items():
                if at not in trips:
                    trips[at] = Trip(c, lists, names, at)
                total += trips[at].run(g, v6, scheme)
    c.ensures(c.engines[-1], c.state(c.engines[-1]), total >= 96, 'vacuity guard: all kinds of URI are read', 'sip.ParseURI')


class Trip:
    def __init__(self, c, lists, names, at):
        self.c, self.lists, self.names, self.at = c, lists, names, at
        self.fn = 'sip.ParseURI'

        def index(e, st, a, ins):
            if a[1] != ord('@'):
                raise Unsupported('search for another byte')
            return atom('at', 0, V.MAXLEN) if at else -1
        text = lambda e, st, a, ins: ratom('text')
        self.rd = Reader(c, self.fn, {}, {'bytes.IndexByte': index, 'fmt.Sprintf': text, 'errors.New': lambda e, st, a, ins: SymIface('error', False)})
        self.e = self.rd.e
        self.memo = {}
        R = atom_len(REST)
        self.init = self.rd.begin(c.state(self.e), [SliceV('data^', 0, R, R)])

    def at_free(self, ok, what):
        self.c.ensures(self.e, self.c.state(self.e), ok, 'an at sign is written raw exactly after the user: ' + what, self.fn)

    def run(self, g, v6, scheme):
        c, e, rd = self.c, self.e, self.rd
        self.v6, self.scheme = v6, scheme
        self.count = 0
        self.walk(self.init, [(us, f, us) for us, f in g])
        return self.count

    def walk(self, sts, texts):
        """All texts share what has been read."""
        nxt = {}
        for us, f, whole in texts:
            if not us:
                self.finish(sts, f, whole)
            else:
                nxt.setdefault(us[0], []).append((us[1:], f, whole))
        for u, rest in nxt.items():
            n = self.piece(sts, u)
            if u[0] == 'L':
                read = len(rest[0][2]) - len(rest[0][0])
                if ('A', 'URI.Host', 0, atom_len('URI.Host')) in rest[0][2][:read - 1] and u[1] != b']':
                    n, rest = self.settle(n, rest, ('Scheme', 'User', 'Pass', 'Host') + (('Port',) if u[1] != b':' else ()))
                n = self.settle_lists(n)
            if rest:
                self.walk(n, rest)

    def settle(self, sts, texts, names):
        """Behind the host the texts are in place; what they are does not matter for what follows."""
        out = []
        for s in sts:
            s = s.clone()
            old = s.ghost.get(('keep', 'settled'), ())
            os = [k for k, v in s.heap.items() if k.startswith('o') and isinstance(v, StructV) and len(v.f) == len(self.names) and
                  v.f[self.names.index('Scheme')] != EMPTY]
            if len(os) != 1:
                raise Unsupported('%d URIs' % len(os))
            f = list(s.heap[os[0]].f)
            for n in names:
                i = self.names.index(n)
                if n not in old:
                    self.field(s, n, f[i], texts[0][1], texts[0][2])
                    f[i] = self.kept(n)
            s.heap[os[0]] = StructV(f)
            s.ghost['keep', 'settled'] = tuple(sorted(set(names) | set(old)))
            out.append(s)
        out = self.rd.uniq(out)
        ks = tuple(sorted(self.rd.key(s) for s in out))
        rest = []
        for t in texts:
            k = (ks, t[0])
            if k in self.memo:
                self.count += 1
                if any(self.memo[k][n] is not t[1][n] for n in ('Param', 'Header') + (() if 'Port' in names else ('Port',))):
                    raise Unsupported('texts that are read the same')
                continue
            self.memo[k] = t[1]
            rest.append(t)
        return out, rest

    def kept(self, n):
        return z3.BitVec('settled.Port', 16) if n == 'Port' else ratom('settled.' + n)

    def settle_lists(self, sts):
        """An element is linked when what follows it has been seen."""
        out = []
        for s in sts:
            s = s.clone()
            for k, v in list(s.ghost.items()):
                if isinstance(k, tuple) and k[1] in self.lists and v != 'linked':
                    self.link(s, k[1], '@i', *v)
                    s.ghost[k] = 'linked'
            out.append(s)
        return self.rd.uniq(out)

    def field(self, s, n, v, facts, whole):
        what = show(whole)
        self.c.ensures(self.e, s, n in ('Scheme', 'Host') or facts[n] is not None, '%s decides whether there is a %s' % (what, n), self.fn)
        if n == 'Port':
            ok = z3.is_bv(v) and v.eq(z3.BitVec('num:Port', 16)) if facts[n] else not z3.is_expr(v) and v == 0
        elif n == 'Scheme':
            ok = v == (ratom('URI.Scheme') if self.scheme else rlit(b'sip'))
        elif n == 'Host':
            ok = v == ratom('URI.Host')
        else:
            ok = v == (ratom('URI.' + n) if facts[n] else EMPTY)
        self.c.ensures(self.e, s, ok, 'the %s of %s is read back' % (n, what), self.fn)

    def piece(self, sts, u):
        e, rd = self.e, self.rd
        if u[0] == 'L':
            return rd.read(sts, u[1])
        if u == ('port',):
            return rd.read(sts, Number('Port', 16))
        if u[0] == 'A' and u[2] == 0 and u[3] == atom_len(u[1]):
            if u[1] == 'URI.Scheme':
                return rd.read(sts, text_run(e, u[1], SCHEME, mask_bytes(ALPHA)))
            if u[1] == 'URI.Host':
                return rd.read(sts, text_run(e, u[1], HOST6 if self.v6 else HOST))
        if u[0] == 'F' and u[1] == 'esc':
            self.at_free(not may_write(u[2][1], ord('@')), u[2][0])
            return rd.read(sts, esc_run(rd, u[2][0], u[2][1]))
        if u[0] == 'F' and u[1] == 'list':
            return self.list(sts, u[2][0])
        raise Unsupported('piece %r' % (u,))

    # -- lists: an element is linked when the next one begins; the one read last is pending
    def pieces(self, t, first, val, tag):
        out = []
        for u in self.lists[t][first, val]:
            if u[0] == 'L':
                out.append(u[1])
            elif u[0] == 'F' and u[1] == 'esc':
                self.at_free(not may_write(u[2][1], ord('@')), u[2][0])
                out.append(esc_run(self.rd, u[2][0] + tag, u[2][1]))
            else:
                raise Unsupported('piece %r' % (u,))
        return out

    def elem(self, t, tag, val, nil):
        return StructV([ratom(t + '.Name' + tag), ratom(t + '.Value' + tag) if val else EMPTY, NIL if nil else Ptr(t + '.list^')])

    def list(self, sts, t):
        rd = self.rd
        key = (t, tuple(sorted(rd.key(s) for s in sts)))
        if key in self.memo:
            return self.memo[key]
        G, work = {}, []

        def add(s, val, nil):
            s.ghost['keep', t] = (val, nil)
            k = rd.canon(s)
            if k not in G:
                if len(G) > 100:
                    raise Unsupported('no finite invariant for the list')
                G[k] = s
                work.append(s)
        for val in (False, True):
            for s in rd.reads(sts, self.pieces(t, True, val, '@i')):
                add(s.clone(), val, True)
        m = {}
        for n in ('.Name', '.Value'):
            (a, _), = atom_len(t + n + '@j').t
            m[a] = atom_len(t + n + '@i')
        ren = lambda r: mkrope([('A', s[1][:-1] + 'i', lsubst(s[2], m), lsubst(s[3], m)) if s[0] == 'A' and s[1].startswith(t + '.') and s[1].endswith('@j') else s for s in r])
        while work:
            g = work.pop()
            v0, nil = g.ghost['keep', t]
            h = g.clone()
            del h.ghost['keep', t]
            rd.canon(h)
            for val in (False, True):
                for s in rd.reads([h], self.pieces(t, False, val, '@j')):
                    s = s.clone()
                    self.link(s, t, '@i', v0, nil)
                    rd.apply(s, lambda v: vmap(v, lambda l: lsubst(l, m), ren, ident, ident))
                    add(s, val, False)
        self.memo[key] = list(G.values())
        return self.memo[key]

    def link(self, s, t, tag, val, nil):
        want = self.elem(t, tag, val, nil)
        os = [k for k, v in s.heap.items() if not k.endswith('^') and k not in self.e.base and isinstance(v, StructV) and v == want]
        self.c.ensures(self.e, s, len(os) == 1, 'a %s is linked with its name and value before the ones read earlier' % t, self.fn)
        if len(os) != 1:
            raise X.PathDone()
        to = lambda o: t + '.list^' if o == os[0] else o
        self.rd.apply(s, lambda v: vmap(v, ident, ident, ident, to))
        del s.heap[os[0]]
        s.heap.pop(t + '.list^', None)

    # -- the end
    def finish(self, sts, facts, whole):
        c, e, rd = self.c, self.e, self.rd
        self.count += 1
        what = show(whole)
        outs = []
        for s in sts:
            tags = {k[1]: v for k, v in s.ghost.items() if isinstance(k, tuple) and k[0] == 'keep'}
            for o in rd.end([s]):
                outs.append((o, tags))
        st = c.state(e)
        c.ensures(e, st, bool(outs), 'the text %s is read to the end' % what, self.fn)
        for o, tags in outs:
            r = o.result
            ok = isinstance(r, TupleV) and len(r) == 2 and e.res(o, r[1]) == X.NILIFACE
            c.ensures(e, o, ok, 'there is no error for %s' % what, self.fn)
            if not ok:
                continue
            p = e.res(o, r[0])
            c.ensures(e, o, p.null is False, 'there is a URI for %s' % what, self.fn)
            u = e.objval(o, p.obj)
            for n, v in zip(self.names, u.f):
                if n in ('Scheme', 'Host', 'User', 'Pass', 'Port'):
                    if n in tags.get('settled', ()):
                        c.ensures(e, o, V.same(v, self.kept(n)), 'the %s of %s is read back' % (n, what), self.fn)
                    else:
                        self.field(o, n, v, facts, whole)
                elif n in ('Param', 'Header'):
                    t = 'URI' + n
                    q = e.res(o, v)
                    if facts[n] is False:
                        ok = isinstance(q, Ptr) and q.null is True
                    else:
                        ok = facts[n] is True and t in tags and isinstance(q, Ptr) and q.null is False and q.path == () and \
                            (q.obj == t + '.list^' if tags[t] == 'linked' else o.heap.get(q.obj) == self.elem(t, '@i', *tags[t]))
                    c.ensures(e, o, ok, 'the list of %ss of %s is read back' % (t, what), self.fn)
                else:
                    raise Unsupported('field %s' % n)


def show(us):
    return ''.join(u[1].decode('latin1') if u[0] == 'L' else '{%s}' % (u[2][0] if u[0] == 'F' else u[1] if u[0] == 'A' else u[0]) for u in us)
