"""C03: encoded text cannot break out of its element.

Every Append method that writes user names, passwords, URI parameters, URI headers, parameter names and values, display names and
extension header names runs on arbitrary values; the text it writes is followed by an acceptor that knows for each byte which
field it comes from.  Outside a quoted string a byte of a field must be in the set RFC 3261 allows in that position, or be one of
the two hexadecimal digits after a percent sign; inside a quoted string an unescaped byte is not a quote, backslash, or a line
break that is not followed by a blank, and no line break is escaped; the text of a field ends when its quoted string is closed.
The invariants of the loops are found by closure (emit.py).  Lists are handled by the contract of Append on the tail."""
from .emit import *
from ..vals import mask_of, mask_bytes

REPLAY = [('sip', 'TestVerifC03')]
SECS = 5
ASSUME = ['scheme, host and the text of extension headers are written as they are (they are not covered by the property)']

ALNUM = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
UNRES = ALNUM + b"-_.!~*'()"
TOKEN = mask_bytes(ALNUM + b"-.!%*_+`'~")
HEX = mask_bytes(b'0123456789abcdefABCDEF')
NAMES = {
    'URI.User': ('text', mask_bytes(UNRES + b'&=+$,;?/')),
    'URI.Pass': ('text', mask_bytes(UNRES + b'&=+$,')),
    'URIParam.Name': ('text', mask_bytes(UNRES + b'[]/:&+$')),
    'URIParam.Value': ('text', mask_bytes(UNRES + b'[]/:&+$')),
    'URIHeader.Name': ('text', mask_bytes(UNRES + b'[]/?:+$')),
    'URIHeader.Value': ('text', mask_bytes(UNRES + b'[]/?:+$')),
    'Param.Name': ('token', TOKEN),
    'Param.Value': ('quoted', TOKEN),
    'XHeader.Name': ('token', TOKEN),
    'Addr.Display': ('quoted', TOKEN | mask_bytes(b' ')),
    'URI.Scheme': ('free', 0), 'URI.Host': ('free', 0), 'XHeader.Value': ('free', 0),
    'Via.Protocol': ('free', 0), 'Via.Version': ('free', 0), 'Via.Transport': ('free', 0), 'Via.Host': ('free', 0),
}
METHODS = ['URI', 'URIParam', 'URIHeader', 'Param', 'XHeader', 'Addr', 'Via']
CRLF = mask_bytes(b'\r\n')


def verify(c):
    for t in METHODS:
        c.section('(*%s).Append' % t, method, c, t)


class Acceptor:
    def __init__(self, c, fn):
        self.c, self.fn = c, fn
        self.used = set()

    def bad(self, e, st, what):
        self.c.ensures(e, st, False, what, self.fn)
        raise X.PathDone()

    def __call__(self, e, st, q, s):
        k = s[0]
        if k == 'L':
            for b in s[1]:
                q = self.byte(e, st, q, b, None, False)
            return q
        if k == 'B':
            x = s[1]
            if isinstance(x, int):
                return self.byte(e, st, q, x, None, False)
            if not isinstance(x, FB) or not x.id.startswith('el:'):
                raise Unsupported('byte %r' % (x,))
            f = x.id[3:x.id.rindex('[')]
            return self.byte(e, st, q, x, f, x.tab != V.IDENT)
        if k == 'D':
            if q[0] not in ('out', 'end'):
                self.bad(e, st, 'a number is written outside quotes')
            return ('out',)
        if k == 'A':
            f = s[1]
            kind, legal = NAMES.get(f.replace("'", ''), (None, 0))
            self.used.add(f.replace("'", ''))
            if kind is None:
                raise Unsupported('text of %s is written' % f)
            if q[0] not in ('out', 'end'):
                if e.decide(st, lcmp('==', V.seg_len(s), 0)) is True:
                    return q
                self.bad(e, st, '%s is not written raw inside a quoted string or an escape' % f)
            if q == ('end', f):
                self.bad(e, st, '%s is one quoted string' % f)
            if kind == 'free':
                return ('out',)
            fm = st.ghost.get('all:' + f)
            if fm is None:
                if e.decide(st, lcmp('==', V.seg_len(s), 0)) is True:
                    return q
                # all bytes are legal when nothing was looked at only if every byte is
                fm = (e.elem_mask('el:%s[0]' % f),) * 3
            edge = legal & TOKEN if kind == 'quoted' else legal
            ok = fm[0] & ~edge == 0 and fm[1] & ~legal == 0 and fm[2] & ~edge == 0
            self.c.ensures(e, st, ok, '%s is written without quoting only when it needs none' % f if kind == 'quoted'
                           else '%s is written with legal characters only' % f, self.fn)
            return ('out',)
        if k == 'F' and s[1] == 'written':
            return s[2][0]
        raise Unsupported('piece %r' % (s,))

    def byte(self, e, st, q, x, f, mapped):
        """x is an int (literal) or an FB of field f."""
        def sub(mask):
            """every possible byte is in mask"""
            if isinstance(x, int):
                return bool(mask >> x & 1)
            m = st.bm.get(x.id, e.elem_mask(x.id))
            return all(mask >> x.tab[i] & 1 for i in range(256) if m >> i & 1)
        if f:
            self.used.add(f.replace("'", ''))
            kind, legal = NAMES.get(f.replace("'", ''), (None, 0))
            if kind is None:
                raise Unsupported('text of %s is written' % f)
        m = q[0]
        ens = lambda c, w: self.c.ensures(e, st, c, w, self.fn) or self.stopit()
        if m == 'p1' or m == 'p2':
            ens(sub(HEX), 'a percent sign is followed by two hexadecimal digits')
            return ('p2',) if m == 'p1' else ('out',)
        if m in ('out', 'end'):
            if f is None:
                if x == ord('%'):
                    return ('p1',)
                if x == ord('"'):
                    return ('q', None)
                return ('out',)
            ens(q != ('end', f), '%s is one quoted string' % f)
            ens(not mapped, '%s is written as it is or escaped' % f)
            ens(sub(legal), '%s is written with legal characters only' % f)
            return ('out',)
        fld = q[1] or f
        if f is not None:
            ens(kind == 'quoted' and fld == f, 'only one display name or parameter value is written in quotes')
        if m == 'e':
            ens(sub(~CRLF), 'no line break is escaped')
            return ('q', fld)
        if m == 'c1':
            ens(sub(mask_bytes(b'\n')), 'CR is followed by LF inside quotes')
            return ('c2', fld)
        if m == 'c2':
            ens(sub(mask_bytes(b' \t')), 'a line break inside quotes is a folded one')
            return ('q', fld)
        assert m == 'q'
        if f is None:
            if x == ord('\\'):
                return ('e', fld)
            if x == ord('"'):
                return ('end', fld)
        ens(sub(~mask_bytes(b'"\\')), 'no unescaped quote inside quotes')
        if sub(mask_bytes(b'\r')):
            return ('c1', fld)
        mm = mask_bytes(b'\r')
        if not isinstance(x, int) and not sub(~mm):
            raise Fork(FBool(x.id, mask_of(lambda b: x.tab[b] == 13)))
        ens(sub(~mask_bytes(b'\n')), 'no lone line feed inside quotes')
        return ('q', fld)

    def stopit(self):
        raise X.PathDone()


def method(c, t):
    fn = '(*sip.%s).Append' % t
    if c.prog.fn(fn) is None:
        raise Unsupported('%s is gone' % fn)
    f = c.prog.fn(fn)

    def stub(e, st, a, ins):
        b = em.buffer(st)
        q = em.state(e, st, st.heap[b].rope)
        c.ensures(e, st, q[0] in ('out', 'end'), 'a part of an element is written outside quotes and escapes', fn)
        st.heap[b] = BufV(out(('out',)))
        return None
    e = c.engine(fn, {'(*sip.%s).Append' % m: stub for m in METHODS})
    acc = Acceptor(c, fn)
    em = Emit(c, e, acc)
    st = c.state(e)
    recv = e.sym(f.params[0]['t'], t)
    if t == 'Via':
        st.pc.append(z3.Not(zbool(recv.null)))
    st.heap['out^'] = BufV(out(('out',)))
    for o in c.call(e, fn, [recv, Ptr('out^')], st):
        q = em.state(e, o, o.heap['out^'].rope)
        c.ensures(e, o, q[0] in ('out', 'end'), 'what is written ends outside quotes and escapes', fn)
    want = {n for n in NAMES if n.startswith(t + '.') and NAMES[n][0] != 'free'}
    c.ensures(e, st, want <= acc.used, 'vacuity guard: every field is written (%s)' % sorted(want - acc.used), fn)
