"""C05: every header name is filed under its own field.

The message parser runs on a line of which only the kind is known, from the state before a line with everything read earlier
replaced by symbols (hdr.py, wire.py).  Names are read byte by byte: all token names, each partial name with the set of bytes
that lead to it, until either the name is a recognised one or every further byte is treated the same (by induction the name is
kept then).  For each recognised name, in any mix of letter case and with every form of white space and line break around the
colon, the line must change the field of that header and no other; any other name must become an extension header in front of
the ones read before.  After every line the parser must be in the state before a line again."""
from .hdr import *

REPLAY = [('sip', 'TestVerifC05')]
SECS = 8
TRUSTED = {'sip.ParseURI': 'a URI that depends on the text alone, or an error (C01, C02); the text of a request line and of an address is a legal URI'}
ASSUME = ['a number in a header fits the type of its field']
TEXTS = {'Accept': 'Accept', 'Accept-Contact': 'AcceptContact', 'a': 'AcceptContact', 'Accept-Encoding': 'AcceptEncoding',
         'Accept-Language': 'AcceptLanguage', 'Allow': 'Allow', 'Allow-Events': 'AllowEvents', 'u': 'AllowEvents',
         'Alert-Info': 'AlertInfo', 'Authentication-Info': 'AuthenticationInfo', 'Authorization': 'Authorization',
         'Content-Disposition': 'ContentDisposition', 'Content-Language': 'ContentLanguage', 'Content-Encoding': 'ContentEncoding',
         'e': 'ContentEncoding', 'Call-Info': 'CallInfo', 'Date': 'Date', 'Error-Info': 'ErrorInfo', 'Event': 'Event', 'o': 'Event',
         'In-Reply-To': 'InReplyTo', 'Reply-To': 'ReplyTo', 'MIME-Version': 'MIMEVersion', 'Organization': 'Organization',
         'Priority': 'Priority', 'Proxy-Authenticate': 'ProxyAuthenticate', 'Proxy-Authorization': 'ProxyAuthorization',
         'Proxy-Require': 'ProxyRequire', 'Refer-To': 'ReferTo', 'r': 'ReferTo', 'Referred-By': 'ReferredBy', 'b': 'ReferredBy',
         'Require': 'Require', 'Retry-After': 'RetryAfter', 'Server': 'Server', 'Subject': 'Subject', 's': 'Subject',
         'Supported': 'Supported', 'k': 'Supported', 'Timestamp': 'Timestamp', 'Unsupported': 'Unsupported',
         'User-Agent': 'UserAgent', 'Warning': 'Warning', 'WWW-Authenticate': 'WWWAuthenticate'}
ADDRS = {'Contact': 'Contact', 'm': 'Contact', 'From': 'From', 'f': 'From', 'P-Asserted-Identity': 'PAssertedIdentity',
         'Record-Route': 'RecordRoute', 'Remote-Party-ID': 'RemotePartyID', 'Route': 'Route', 'To': 'To', 't': 'To'}
NUMBERS = {'Content-Length': None, 'l': None, 'CSeq': 'CSeq', 'Expires': 'Expires', 'Max-Forwards': 'MaxForwards', 'Min-Expires': 'MinExpires'}
OTHERS = {'Via': 'via', 'v': 'via', 'Content-Type': 'type', 'c': 'type', 'Call-ID': 'id', 'i': 'id'}
VIS = mask_bytes(bytes(range(0x21, 0x80)) + bytes(range(0xc0, 0xfe)))
WORD = mask_bytes(ALPHA + UP + DIG + b"-.!%*_+`'~()<>:\\\"/[]?{}")


def verify(c):
    p = Names(c)
    c.section('sip.ParseMsg: the state before a line', p.setup)
    if p.H is None:
        return
    c.section('sip.lastAddr', last_addr, c)
    c.section('sip.ParseMsg: the end of the header', p.roles)
    c.section('sip.ParseMsg: plain texts', p.texts)
    c.section('sip.ParseMsg: addresses and Vias', p.lists)
    c.section('sip.ParseMsg: numbers', p.numbers)
    c.section('sip.ParseMsg: Content-Type and Call-ID', p.others)
    c.section('sip.ParseMsg: all names', p.names)


def variants(w):
    return tuple(mask_bytes(bytes({ord(x.lower()), ord(x.upper())})) for x in w)


class Names:
    def __init__(self, c):
        self.c, self.H = c, None

    def setup(self):
        c = self.c
        self.h = h = Headers(c)
        self.e, self.rd = h.e, h.rd
        ss = h.start()
        gs = {}
        for s in ss:
            fr = s.frames[0]
            g = h.general(s)
            gs[g.ck] = g
            via = [v for v in fr.regs.values() if isinstance(v, Ptr) and v.path == (h.fields.index('Via'),)]
            c.ensures(self.e, s, len(via) == 1, 'the list of Vias begins at the message', FN)
        c.ensures(self.e, c.state(self.e), len(gs) == 1, 'a start line leads to one state', FN)
        self.H, = gs.values()
        # a second start line, and a request, lead there too
        for text in (b'SIP/2.0 404 Not Found\r\n', b'INVITE sip:a SIP/2.0\r\n'):
            for s in self.rd.reads(h.init, [text[:4], *([text[4:7], text_run(self.e, 'ruri', mask_bytes(ALPHA)), text[12:]] if text[0] == 73 else [text[4:]]), Peek('next', NWSP)]):
                c.ensures(self.e, s, h.general(s).ck == self.H.ck, 'every start line leads to the state before a line', FN)

    # ---------------------------------------------------------------------------------------- what matters later
    def roles(self):
        """The empty line and the body: which registers the outcome depends on."""
        self.outcomes = self.h.ending(self.H)
        self.clen, self.ctype = self.h.roles(self.H, self.outcomes)
        self.c.ensures(self.e, self.c.state(self.e), bool(self.clen and self.ctype), 'what is read of the body depends on its length and type', FN)

    def line(self, sts, what, fields=None, regs=None, objs=None):
        """Every state is one before a line, and only these things have changed."""
        c, e, h = self.c, self.e, self.h
        ok = bool(sts)
        for s in sts:
            d = h.changes(s, self.H)
            if d is None:
                ok = False
                continue
            f, r, o = d
            keep = {self.clen, self.ctype} | {k for k, v in self.H.frames[0].regs.items() if isinstance(v, Ptr)}
            r = {k: v for k, v in r.items() if k in keep}
            ok = ok and same_map(f, fields or {}) and same_map(r, regs or {}) and (objs(s, o) if objs else not o)
        c.ensures(e, c.state(e), ok, what, FN)

    # ---------------------------------------------------------------------------------------- plain texts
    def value(self, ptr):
        """The state before a plain text whose address is kept."""

    def texts(self):
        c, e, h = self.c, self.e, self.h
        self.slot = None
        for name, field in TEXTS.items():
            i = h.fields.index(field)
            after = h.colon(h.word(self.H, name))
            # an empty text
            self.line(h.line_end(after), 'an empty %s header is filed as such' % name, {field: EMPTY})
            gs = {}
            for s in self.rd.read(after, Peek('first', VIS)):
                g = h.renamed(s, {('msg^', (i,)): ('slot^', ())})
                g.heap['slot^'] = ratom('slot.old')
                self.rd.canon(g)
                gs[g.ck] = g
            if len(gs) == 1 and self.slot is None:
                self.slot, = gs.values()
            c.ensures(e, c.state(e), self.slot is not None and set(gs) == {self.slot.ck}, 'the text of a %s header is put into its field' % name, FN)
        self.line(h.line_end(self.rd.reads([self.slot], [h.utf8('text')])), 'a text is put where it belongs, and nothing else is changed',
                  objs=lambda s, o: set(o) == {'slot^'} and o['slot^'] == ratom('text'))

    # ---------------------------------------------------------------------------------------- addresses
    def lists(self):
        c, e, h = self.c, self.e, self.h
        first = None
        for name, field in ADDRS.items():
            gs = {}
            for s in self.rd.read(h.colon(h.word(self.H, name)), Peek('first', VIS)):
                g = h.renamed(h.forget(s), {('end:%s^' % field, ()): ('end^', ())})
                ok = g.heap.pop('end:%s^' % field, 0) != 0 and V.same(g.heap['msg^'], self.H.heap['msg^'])
                g.heap['end^'] = NIL
                self.rd.canon(g)
                gs[g.ck if ok else None] = g
            if first is None and gs:
                first = gs
            c.ensures(e, c.state(e), bool(gs) and set(gs) == set(first) and len(gs) <= 1 and None not in gs, 'the addresses of a %s header are put at the end of its list' % name, FN)
        self.addr = first
        first = None
        for name in ('Via', 'v'):
            gs = {}
            for s in self.rd.read(h.colon(h.word(self.H, name)), Peek('first', TOKEN)):
                gs[s.ck if V.same(s.heap['msg^'], self.H.heap['msg^']) else None] = s
            if first is None and gs:
                first = gs
            c.ensures(e, c.state(e), bool(gs) and set(gs) == set(first) and len(gs) == 1 and None not in gs, 'a %s header is read as one' % name, FN)
        self.via = first

    # ---------------------------------------------------------------------------------------- numbers
    def fresh(self, field):
        """The state before a line when the field has not been set yet."""
        s = self.H.clone()
        m = s.heap['msg^']
        s.heap['msg^'] = m.set(self.h.fields.index(field), 0)
        self.rd.canon(s)
        return s

    def numbers(self):
        h, rd, e = self.h, self.rd, self.e
        v = Number('n', any=True)
        w = lambda n: text_run(e, n, WSP)
        for name, field in NUMBERS.items():
            s = self.fresh(field) if name == 'CSeq' else self.H
            n = rd.read(h.colon(h.word(s, name)), v)
            if name == 'CSeq':
                n = rd.reads(n, [Alt([w('w4')], [b'\r\n', w('w4')], [w('w4'), b'\r\n', w('w5')]), text_run(e, 'method', TOKEN)])
                self.line(h.line_end(n), 'the number and the method of a CSeq header are its own', {'CSeq': v.val, 'CSeqMethod': ratom('method')})
            elif field:
                self.line(h.line_end(n), 'the number of a %s header is its own' % name, {field: v.val})
            else:
                self.line(h.line_end(n), 'the number of a %s header is the length of the body' % name, regs={self.clen: v.val})

    def others(self):
        h, rd, e = self.h, self.rd, self.e
        for name, what in OTHERS.items():
            if what == 'id':
                after = h.colon(h.word(self.H, name))
                t = text_run(e, 'id', WORD)
                self.line(h.line_end(rd.reads(after, [t])), 'the text of a %s header is put into its field' % name, {'CallID': ratom('id')})
                n = rd.reads(after, [t, b'@', text_run(e, 'host', WORD)])
                self.line(h.line_end(n), 'the text of a %s header with an at sign is put into its field' % name, {'CallID': mkrope([ratom('id')[0], ('L', b'@'), ratom('host')[0]])})
            elif what == 'type':
                after = rd.read(h.colon(h.word(self.H, name)), Peek('first', TOKEN))
                n = rd.reads(after, [text_run(e, 'major', TOKEN), b'/', text_run(e, 'minor', TOKEN)])
                r = mkrope([ratom('major')[0], ('L', b'/'), ratom('minor')[0]])
                self.line(h.line_end(n), 'the type of a %s header is the type of the body' % name, regs={self.ctype: r})

    # ---------------------------------------------------------------------------------------- any name
    def names(self):
        c, e, h, rd = self.c, self.e, self.h, self.rd
        exact, X_ = h.trie(self.H)
        spec = {variants(w): w for d in (TEXTS, ADDRS, NUMBERS, OTHERS) for w in d}
        known = {m for m, y in exact}
        for v, w in spec.items():
            c.ensures(e, c.state(e), v in known, '%s is told from other names' % w, FN)
        blank = byte('w1~', WSP, e)
        want = {u: {s.ck for s in rd.feed(X_, [unit(u)])} for u in (58, blank)}
        for m, y in exact:
            if m in spec:
                continue
            for u in (58, blank):
                got = {h.anyname(s, len(m), True).ck for s in rd.feed(y, [unit(u)])}
                c.ensures(e, c.state(e), got == want[u], '%s is not a recognised name' % show(m), FN)
        x = h.colon([X_])
        isnew = lambda r: lambda s, o: self.extension(s, o, r)
        self.xline(h.line_end(x), 'an extension header without a text is kept', EMPTY)
        ys = rd.read(x, Peek('first', VIS))
        c.ensures(e, c.state(e), len(ys) == 1, 'white space around the colon does not matter', FN)
        self.xline(h.line_end(rd.reads(ys, [h.utf8('text')])), 'an extension header is kept with its name and text before the ones read earlier', ratom('text'))

    def xline(self, sts, what, text):
        c, e, h = self.c, self.e, self.h
        ok = bool(sts)
        for s in sts:
            d = h.changes(s, self.H)
            if d is None:
                ok = False
                continue
            f, r, o = d
            r = {k for k in r if k in (self.clen, self.ctype) or isinstance(self.H.frames[0].regs[k], Ptr)}
            ok = ok and set(f) == {'XHeader'} and not r
            if ok:
                p = f['XHeader']
                x = o.get(p.obj)
                ok = isinstance(p, Ptr) and p.null is False and p.path == () and isinstance(x, StructV) and len(x.f) == 3 and x.f[0] == ratom('name') and \
                    isinstance(x.f[1], SliceV) and x.f[1].off == 0 and s.heap[x.f[1].obj].rope == text and x.f[1].len == rlen(text) and \
                    V.same(x.f[2], self.H.heap['msg^'].f[h.fields.index('XHeader')]) and set(o) == {p.obj, x.f[1].obj}
        c.ensures(e, c.state(e), ok, what, FN)


def show(masks):
    return ''.join(min((chr(b).lower() for b in range(256) if m >> b & 1), default='?') if bin(m).count('1') <= 2 else '?' for m in masks)


def same_map(a, b):
    return set(a) == set(b) and all(V.same(a[k], b[k]) for k in a)
