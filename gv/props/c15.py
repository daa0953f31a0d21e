"""C15: session descriptions survive formatting and parsing.

The writer is proved to write, for every well-formed description, a sequence of lines: each loop over a list is cut, and an
arbitrary iteration has to write the lines for entry k. Every line is then given to the contract of the parser
(sdploop, as in C14), which says what the parser makes of it: the value it was written from. Media lines go through
parseMediaInfo with the payload types the writer's loop produced, mapping lines through the contract of populateCodecs (C16)."""
from .c14 import *
from . import c14
from .lists import ev, B as decided

REPLAY = [('sdp', 'TestVerifC15')]
SECS = 5
TRUSTED = STR_TRUST
ASSUME = ['lists are shorter than 2^40', 'bytes.Buffer does not fail']
CRLF = b'\r\n'
SPECIAL = [b'rtpmap', b'fmtp', b'ptime', b'sendrecv', b'sendonly', b'recvonly']


def verify(c):
    w = Writer(c)
    c.section('Media.Append', w.media)
    c.section('Origin.Append', w.origin)
    c.section('SDP.Append', w.whole)
    c.section('String and Data', w.texts)
    c.section('reading the lines', w.read)
    c.section('outcome', c14.outcome, c, w.p)
    c.section('media lines', w.infos)
    c.section('mappings', w.mappings)
    c.section('populateCodecs', c16.populate, c)


class Writer:
    def __init__(self, c):
        self.c = c
        self.p = ParseLoop(c, 'sdp.Parse')
        self.sf, self.of, self.mf, self.cf = (fields(c, '@sdp.' + t) for t in ('SDP', 'Origin', 'Media', 'Codec'))
        self.lines = {}      # (rope, facts) -> (kind, values)
        self.minfo = []
        self.scratch = set()
        self.maps = []
        self.fmtp = []

    # -- a well-formed description
    def text(self, e, nm, without=b'', some=False):
        r = text(e, nm, CRLF + without)
        self.masks = getattr(self, 'masks', {})
        self.masks[nm] = e.atommask[nm]
        return r

    def codec(self, e, st, w, k):
        n = '%s.codec[%s]' % (w, k)
        d = {'PT': FB('pt:' + n), 'Name': self.text(e, 'name:' + n, b'/'), 'Rate': atom('rate:' + n, -(1 << 63), (1 << 63) - 1),
             'Param': self.text(e, 'param:' + n, b'/'), 'Fmtp': self.text(e, 'fmtp:' + n)}
        return d

    def medium(self, e, st, w):
        """Puts a medium with any number of codecs into the heap."""
        L = atom('len(%s.codecs)' % w, 1, BIG)
        o = w + '.codecs^'

        def at(e, st, i):
            if not any(V.same(norm(i), norm(k)) for k in st.ghost.get('loops', ())):
                raise Unsupported('codec %r' % (i,))
            d = self.codec(e, st, w, 'k')
            st.ghost['read:' + w] = True
            return StructV([d[f] for f in self.cf])
        st.heap[o] = SeqV(o, at)
        d = {'Proto': self.text(e, w + '.proto', b' '), 'Port': z3.BitVec(w + '.port', 16), 'Codecs': SliceV(o, 0, L, L)}
        st.heap[w] = StructV([d[f] for f in self.mf])
        return d, L

    # -- running a writer
    def loops(self, e, st0, ks):
        """Cuts every loop: `ks` the index of each in turn."""
        fails = []

        def hook(e, st, fr, blk, body):
            phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
            key = 'w:%s:%d:%d' % (fr.fn.name, fr.b, len(st.frames))
            if fr.prev not in body:
                cnt = [p for p in phis if isinstance(fr.regs[p], int) and not isinstance(fr.regs[p], bool) and counts(fr.fn, blk, p, body)]
                if len(cnt) != 1 or fr.regs[cnt[0]] not in (0, -1):
                    raise Unsupported('a loop over no list')
                n = len(st.ghost.get('loops', ()))
                k = ks(st, n)
                out = list(st.ghost.get('out', ()))
                out.append(('text', st.heap['b^'].rope))
                st.heap['b^'] = BufV(EMPTY)
                for o in st.heap:
                    if o in self.scratch:
                        st.heap[o] = V.POISON
                st.ghost['out'] = TupleV(out)
                st.ghost['loops'] = TupleV(list(st.ghost.get('loops', ())) + [k])
                c0 = fr.regs[cnt[0]]
                fr.regs[cnt[0]] = ladd(k, c0)
                st.ghost[key] = TupleV([cnt[0], c0, k])
                st.ghost[key + ':others'] = TupleV((p, fr.regs[p]) for p in phis if p not in cnt)
                st.ghost[key + ':heap'] = Snap(dict(st.heap))
                st.ghost['in:' + key] = True
                return None
            p, c0, k = st.ghost[key]
            e.prove(st, lcmp('==', fr.regs[p], ladd(k, c0 + 1)), 'the loop goes through the list one by one', 'invariant', fn=fr.fn.name)
            for q, v in st.ghost[key + ':others']:
                e.prove(st, same_val(e, st, fr.regs[q], v), 'the loop keeps %s' % q, 'invariant', fn=fr.fn.name)
            for o, v in st.ghost[key + ':heap'].h.items():
                if o != 'b^' and st.heap.get(o) is not v:
                    if '#' in o:
                        # a variable of the writer: its value at the start of an iteration must not matter
                        if v is not V.POISON:
                            self.scratch.add(o)
                        continue
                    e.prove(st, V.same(st.heap.get(o), v), 'writing changes nothing but the text', 'frame', fn=fr.fn.name)
            self.backs.append((st, len(st.ghost['loops']) - 1, st.heap['b^'].rope))
            raise X.PathDone()

        class Hooks(dict):
            def get(self, key, d=None):
                return hook if key == '*' else None
        e.inv = Hooks()
        self.backs = []

    def call(self, e, name, args, st):
        while True:
            n = len(self.scratch)
            self.backs = []
            outs = self.c.call(e, name, args, st.clone())
            if len(self.scratch) == n:
                return outs

    def segments(self, st):
        """The text written: ('text', rope) | ('loop', n) in order."""
        out, n = [], 0
        for kind, r in st.ghost.get('out', ()):
            out += [('text', r), ('loop', n)]
            n += 1
        return out + [('text', st.heap['b^'].rope)]

    def facts(self, st, e, rope):
        """What is known about the texts of a line."""
        f = []
        for s in rope:
            if s[0] == 'A' and e.decide(st, lcmp('>=', V.atom_len(s[1]), 1)) is True:
                f.append(s[1])
        return tuple(sorted(set(f)))

    def split_lines(self, e, st, rope, last=None):
        """The lines of a text; what comes after the last line break is last."""
        ps = split(e, st, rope, rlit(CRLF))
        if ps is None:
            raise Unsupported('lines of %r' % (rope,))
        return ps

    # -- Media.Append
    def media(self):
        c = self.c
        fn = c.fn('(*sdp.Media).Append')
        C = {}
        for w in ('audio', 'video'):
            e = engine(c, '(*sdp.Media).Append')
            st = c.state(e)
            st.heap['b^'] = BufV(EMPTY)
            d, L = self.medium(e, st, w)
            self.loops(e, st, lambda st, n: atom('k%d' % n, 0, BIG))
            heap0 = dict(st.heap)
            e.assume(st, zbool(lcmp('>=', V.atom_len('name:%s.codec[k]' % w), 1)))
            outs = self.call(e, '(*sdp.Media).Append', [Ptr(w), rlit(w.encode()), Ptr('b^')], st)
            backs = list(self.backs)
            seen = set()
            for o in outs:
                for q in o.ghost.get('loops', ()):
                    c.ensures(e, o, lcmp('>=', q, L), 'all codecs are written', fn.name)
                for ob, v in heap0.items():
                    if ob != 'b^' and o.heap[ob] is not v:
                        c.ensures(e, o, V.same(o.heap[ob], v), 'writing changes nothing but the text', fn.name)
                self.media_text(e, o, w, d, [x for x in backs], fn)
                seen.add(e.decide(o, e.rope_eq(o, d['Proto'], EMPTY)))
            c.ensures(e, st, seen == {True, False}, 'vacuity guard', fn.name)

    def media_text(self, e, st, w, d, backs, fn):
        c = self.c
        # per loop: the iterations
        it = {}
        for s, n, rope in backs:
            it.setdefault(n, []).append((s, rope))
        segs = self.segments(st)
        cur, lines, covered = EMPTY, [], []
        pts = 'pts:' + w
        cod = self.codec(e, st, w, 'k')
        want = rcat(rlit(b' '), models.digits(norm(cod['PT'].lin())))
        for kind, x in segs:
            if kind == 'loop':
                if x not in it:
                    c.ensures(e, st, False, 'a loop never goes on', fn.name)
                    continue
                if all(split(e, s, r, rlit(CRLF)) is not None and len(split(e, s, r, rlit(CRLF))) == 1 for s, r in it[x]):
                    # within a line: the payload types
                    for s, r in it[x]:
                        c.ensures(e, s, e.rope_eq(s, r, want), 'each payload type is written after a space', fn.name)
                    e.atommask[pts] = mask_bytes(b' 0123456789')
                    cur = rcat(cur, ratom(pts))
                    covered.append('pts')
                    continue
                c.ensures(e, st, len(cur) == 0, 'mapping lines start on a line of their own', fn.name)
                for s, r in it[x]:
                    self.codec_lines(e, s, w, cod, r, fn)
                covered.append('codecs')
                continue
            ps = self.split_lines(e, st, rcat(cur, x))
            lines += ps[:-1]
            cur = ps[-1]
        c.ensures(e, st, len(cur) == 0, 'the last line of a medium is complete', fn.name)
        c.ensures(e, st, covered == ['pts', 'codecs'], 'all payload types and their mappings are written', fn.name)
        c.ensures(e, st, len(lines) == 1, 'a medium has one media line', fn.name)
        blank = e.decide(st, e.rope_eq(st, d['Proto'], EMPTY))
        for r in lines:
            pre = rlit(b'm=' + w.encode() + b' ')
            ok = decided(e, st, prefix(e, st, r, pre))
            c.ensures(e, st, ok, 'a media line names its kind', fn.name)
            if ok:
                self.line(e, st, r, w, None)
                self.minfo.append((w, blank, st, rslice(r, rlen(pre), rlen(r), lambda x: e.decide(st, x))))

    def codec_lines(self, e, st, w, cod, r, fn):
        """The mapping lines of codec k."""
        c = self.c
        ps = self.split_lines(e, st, r)
        c.ensures(e, st, len(ps[-1]) == 0, 'mapping lines are complete', fn.name)
        par = decided(e, st, bnot(e.rope_eq(st, cod['Param'], EMPTY)))
        fm = decided(e, st, bnot(e.rope_eq(st, cod['Fmtp'], EMPTY)))
        nmap = nf = 0
        for x in ps[:-1]:
            if decided(e, st, prefix(e, st, x, rlit(b'a=rtpmap:'))):
                nmap += 1
                self.line(e, st, x, 'rtpmap', None)
                self.maps.append((w, e, st, rslice(x, 9, rlen(x), lambda q: e.decide(st, q))))
            elif decided(e, st, prefix(e, st, x, rlit(b'a=fmtp:'))):
                nf += 1
                self.line(e, st, x, 'fmtp', None)
                self.fmtp.append((w, e, st, rslice(x, 7, rlen(x), lambda q: e.decide(st, q))))
            else:
                c.ensures(e, st, False, 'a codec is written as mapping and format line only: %r' % (x,), fn.name)
        c.ensures(e, st, nmap == 1, 'each codec has its mapping', fn.name)
        c.ensures(e, st, nf == (1 if fm else 0), 'a codec has a format line exactly if it has a format', fn.name)

    def line(self, e, st, rope, kind, vals):
        key = (rope, self.facts(st, e, rope), kind)
        old = self.lines.get(key)
        if old is None:
            self.lines[key] = vals
        elif not V.same(old, vals):
            raise Unsupported('a line with two meanings')

    # -- Origin.Append
    def origin(self):
        c = self.c
        name = '(*sdp.Origin).Append'
        fn = c.fn(name)

        def gen(e, st, a, ins):
            e.atommask['genid'] = mask_bytes(b'0123456789')
            self.masks['genid'] = e.atommask['genid']
            e.assume(st, zbool(lcmp('>=', V.atom_len('genid'), 1)))
            return ratom('genid')
        e = engine(c, name, {'util.GenerateOriginID': gen})
        st = c.state(e)
        st.heap['b^'] = BufV(EMPTY)
        o = self.originv(e)
        st.heap['origin'] = StructV([o[f] for f in self.of])
        heap0 = dict(st.heap)
        stats = {}
        for q in c.call(e, name, [Ptr('origin'), Ptr('b^')], st):
            for ob, x in heap0.items():
                if ob != 'b^' and q.heap[ob] is not x:
                    c.ensures(e, q, V.same(q.heap[ob], x), 'writing changes nothing but the text', fn.name)
            ev(e, q, lambda s: self.origin_text(e, s, o, fn, stats))
        ok = all(stats.get(x) == {True, False} for x in ('User', 'ID', 'Version', 'Addr', 'six'))
        c.ensures(e, st, ok, 'vacuity guard %s' % ('' if ok else stats), fn.name)

    def originv(self, e):
        T = self.text
        return {'User': T(e, 'user', b' '), 'ID': T(e, 'id', b' '), 'Version': T(e, 'version', b' '), 'Addr': T(e, 'oaddr', b' /')}

    def origin_text(self, e, st, o, fn, stats):
        P = lambda x, w: self.c.ensures(e, st, x, w, fn.name)
        ps = self.split_lines(e, st, st.heap['b^'].rope)
        P(len(ps) == 2 and not ps[-1], 'the origin is one line')
        if len(ps) != 2:
            return
        r = ps[0]
        ok = decided(e, st, prefix(e, st, r, rlit(b'o=')))
        P(ok, 'the origin line starts with o=')
        b = {f: decided(e, st, e.rope_eq(st, o[f], EMPTY)) for f in self.of}
        for f in b:
            stats.setdefault(f, set()).add(b[f])
        id_ = ratom('genid') if b['ID'] else o['ID']
        want = [rlit(b'-') if b['User'] else o['User'], id_, id_ if b['Version'] else o['Version'], rlit(b'69.28.157.198') if b['Addr'] else o['Addr']]
        self.line(e, st, r, 'o', TupleV(want))
        six = decided(e, st, has(e, st, want[3], rlit(b':')))
        stats.setdefault('six', set()).add(six)
        self.label(e, st, r, 4, six, fn)

    def label(self, e, st, r, at, six, fn):
        n, tok = pieces(e, st, rslice(r, 2, rlen(r), lambda x: e.decide(st, x)), b' ')
        ok = isinstance(n, int) and n > at
        self.c.ensures(e, st, ok and e.rope_eq(st, tok(e, st, at), rlit(b'IP6' if six else b'IP4')), 'the address of the %c= line is labelled as what it is' % r[0][1][0], fn.name)

    # -- SDP.Append
    def whole(self):
        c = self.c
        fn = c.fn('(*sdp.SDP).Append')

        def origin(e, st, a, ins):
            o, b = e.res(st, a[0]), e.res(st, a[1])
            e.prove(st, o.obj == 'sdp' and o.path == (self.sf.index('Origin'),), 'the origin of the description is written', 'pre', fn=fn.name)
            e.prove(st, b.obj == 'b^' and b.path == (), 'the origin is written to the text', 'pre', fn=fn.name)
            e.atommask['ORIGIN'] = mask_bytes(b'O')
            st.heap['b^'] = BufV(rcat(st.heap['b^'].rope, ratom('ORIGIN')))
            return None

        def media(e, st, a, ins):
            m, k, b = e.res(st, a[0]), e.res(st, a[1]), e.res(st, a[2])
            if isinstance(m, Ptr) and m.null is not False:
                n = decided(e, st, m.null)
                e.prove(st, not n, 'a medium that is written exists', 'pre', fn=fn.name)
            ok = isinstance(m, Ptr) and m.obj in ('audio', 'video') and k == rlit((m.obj or '').encode())
            e.prove(st, ok, 'a medium is written as what it is', 'pre', fn=fn.name)
            e.prove(st, b.obj == 'b^' and b.path == (), 'a medium is written to the text', 'pre', fn=fn.name)
            e.atommask['MEDIUM:' + m.obj] = mask_bytes(b'M')
            st.heap['b^'] = BufV(rcat(st.heap['b^'].rope, ratom('MEDIUM:' + m.obj)))
            return None
        done = {}
        # the header, the media and the rest: each optional field by itself
        e = engine(c, '(*sdp.SDP).Append', {'(*sdp.Origin).Append': origin, '(*sdp.Media).Append': media})
        st = c.state(e)
        st.heap['b^'] = BufV(EMPTY)
        v = self.description(e, st)
        heap0 = dict(st.heap)
        ks = [atom('ka', 0, BIG), atom('ko', 0, BIG)]
        self.loops(e, st, lambda st, n: self.which(st, ks, n))
        self.ks = dict(zip(('attrs', 'other'), ks))
        outs = self.call(e, '(*sdp.SDP).Append', [Ptr('sdp'), Ptr('b^')], st)
        backs = list(self.backs)
        it = {}
        for s, n, rope in backs:
            it.setdefault(repr(s.ghost['loops'][n]), []).append((s, rope))
        self.entries(e, fn, it)
        stats = {}
        for o in outs:
            for ob, x in heap0.items():
                if ob != 'b^' and o.heap[ob] is not x:
                    c.ensures(e, o, V.same(o.heap[ob], x), 'writing changes nothing but the text', fn.name)
            ev(e, o, lambda s: self.whole_text(e, s, v, fn, stats))
        ok = all(stats.get(x) == {True, False} for x in ('addr', 'session', 'time', 'audio', 'video', 'ptime', 'ip6')) \
            and stats.get('dir') == {'sendonly', 'recvonly', 'sendrecv'}
        c.ensures(e, st, ok, 'vacuity guard %s' % ('' if ok else stats), fn.name)

    def which(self, st, ks, n):
        return ks[n] if n < len(ks) else atom('k%d' % n, 0, BIG)

    def description(self, e, st):
        T = self.text
        o = self.originv(e)
        v = {'Origin': StructV([o[f] for f in self.of]), 'Addr': T(e, 'addr', b' /'), 'Session': T(e, 'session'), 'Time': T(e, 'time'),
             'Audio': Ptr('audio', (), z3.Bool('no audio')), 'Video': Ptr('video', (), z3.Bool('no video')), 'Ptime': atom('ptime', 0, (1 << 63) - 1),
             'SendOnly': z3.Bool('sendonly'), 'RecvOnly': z3.Bool('recvonly')}
        st.pc.append(z3.Not(z3.And(v['SendOnly'], v['RecvOnly'])))
        st.pc.append(z3.Not(z3.And(z3.Bool('no audio'), z3.Bool('no video'))))
        for w in ('audio', 'video'):
            e.objtypes[w] = self.c.prog.type_by_name('@sdp.Media')
        for f, nm in (('Attrs', 'attrs'), ('Other', 'other')):
            L = atom('len(%s)' % nm, 0, BIG)

            def at(e, st, i, nm=nm):
                k = self.ks[nm]
                # the loop that reads a list is the loop over it
                for q in st.ghost.get('loops', ()):
                    if V.same(norm(i), norm(q)):
                        st.ghost['over:' + repr(q)] = nm
                        return ArrV(self.entry(e, nm, 'k'))
                raise Unsupported('entry %r of %s' % (i, nm))
            st.heap[nm + '^'] = SeqV(nm, at)
            v[f] = SliceV(nm + '^', 0, L, L)
        if sorted(v) != sorted(self.sf):
            raise Unsupported('the fields of SDP have changed')
        st.heap['sdp'] = StructV([v[f] for f in self.sf])
        return v

    def entry(self, e, nm, k):
        if nm == 'attrs':
            return [self.text(e, 'attrname', b':'), self.text(e, 'attrvalue')]
        e.atommask['othername'] = V.ALL & ~mask_bytes(b'mstcao=\r\n')
        self.masks['othername'] = e.atommask['othername']
        return [mkrope([('B', FB('el:othername[0]'))]), self.text(e, 'othervalue')]

    def entries(self, e, fn, it):
        """What the loops over the attributes and the other lines write for entry k."""
        c = self.c
        seen = set()
        for k, l in it.items():
            for s, r in l:
                # well-formed: attributes have names, other lines have contents
                nm = s.ghost.get('over:' + k)
                n, v = self.entry(e, nm, 'k') if nm else (None, None)
                if nm is None:
                    c.ensures(e, s, False, 'a loop over no list', fn.name)
                    continue
                if not e.assume(s, zbool(lcmp('>=', rlen(n if nm == 'attrs' else v), 1))):
                    continue
                seen.add(nm)

                def check(s):
                    ps = self.split_lines(e, s, r)
                    c.ensures(e, s, len(ps) == 2 and len(ps[1]) == 0, 'one line for each entry of %s' % nm, fn.name)
                    if len(ps) != 2:
                        return
                    if nm == 'attrs':
                        decided(e, s, e.rope_eq(s, v, EMPTY))
                        blank = e.decide(s, e.rope_eq(s, v, EMPTY))
                        seen.add(blank)
                        self.line(e, s, ps[0], 'attr', TupleV([n, EMPTY if blank else v]))
                    else:
                        self.line(e, s, ps[0], 'other', TupleV([n, v]))
                ev(e, s, check)
        c.ensures(e, c.state(e), seen == {'attrs', 'other', True, False}, 'vacuity guard %s' % seen, fn.name)

    def whole_text(self, e, st, v, fn, stats):
        c = self.c
        D = lambda x: decided(e, st, x)
        blank = lambda x: D(e.rope_eq(st, x, EMPTY))
        lists, lines, cur, flat = [], 0, EMPTY, []
        segs = self.segments(st)

        def marks(r):
            # origin and media stand between lines
            while r and r[0][0] == 'A' and r[0][1].split(':')[0] in ('MEDIUM', 'ORIGIN'):
                flat.append(('medium', r[0][1][7:]))
                r = mkrope(r[1:])
            return r
        for kind, x in segs:
            if kind == 'loop':
                cur = marks(cur)
                c.ensures(e, st, len(cur) == 0, 'entries start on a line of their own', fn.name)
                lists.append(st.ghost['loops'][x])
                continue
            ps = self.split_lines(e, st, rcat(cur, x))
            for r in ps[:-1]:
                flat.append(('line', marks(r)))
            cur = ps[-1]
        cur = marks(cur)
        c.ensures(e, st, not cur, 'the last line is complete', fn.name)
        # which loop is over which list is known from the iterations
        for f, nm in (('Attrs', 'attrs'), ('Other', 'other')):
            L = v[f].len
            over = [k for k in lists if self.loopname(k) == nm]
            if over:
                c.ensures(e, st, len(over) == 1 and lcmp('>=', over[0], L), 'all %s are written once' % nm, fn.name)
            else:
                c.ensures(e, st, lcmp('==', L, 0), 'all %s are written' % nm, fn.name)
        got = {}
        for kind, r in flat:
            if kind == 'medium':
                got.setdefault('media', []).append(r)
                continue
            for pre, nm in ((b'v=', 'v'), (b's=', 's'), (b'c=', 'c'), (b't=', 't'), (b'a=ptime:', 'ptime'), (b'a=sendrecv', 'sendrecv'), (b'a=sendonly', 'sendonly'),
                            (b'a=recvonly', 'recvonly')):
                if D(prefix(e, st, r, rlit(pre))):
                    got.setdefault(nm, []).append(r)
                    break
            else:
                c.ensures(e, st, False, 'a line of no kind: %r' % (r,), fn.name)
        P = lambda x, w: c.ensures(e, st, x, w, fn.name)
        first = segs[0][1]
        P(bool(first) and first[0][0] == 'L' and first[0][1].startswith(b'v=0\r\n') and len(got.get('v', ())) == 1, 'the text starts with the version')
        for nm in 'sct':
            P(len(got.get(nm, ())) == 1, 'one %s= line' % nm)
        no = {w: D(v[w.capitalize()].null) for w in ('audio', 'video')}
        P(sorted(got.get('media', [])) == [''] + [w for w in ('audio', 'video') if not no[w]], 'each medium is written once')
        for w in no:
            stats.setdefault(w, set()).add(no[w])
        pt = D(lcmp('>', v['Ptime'], 0))
        P(len(got.get('ptime', ())) == (1 if pt else 0), 'the packet time is written exactly if there is one')
        d = 'sendonly' if D(v['SendOnly']) else 'recvonly' if D(v['RecvOnly']) else 'sendrecv'
        P(all(len(got.get(x, ())) == (x == d) for x in ('sendonly', 'recvonly')) and all(e.rope_eq(st, r, rlit(b'a=' + x.encode())) is True for x in ('sendrecv', 'sendonly', 'recvonly') for r in got.get(x, ())), 'the direction is written')
        stats.setdefault('dir', set()).add(d)
        if any(len(got.get(nm, ())) != 1 for nm in 'sct'):
            return
        fall = rlit(b'69.28.157.198')
        b = {}
        for nm, x in (('addr', v['Addr']), ('session', v['Session']), ('time', v['Time'])):
            b[nm] = blank(x)
            stats.setdefault(nm, set()).add(b[nm])
        stats.setdefault('ptime', set()).add(pt)
        a = fall if b['addr'] else v['Addr']
        self.line(e, st, got['c'][0], 'c', TupleV([a]))
        six = D(has(e, st, a, rlit(b':')))
        stats.setdefault('ip6', set()).add(six)
        self.label(e, st, got['c'][0], 1, six, fn)
        body = lambda r: rslice(r, 2, rlen(r), lambda x: e.decide(st, x))
        P(lcmp('>=', rlen(body(got['s'][0])), 1), 'a session name is written')
        if not b['session']:
            self.line(e, st, got['s'][0], 's', TupleV([v['Session']]))
        else:
            P(all(s[0] == 'L' for s in got['s'][0]), 'a blank session name is written as the default')
            self.line(e, st, got['s'][0], 's', TupleV([body(got['s'][0])]))
        self.line(e, st, got['t'][0], 't', TupleV([rlit(b'0 0') if b['time'] else v['Time']]))
        if pt and got.get('ptime'):
            self.line(e, st, got['ptime'][0], 'ptime', TupleV([v['Ptime']]))
        for x in ('sendrecv', 'sendonly', 'recvonly'):
            for r in got.get(x, ()):
                self.line(e, st, r, x, None)

    def loopname(self, k):
        for s, n, rope in self.backs:
            q = s.ghost['loops'][n]
            if V.same(norm(q), norm(k)):
                return s.ghost.get('over:' + repr(q))
        return None

    def texts(self):
        """String and Data return what Append writes."""
        c = self.c
        for name in ('(*sdp.SDP).String', '(*sdp.SDP).Data'):
            fn = c.fn(name)

            def app(e, st, a, ins):
                s, b = e.res(st, a[0]), e.res(st, a[1])
                e.prove(st, V.same(nn(s), Ptr('sdp')), 'the description itself is written', 'pre', fn=fn.name)
                v = e.load(st, b)
                e.store(st, b, BufV(rcat(v.rope, ratom('TEXT'))))
                return None
            e = engine(c, name, {'(*sdp.SDP).Append': app})
            st = c.state(e)
            e.objtypes['sdp'] = c.prog.type_by_name('@sdp.SDP')
            null = z3.Bool('sdp==nil')
            seen = set()
            for o in c.call(e, name, [Ptr('sdp', (), null)], st):
                r = o.result
                for s, no in both(e, o, null):
                    seen.add(no)
                    if isinstance(r, SliceV):
                        r1 = e.slice_rope(s, r)
                    else:
                        r1 = r
                    c.ensures(e, s, e.rope_eq(s, r1, EMPTY if no else ratom('TEXT')), 'the text is what Append writes', fn.name)
            c.ensures(e, st, seen == {True, False}, 'vacuity guard', fn.name)

    # -- the parser on what was written
    def read(self):
        c, p = self.c, self.p
        kinds = set()
        # connection and origin lines last: whether lines are ignored depends on flags
        for (rope, facts, kind), vals in sorted(self.lines.items(), key=lambda x: (x[0][2], repr(x[0]))):
            kinds.add(kind)

            def line(e):
                for n, m in self.masks.items():
                    e.atommask[n] = m
                for w in ('audio', 'video'):
                    e.atommask['pts:' + w] = mask_bytes(b' 0123456789')
                return rope

            def facts_in(e, st):
                for a in facts:
                    e.assume(st, lcmp('>=', V.atom_len(a), 1))
                e.assume(st, zbool(lcmp('>=', atom('ptime', 0, (1 << 63) - 1), 1)))
                if kind == 'attr':
                    for w in SPECIAL:
                        e.assume(st, bnot(e.rope_eq(st, ratom('attrname'), rlit(w))))
            p.facts = facts_in
            e, backs, outs = p.run(line)
            p.facts = None
            arg = {'audio': 8, 'video': 8, 'rtpmap': 9, 'fmtp': 7, 'ptime': 8, 's': 2, 't': 2}.get(kind)
            if kind == 'attr':
                arg = ('colon', 2) if len(vals[1]) else ('name', 2)
            s = Shape(kind, kind, rope, arg)
            p.shape = s
            for st in outs:
                if st.ghost.get('head') is not None:
                    c.ensures(e, st, False, 'a written line is not refused: %s' % kind, p.fn.name)
            c.ensures(e, c.state(e), len(backs) >= 1, 'the %s line is read' % kind, p.fn.name)
            for st, ch in backs:
                ev(e, st, lambda x: c14.transition(c, e, p, x, s, ch))
                ev(e, st, lambda x: self.value(e, x, s, ch, vals))
        need = {'o', 's', 'c', 't', 'audio', 'video', 'rtpmap', 'fmtp', 'attr', 'other', 'ptime', 'sendrecv', 'sendonly', 'recvonly'}
        c.ensures(e, c.state(e), kinds == need, 'vacuity guard %s' % (kinds ^ need), p.fn.name)
        c.ensures(e, c.state(e), all(p.first[x] == v for x, v in (('Ptime', 0), ('SendOnly', False), ('RecvOnly', False))), 'packet time and direction start blank', p.fn.name)

    def value(self, e, st, s, ch, vals):
        """That what the parser keeps is what was written."""
        c, p = self.c, self.p
        k = s.what
        P = lambda x, w: c.ensures(e, st, x, w, p.fn.name)
        if k == 'o':
            for f, x in zip(('User', 'ID', 'Version', 'Addr'), vals):
                a = ch.get('Origin.' + f)
                P(a is not None and e.rope_eq(st, a[1], x), 'Origin.%s is read as it was written' % f)
        elif k == 'c':
            if ch:
                P('Addr' in ch and e.rope_eq(st, ch['Addr'][1], vals[0]), 'the address is read as it was written')
        elif k in ('s', 't'):
            f = {'s': 'Session', 't': 'Time'}[k]
            P(f in ch and e.rope_eq(st, ch[f][1], vals[0]), '%s is read as it was written' % f)
        elif k == 'ptime':
            P('Ptime' in ch and e.equal(st, ch['Ptime'][1], vals[0], None), 'the packet time is read as it was written')
        elif k in ('attr', 'other'):
            f = {'attr': 'Attrs', 'other': 'Other'}[k]
            P(f in ch and ch[f][0] == 'append' and p.equal_arr(e, st, ch[f][1], list(vals)), '%s are read as they were written' % f)

    # -- media lines and mappings
    def infos(self):
        c = self.c
        fn = c.fn('sdp.parseMediaInfo')
        c.obligation({x[:2] for x in self.minfo} == {(w, b) for w in ('audio', 'video') for b in (True, False)}, 'vacuity guard')
        for w, blank, st0, r in self.minfo:
            e = engine(c, 'sdp.parseMediaInfo')
            e.byte_tables = True
            for n, m in self.masks.items():
                e.atommask[n] = m
            st = c.state(e)
            k = atom('k', 0, BIG)
            L = atom('len(%s.codecs)' % w, 1, BIG)
            port = z3.BitVec(w + '.port', 16)
            pt = FB('pt:%s.codec[k]' % w)
            proto = rlit(b'RTP/AVP') if blank else ratom(w + '.proto')
            head = rcat(rcat(models.digits(e.as_lin(port)), rlit(b' ')), proto)
            c.ensures(e, st0, e.rope_eq(st0, r, rcat(head, ratom('pts:' + w))), 'a media line has port, protocol and payload types', fn.name)

            def at(e, st, i):
                if V.same(norm(i), 0):
                    return models.digits(e.as_lin(port))
                if V.same(norm(i), 1):
                    return proto
                if V.same(norm(i), norm(ladd(k, 2))):
                    return models.digits(norm(pt.lin()))
                raise Unsupported('piece %r' % (i,))

            def on_split(st, x, sep, n):
                # the payload types were written one by one, each after a space (Media.Append)
                if V.same(x, r) and V.same(sep, rlit(b' ')):
                    if n is None:
                        return ladd(L, 2), at
                    st.heap['pieces'] = SeqV('pieces', at)
                    N = ladd(L, 2)
                    return SliceV('pieces', 0, N, N)
                return None
            e.on_split = on_split
            ok = media_run(c, e, fn, st, r, wellformed=True)
            for s, good, d in info_spec(e, st.clone(), r):
                c.ensures(e, s, good, 'a written media line is well-formed', fn.name)
                if good:
                    c.ensures(e, s, e.equal(s, X_low(e, s, d[0], 16), port, None), 'the port is read as it was written', fn.name)
                    c.ensures(e, s, e.rope_eq(s, d[1], proto), 'the protocol is read as it was written', fn.name)
                    c.ensures(e, s, lcmp('==', d[2], L), 'as many payload types as were written', fn.name)
                    v = d[3](e, s, k)
                    c.ensures(e, s, isnil(v[1]), 'payload types are written as numbers', fn.name)
                    c.ensures(e, s, lcmp('==', e.as_lin(v[0]), norm(pt.lin())), 'payload types are read as they were written', fn.name)

    def mappings(self):
        """By the contract of populateCodecs the first mapping and format line for a payload type count: these are its own."""
        c = self.c
        fn = 'sdp.populateCodecs'
        c.obligation({x[0] for x in self.maps} == {'audio', 'video'} == {x[0] for x in self.fmtp}, 'vacuity guard')
        for w, e, st, r in self.maps + self.fmtp:
            d = self.codec(e, st, w, 'k')
            q = rcat(models.digits(norm(d['PT'].lin())), rlit(b' '))
            other = FB('other pt')
            c.ensures(e, st, prefix(e, st, r, q), 'a mapping line is for its own payload type', fn)
            s1 = st.clone()
            if e.assume(s1, bnot(lcmp('==', norm(other.lin()), norm(d['PT'].lin())))):
                c.ensures(e, s1, bnot(prefix(e, s1, r, rcat(models.digits(norm(other.lin())), rlit(b' ')))), 'a mapping line is for no other payload type', fn)
        for w, e, st, r in self.maps:
            d = self.codec(e, st, w, 'k')
            q = rcat(models.digits(norm(d['PT'].lin())), rlit(b' '))
            t = rslice(r, rlen(q), rlen(r), lambda x: e.decide(st, x))
            zero = dict(PT=d['PT'], Name=EMPTY, Rate=0, Param=EMPTY, Fmtp=EMPTY)
            for s, bad, cd in c16.rtpmap_spec(e, st.clone(), t, zero):
                c.ensures(e, s, not bad, 'a written mapping is well-formed', fn)
                if bad:
                    continue
                for n in ('PT', 'Name', 'Rate', 'Param'):
                    c.ensures(e, s, same_val(e, s, cd[n], d[n]), '%s of a codec is read as it was written' % n, fn)
                c.ensures(e, s, bnot(e.rope_eq(s, cd['Name'], EMPTY)), 'the mapping counts', fn)
        for w, e, st, r in self.fmtp:
            d = self.codec(e, st, w, 'k')
            q = rcat(models.digits(norm(d['PT'].lin())), rlit(b' '))
            t = rslice(r, rlen(q), rlen(r), lambda x: e.decide(st, x))
            c.ensures(e, st, e.rope_eq(st, t, d['Fmtp']), 'the format of a codec is read as it was written', fn)


def nn(p):
    return Ptr(p.obj, p.path, False)
