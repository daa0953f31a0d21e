"""C14: parsing a session description is total and strict.

parseMediaInfo and (in C16) parseRtpmapInfo and populateCodecs are proved for every text and every number of payload types.
Parse: the loop over the lines is cut at an arbitrary line; for each member of a partition of all lines (sdploop.shapes) the iteration
is proved to make exactly the prescribed change, and to fail exactly for malformed lines; what follows the loop is proved
to return a description exactly if the accumulated state is complete and every medium is right. Every index is proved in range."""
from .sdploop import *
from . import c16
from .lists import ev

REPLAY = [('sdp', 'TestVerifC14')]
SECS = 5
TRUSTED = STR_TRUST
ASSUME = ['texts have fewer than 2^40 lines']


def verify(c):
    c.section('parseMediaInfo', media, c)
    c.section('parseRtpmapInfo', c16.rtpmap, c)
    c.section('populateCodecs', c16.populate, c)
    p = ParseLoop(c, 'sdp.Parse')
    c.section('lines', lines, c, p)
    c.section('outcome', outcome, c, p)


def media(c):
    fn = c.fn('sdp.parseMediaInfo')
    e = engine(c, 'sdp.parseMediaInfo')
    e.byte_tables = True
    st = c.state(e)
    r = ratom('info')
    media_run(c, e, fn, st, r)


def media_run(c, e, fn, st, r, values=None, wellformed=False):
    """parseMediaInfo on a text; `values`: the payload type at k, when it is known."""
    k = atom('k', 0, BIG)
    n, at = pieces(e, st, r, b' ')
    stats = {'ok': 0, 'port': 0, 'pt': 0, 'few': 0, 'back': 0}
    N = ladd(n, -2)

    def pt(st):
        return m_parseuint(e, st, [at(e, st, ladd(k, 2)), 10, 8], {})

    def tabs(st):
        return [(o, t) for o, t in st.heap.items() if isinstance(t, Table)]

    def havoc(e, st, fr):
        st.pc.append(zbool(lcmp('<=', k, N)))
        st.ghost['in'] = True
        acc = [p for p in phis if isinstance(fr.regs[p], SliceV) and V.same(fr.regs[p].len, 0) and V.same(fr.regs[p].off, 0)]
        if len(acc) == 1:      # collected one by one
            st.heap['pts'] = Table('pts', k, None)
            fr.regs[acc[0]] = SliceV('pts', 0, k, k)
            st.ghost['acc'] = acc[0]
            return acc
        ts = tabs(st)
        e.prove(st, len(ts) == 1 and not ts[0][1].over, 'room for the payload types', 'invariant', fn=fn.name)
        for o, t in ts:
            e.prove(st, lcmp('==', t.size, N), 'room for one entry per payload type', 'invariant', fn=fn.name)
            st.heap[o] = Table('pts', t.size, None)

    def step(e, st, fr, heap):
        stats['back'] += 1
        v = pt(st)
        e.prove(st, isnil(v[1]), 'a payload type that is no number up to 255 is an error', 'post', fn=fn.name)
        if st.ghost.get('acc'):
            a = fr.regs[st.ghost['acc']]
            t = st.heap.get(a.obj) if isinstance(a, SliceV) else None
            ok = isinstance(t, Table) and t.name == 'pts' and V.same(a.off, 0) and V.same(norm(a.len), norm(ladd(k, 1)))
            e.prove(st, ok, 'one entry per payload type', 'post', fn=fn.name)
            if not ok:
                return
        else:
            t = tabs(st)[0][1]
        ok = len(t.over) == 1 and V.same(norm(t.over[0][0]), norm(k))
        e.prove(st, ok, 'entry k is payload type k', 'post', fn=fn.name)
        if ok:
            x = t.over[0][1]
            e.prove(st, lcmp('==', e.as_lin(x), norm(lin_of(e, v[0])) if values is None else values), 'payload types keep their value', 'post', fn=fn.name)
    heads = fn.loop_heads()
    if len(heads) != 1:
        raise Unsupported('parseMediaInfo has %d loops' % len(heads))
    head = list(heads)[0]
    phis = [i['n'] for i in fn.blocks[head]['instrs'][:fn.blocks[head]['nphi']]]
    Count(fn, head, k, havoc, step, frame=lambda o: o.startswith('make.')).install(e)
    for o in c.call(e, 'sdp.parseMediaInfo', [r], st):
        port, proto, pts, err = o.result
        for s, good, d in info_spec(e, o, r):
            if not good:
                stats['few'] += 1
                c.ensures(e, s, bnot(isnil(err)), 'a malformed media line is an error', fn.name)
                continue
            for s1, nil in both(e, s, isnil(err)):
                if nil:
                    stats['ok'] += 1
                    c.ensures(e, s1, e.equal(s1, port, X_low(e, s1, d[0], 16), None), 'the port is the one of the line', fn.name)
                    c.ensures(e, s1, e.rope_eq(s1, proto, d[1]), 'the protocol is the one of the line', fn.name)
                    ok = isinstance(pts, SliceV) and isinstance(s1.heap.get(pts.obj), Table) and pts.off == 0
                    c.ensures(e, s1, ok and lcmp('==', pts.len, N), 'one payload type for each in the line', fn.name)
                    c.ensures(e, s1, lcmp('==', k, N) if s1.ghost.get('in') else False, 'all payload types are read', fn.name)
                    c.ensures(e, s1, lcmp('>=', pts.len, 1), 'at least one payload type', fn.name)
                else:
                    stats['pt'] += 1
                    c.ensures(e, s1, bnot(isnil(pt(s1)[1])) if s1.ghost.get('in') else False, 'fails only for a malformed line', fn.name)
    want = ('ok', 'back') if wellformed else ('ok', 'pt', 'few', 'back')
    c.ensures(e, st, all(stats[x] for x in want), 'vacuity guard %s' % stats, fn.name)


def lin_of(e, v):
    return norm(e.as_lin(v))


def X_low(e, st, v, n):
    """The low bits of a 64 bit value."""
    if isinstance(v, int):
        return v & (1 << n) - 1
    if z3.is_bv(v):
        return z3.Extract(n - 1, 0, v) if v.size() > n else v
    return v


def lines(c, p):
    """One iteration of the loop, for every kind of line."""
    e0 = engine(c, 'shapes')
    names = [s.name for s, r in shapes(e0)]
    seen = {}
    for i, nm in enumerate(names):
        def line(e):
            s, r = shapes(e)[i]
            p.shape = s
            return r
        e, backs, outs = p.run(line)
        s = p.shape
        for st in outs:
            if st.ghost.get('head') is None:
                early(c, e, p, st)
                continue
            seen.setdefault(s.what + '!', 0)
            seen[s.what + '!'] += 1
            ev(e, st, lambda x: failed(c, e, p, x, s))
        for st, ch in backs:
            seen.setdefault(s.what, 0)
            seen[s.what] += 1
            ev(e, st, lambda x: transition(c, e, p, x, s, ch))
    need = ['skip', 's', 't', 'c', 'o', 'audio', 'video', 'rtpmap', 'fmtp', 'ptime', 'sendrecv', 'sendonly', 'recvonly', 'attr', 'other', 'c!', 'o!']
    miss = [x for x in need if not seen.get(x)]
    c.ensures(e, e_state(c, e), not miss, 'vacuity guard %s' % miss, p.fn.name)


def e_state(c, e):
    return c.state(e)


def early(c, e, p, st):
    """Returned before the first line."""
    r, err = st.result
    has_v = prefix(e, st, ratom('s'), rlit(b'v=0\r\n'))
    c.ensures(e, st, r.null if isinstance(r, Ptr) else False, 'an error and nothing else', p.fn.name)
    c.ensures(e, st, bnot(isnil(err)), 'an error is reported', p.fn.name)
    c.ensures(e, st, bor(bnot(has_v), lcmp('<', p.N, 2)), 'a text is refused at once only without version or lines', p.fn.name)


def failed(c, e, p, st, s):
    r, err = st.result
    c.ensures(e, st, r.null if isinstance(r, Ptr) else False, 'an error and nothing else', p.fn.name)
    c.ensures(e, st, bnot(isnil(err)), 'an error is reported', p.fn.name)
    c.ensures(e, st, s.what in 'co', 'only malformed connection and origin lines stop the parser (%s)' % s.name, p.fn.name)
    if s.what in 'co':
        for s1, ok, v in conn_spec(e, st, body(e, st, p, 2), 3 if s.what == 'c' else 6):
            c.ensures(e, s1, not ok, 'only malformed connection and origin lines stop the parser', p.fn.name)


def body(e, st, p, n):
    return rslice(p.line, n, rlen(p.line), lambda x: e.decide(st, x))


def transition(c, e, p, st, s, ch):
    B = lambda n: body(e, st, p, n)
    w = s.what
    f = 'line %s' % s.name
    only = lambda *a: p.only(e, st, ch, *a)

    def none(e=e, st=st, ch=ch):
        e.prove(st, not ch, '%s changes nothing' % f, 'post', fn=p.fn.name)
    if w in ('skip', 'sendrecv'):
        none()
    elif w in ('audio', 'video'):
        only(f, 'set', B(s.arg), w)
    elif w == 's':
        only(f, 'set', B(2), 'Session')
    elif w == 't':
        only(f, 'set', B(2), 'Time')
    elif w in ('rtpmap', 'fmtp'):
        only(f, 'append', B(s.arg), w)
    elif w == 'sendonly':
        flag(e, st, p, ch, f, 'SendOnly', True)
    elif w == 'recvonly':
        flag(e, st, p, ch, f, 'RecvOnly', True)
    elif w == 'ptime':
        v = m_atoi(e, st, [B(s.arg)], {})
        for s1, good in both(e, st, band(isnil(v[1]), lcmp('>', v[0], 0))):
            if good:
                p.only(e, s1, ch, f, 'set', v[0], 'Ptime')
            else:
                none(e, s1, ch)
    elif w == 'attr':
        r = B(2)
        if s.arg[0] == 'colon':
            i = index(e, st, r, rlit(b':'))
            dec = lambda x: e.decide(st, x)
            only(f, 'append', [rslice(r, 0, i, dec), rslice(r, ladd(i, 1), rlen(r), dec)], 'Attrs')
        else:
            only(f, 'append', [r, EMPTY], 'Attrs')
    elif w == 'other':
        only(f, 'append', [rslice(p.line, 0, 1, lambda x: e.decide(st, x)), B(2)], 'Other')
    elif w == 'o':
        h = st.ghost['head'].h
        for s1, ok, v in conn_spec(e, st, B(2), 6):
            e.prove(s1, ok, 'a malformed origin line is an error', 'post', fn=p.fn.name)
            if not ok:
                continue
            c1 = dict(ch)
            for g, x in zip(('User', 'ID', 'Version', 'Addr'), v):
                a = c1.pop('Origin.' + g, None)
                e.prove(s1, a is not None and a[0] == 'set' and e.rope_eq(s1, a[1], x), 'origin: %s is the one of the line' % g, 'post', fn=p.fn.name)
            flag(e, s1, p, c1, f, 'okOrigin')
    elif w == 'c':
        con = p.roles.get('okConn')
        for s1, ok, v in conn_spec(e, st, B(2), 3):
            c1 = dict(ch)
            if not c1:
                # an extra line: the first one counts
                p.extra = getattr(p, 'extra', []) + [s1]
                extra_conn(e, s1, p)
                continue
            e.prove(s1, ok, 'a malformed connection line is an error', 'post', fn=p.fn.name)
            if not ok:
                continue
            a = c1.pop('Addr', None)
            e.prove(s1, a is not None and a[0] == 'set' and e.rope_eq(s1, a[1], v[0]), 'the address is the one of the line', 'post', fn=p.fn.name)
            flag(e, s1, p, c1, f, 'okConn')


def flag(e, st, p, ch, f, name, val=None):
    """That the only change is a flag that gets its opposite value and keeps it from then on."""
    ok = len(ch) == 1 and list(ch.values())[0][0] == 'set'
    h = st.ghost['head'].h
    if not ch and name in p.roles:
        l = p.roles[name]
        e.prove(st, e.equal(st, h[l], p.value[name], None), '%s: the flag is set' % f, 'post', fn=p.fn.name)
        return
    e.prove(st, ok, '%s sets one flag%s' % (f, '' if ok else ' %s' % ch), 'post', fn=p.fn.name)
    if not ok:
        return
    (l, (w, v)), = ch.items()
    d = e.decide(st, v) if not isinstance(v, bool) else v
    e.prove(st, isinstance(d, bool) and isinstance(p.first[l], bool) and d != p.first[l], '%s: the flag was not set at first' % f, 'invariant', fn=p.fn.name)
    if val is not None:
        e.prove(st, l == name and d == val, '%s sets %s' % (f, name), 'post', fn=p.fn.name)
    p.value = getattr(p, 'value', {})
    p.value.setdefault(name, d)
    e.prove(st, p.value[name] == d, '%s sets the flag the same way each time' % f, 'invariant', fn=p.fn.name)
    p.role(e, st, name, l)


def extra_conn(e, st, p):
    l = p.roles.get('okConn')
    h = st.ghost['head'].h
    if l is None:
        fl = [x for x in p.first if isinstance(p.first[x], bool) and not isinstance(x, str)]
        c = False
        for x in fl:
            c = bor(c, h[x] if p.first[x] is False else bnot(h[x]))
        e.prove(st, c, 'a connection line is ignored only after another one', 'post', fn=p.fn.name)
        p.later = getattr(p, 'later', []) + [(e, st)]
        return
    e.prove(st, e.equal(st, h[l], p.value['okConn'], None), 'a connection line is ignored only after another one', 'post', fn=p.fn.name)


def outcome(c, p):
    for e, st in getattr(p, 'later', []):
        if 'okConn' not in p.roles:
            raise Unsupported('no line sets the address')
        extra_conn(e, st, p)
    e, backs, outs = p.run(None)
    fn = p.fn.name
    R = p.roles
    need = ('audio', 'video', 'rtpmap', 'fmtp', 'okConn', 'okOrigin', 'Session', 'Time', 'Ptime', 'Attrs', 'Other')
    for n in need:
        if n not in R:
            raise Unsupported('no line is for %s' % n)
    for n in ('Session', 'Time', 'Ptime', 'Attrs', 'Other'):
        c.ensures(e, c.state(e), R[n] == n, '%s is kept in its place' % n, fn)
    for f in ('SendOnly', 'RecvOnly'):
        c.ensures(e, c.state(e), p.first[f] is False, '%s is off at first' % f, fn)
    stats = {'ok': set(), 'err': set()}
    for st in outs:
        if st.ghost.get('head') is None:
            continue
        h = st.ghost['head'].h
        r, err = st.result
        a, v = h[R['audio']], h[R['video']]
        okc = e.equal(st, h[R['okConn']], p.value['okConn'], None)
        oko = e.equal(st, h[R['okOrigin']], p.value['okOrigin'], None)
        infos = list(st.ghost.get('infos', ()))
        reso = list(st.ghost.get('resolved', ()))
        blank = {w: e.rope_eq(st, x, EMPTY) for w, x in (('audio', a), ('video', v))}
        for s, nil in both(e, st, isnil(err)):
            c.ensures(e, s, (bnot(r.null) if nil else r.null) if isinstance(r, Ptr) else False, 'either an error or a description', fn)
            if not nil:
                # some reason
                why = bor(bnot(okc), bnot(oko))
                why = bor(why, band(blank['audio'], blank['video']))
                for x, ok in infos:
                    if not ok:
                        why = True
                        c.ensures(e, s, V.same(x, a) or V.same(x, v), 'media lines are judged by their text', fn)
                for x, ok in reso:
                    if not ok:
                        why = True
                c.ensures(e, s, why, 'fails only if a mandatory line or all media are missing, or a medium is malformed', fn)
                stats['err'].add(len(infos))
                continue
            c.ensures(e, s, okc, 'a description has a connection line', fn)
            c.ensures(e, s, oko, 'a description has an origin line', fn)
            c.ensures(e, s, bnot(band(blank['audio'], blank['video'])), 'a description has audio or video', fn)
            c.ensures(e, s, r.obj == p.sdp and r.path == (), 'the description is the one that was filled in', fn)
            d = dict(zip(p.sf, s.heap[p.sdp].f))
            for f in p.sf:
                if f == 'Origin':
                    for g, x in zip(p.of, d[f].f):
                        c.ensures(e, s, V.same(x, h['Origin.' + g]), 'Origin.%s stays' % g, fn)
                elif f not in ('Audio', 'Video'):
                    c.ensures(e, s, V.same(d[f], h[f]), '%s stays' % f, fn)
            for w, x, f in (('audio', a, 'Audio'), ('video', v, 'Video')):
                for s1, no in both(e, s, blank[w]):
                    m = e.res(s1, d[f])
                    if no:
                        c.ensures(e, s1, m.null, 'no %s without its line' % w, fn)
                        continue
                    stats['ok'].add(w)
                    n = 'info(%r)' % (x,)
                    c.ensures(e, s1, m.null is False and any(V.same(y, x) and ok for y, ok in infos), '%s has a well-formed line' % w, fn)
                    c.ensures(e, s1, any(y == 'pts:' + n and ok for y, ok in reso), '%s has its codecs' % w, fn)
                    if m.null is not False:
                        continue
                    mv = dict(zip(p.mf, e.load(s1, m).f))
                    c.ensures(e, s1, V.same(mv['Port'], z3.BitVec('port:' + n, 16)), '%s has the port of its line' % w, fn)
                    c.ensures(e, s1, V.same(mv['Proto'], ratom('proto:' + n)), '%s has the protocol of its line' % w, fn)
                    L = atom('npts:' + n, 1, BIG)
                    cs = mv['Codecs']
                    c.ensures(e, s1, isinstance(cs, SliceV) and cs.obj == 'codecs(pts:%s)' % n and cs.off == 0 and V.same(cs.len, L), '%s has one codec per payload type of its line' % w, fn)
    c.ensures(e, c.state(e), stats['ok'] == {'audio', 'video'} and len(stats['err']) >= 2, 'vacuity guard %s' % stats, fn)
