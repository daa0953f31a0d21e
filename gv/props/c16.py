"""C16: offered payload types resolve to the right codecs.

parseRtpmapInfo is proved for every text.  populateCodecs: the loop over the payload types is cut (arbitrary position k, arbitrary
earlier entries), the searches through the mapping and format lines carry the invariant "no line before j is for this type",
so the line taken is the first one.  The standard table is compared with RFC 3551."""
from .sdpx import *

REPLAY = [('sdp', 'TestVerifC16')]
SECS = 5
TRUSTED = STR_TRUST
ASSUME = ['lists are shorter than 2^40']
STANDARD = {0: ('PCMU', 8000, ''), 3: ('GSM', 8000, ''), 4: ('G723', 8000, ''), 5: ('DVI4', 8000, ''), 6: ('DVI4', 16000, ''), 7: ('LPC', 8000, ''),
            8: ('PCMA', 8000, ''), 9: ('G722', 8000, ''), 10: ('L16', 44100, '2'), 11: ('L16', 44100, ''), 12: ('QCELP', 8000, ''),
            13: ('CN', 8000, ''), 14: ('MPA', 90000, ''), 15: ('G728', 8000, ''), 16: ('DVI4', 11025, ''), 17: ('DVI4', 22050, ''),
            18: ('G729', 8000, ''), 25: ('CelB', 90000, ''), 26: ('JPEG', 90000, ''), 28: ('nv', 90000, ''), 31: ('H261', 90000, ''),
            32: ('MPV', 90000, ''), 33: ('MP2T', 90000, ''), 34: ('H263', 90000, '')}


def verify(c):
    c.section('table', table, c)
    c.section('parseRtpmapInfo', rtpmap, c)
    c.section('populateCodecs', populate, c)


def table(c):
    m = c.globals()
    e = engine(c, 'sdp.StandardCodecs')
    st = c.state(e)
    t = e.objval(st, 'g:' + MOD + 'sdp.StandardCodecs')
    t = e.objval(st, t.obj) if isinstance(t, Ptr) else t
    c.obligation(isinstance(t, MapV) and len(t.d) > 0, 'the standard table is known')
    f = fields(c, '@sdp.Codec')
    for k, v in t.d.items():
        g = dict(zip(f, v.f))
        want = STANDARD.get(k)
        nm = [b''.join(s[1] for s in g[n]).decode() for n in ('Name', 'Param', 'Fmtp')]
        c.obligation(want is not None and g['PT'] == k and nm[0].lower() == want[0].lower() and g['Rate'] == want[1] and nm[1] in (want[2], '1' if not want[2] else want[2]),
                     'standard payload type %s is what RFC 3551 says' % k, '%s %s %s' % (nm, g['Rate'], want))


def rtpmap(c):
    fn = 'sdp.parseRtpmapInfo'
    e = engine(c, fn)
    st = c.state(e)
    T = c.prog.type_by_name('@sdp.Codec')
    e.objtypes['codec'] = T
    s = ratom('info')
    old = e.objval(st, 'codec')
    f = fields(c, '@sdp.Codec')
    seen = set()
    for o in c.call(e, fn, [Ptr('codec'), s], st):
        for s1, bad, new in rtpmap_spec(e, o, s, dict(zip(f, old.f))):
            got = dict(zip(f, s1.heap['codec'].f))
            c.ensures(e, s1, isnil(s1.result) if not bad else bnot(isnil(s1.result)), 'fails exactly for malformed mappings', fn)
            seen.add(bad)
            if not bad:
                for n in f:
                    c.ensures(e, s1, same_val(e, s1, got[n], new[n]), '%s is taken from the mapping' % n, fn)
    c.ensures(e, st, seen == {True, False}, 'vacuity guard', fn)


def rtpmap_spec(e, st, s, old):
    """What a mapping 'name/rate[/param]' means: (state, malformed, codec fields)."""
    ps = split(e, st, s, rlit(b'/'))
    if ps is not None:
        n, at = len(ps), lambda e, st, i: ps[i]
    else:
        n, at = tokens(e, s, rlit(b'/'))
    out = []
    for s1, few in both(e, st, lcmp('<', n, 2)):
        if few:
            out.append((s1, True, None))
            continue
        v = m_atoi(e, s1, [at(e, s1, 1)], None)
        for s2, ok in both(e, s1, isnil(v[1])):
            if not ok:
                out.append((s2, True, None))
                continue
            for s3, par in both(e, s2, lcmp('>=', n, 3)):
                new = dict(old)
                new.update(Name=at(e, s3, 0), Rate=v[0])
                if par:
                    new['Param'] = at(e, s3, 2)
                out.append((s3, False, new))
    return out


def seq(st, name, n, mk=ratom):
    o = name + '^'
    st.heap[o] = SeqV(name, lambda e, st, i: mk('%s[%r]' % (name, i)))
    return SliceV(o, 0, n, n)


def populate(c):
    fn = c.fn('sdp.populateCodecs')
    e = engine(c, 'sdp.populateCodecs')
    st = c.state(e)
    BIG = 1 << 40
    NP, NR, NF = atom('len(pts)', 0, BIG), atom('len(rtpmaps)', 0, BIG), atom('len(fmtps)', 0, BIG)
    k = atom('k', 0, BIG)
    pt = FB('pt[k]')
    e.objtypes['media'] = c.prog.type_by_name('@sdp.Media')
    st.heap['pts^'] = SeqV('pts', lambda e, st, i: pt if i == k else FB('pt[%r]' % (i,)))
    args = [Ptr('media'), SliceV('pts^', 0, NP, NP), seq(st, 'rtpmaps', NR), seq(st, 'fmtps', NF)]
    mf = fields(c, '@sdp.Media')
    cf = fields(c, '@sdp.Codec')
    zero = dict(zip(cf, e.zero(c.prog.type_by_name('@sdp.Codec')).f))
    old = dict(zip(mf, e.objval(st, 'media').f))
    pfx = rcat(models.digits(norm(pt.lin())), rlit(b' '))
    js = {'rtpmaps': atom('j', 0, BIG), 'fmtps': atom('i', 0, BIG)}
    stats = {'back': 0, 'std': 0, 'map': 0, 'bad': 0, 'search': set(), 'found': set(), 'done': 0}

    def line(which, i):
        return ratom('%s[%r]' % (which, i))

    def mine(which, st):
        return prefix(e, st, line(which, js[which]), pfx)

    def codecs(st):
        v = dict(zip(mf, st.heap['media'].f))['Codecs']
        return v

    def resolved(st):
        """(state, malformed, codec) as the property has it, from what the searches found."""
        f = {w: st.ghost.get('first:' + w) for w in js}
        out = []
        base = dict(zero, PT=pt)
        if f['rtpmaps'] == 'none':
            cs = [(st, False, base)]
        elif f['rtpmaps'] == 'found':
            r = rslice(line('rtpmaps', js['rtpmaps']), rlen(pfx), V.atom_len('rtpmaps[%r]' % (js['rtpmaps'],)), lambda x: e.decide(st, x))
            cs = rtpmap_spec(e, st, r, base)
        else:
            raise Unsupported('the mapping lines are not searched')
        for s1, bad, cd in cs:
            if bad:
                out.append((s1, True, None))
                continue
            for s2, blank in both(e, s1, e.rope_eq(s1, cd['Name'], EMPTY)):
                if not blank:
                    out.append((s2, False, cd))
                    continue
                std = e.objval(s2, 'g:' + MOD + 'sdp.StandardCodecs')
                std = e.objval(s2, std.obj).d
                for s3, dyn in both(e, s2, lcmp('>=', norm(pt.lin()), 96)):
                    if dyn:
                        out.append((s3, True, None))
                        continue
                    todo = [s3]
                    for q in sorted(std):
                        nt = []
                        for s4 in todo:
                            for s5, is_ in both(e, s4, e.equal(s4, pt, q, None)):
                                if is_:
                                    out.append((s5, False, dict(zip(cf, std[q].f))))
                                else:
                                    nt.append(s5)
                        todo = nt
                    out += [(s6, True, None) for s6 in todo]
        return out

    def want(st, cd):
        cd = dict(cd)
        f = st.ghost.get('first:fmtps')
        if f == 'found':
            cd['Fmtp'] = rslice(line('fmtps', js['fmtps']), rlen(pfx), V.atom_len('fmtps[%r]' % (js['fmtps'],)), lambda x: e.decide(st, x))
        elif f != 'none':
            raise Unsupported('the format lines are not searched')
        return StructV([cd[n] for n in cf])

    def hook(e, st, fr, blk, body):
        if fr.fn.name == fn.name and fr.b == outer:
            return cut(e, st, fr, blk, body)
        return search(e, st, fr, blk, body)

    # -- the loop over the payload types
    outer = outer_loop(fn)

    def havoc(e, st, fr):
        # earlier entries are arbitrary
        v = codecs(st)
        e.prove(st, isinstance(v, SliceV) and v.off == 0 and v.len == NP and isinstance(st.heap.get(v.obj), Table), 'one codec for each payload type', 'invariant', fn=fn.name)
        t = st.heap[v.obj]
        e.prove(st, not t.over, 'codecs start blank', 'invariant', fn=fn.name)
        z = e.zero(c.prog.type_by_name('@sdp.Codec'))

        def dflt(e, st, x):
            if x == k:
                return z
            raise Unsupported('looks at the codec of another payload type')
        st.heap[v.obj] = Table('codecs', NP, dflt)
        st.ghost['first:rtpmaps'] = st.ghost['first:fmtps'] = None
        st.pc.append(zbool(lcmp('<=', k, NP)))

    def step(e, st, fr, heap):
        v = codecs(st)
        t = st.heap[v.obj]
        for s, bad, cd in resolved(st):
            stats['back'] += 1
            e.prove(s, not bad, 'an unmapped type that is dynamic or not standard makes the description invalid', 'post', fn=fn.name)
            if bad:
                continue
            stats['map' if s.ghost['first:rtpmaps'] == 'found' else 'std'] += 1
            ok = len(t.over) == 1 and t.over[0][0] == k
            e.prove(s, ok, 'each iteration fills in one codec, in the offered order', 'post', fn=fn.name)
            if ok:
                w = want(s, cd)
                for n, a, b in zip(cf, t.over[0][1].f, w.f):
                    e.prove(s, same_val(e, s, a, b), '%s of the codec is right' % n, 'post', fn=fn.name)
    cut = Count(fn, outer, k, havoc, step, frame=lambda o: o.startswith('make.') or o == 'media')

    # -- the searches
    def search(e, st, fr, blk, body):
        key = 'search:%s:%d' % (fr.fn.name, fr.b)
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        if fr.prev not in body:
            which = searched(fr, blk, body)
            cnt = [p for p in phis if fr.regs[p] in (0, -1) and not isinstance(fr.regs[p], bool) and isinstance(fr.regs[p], int) and counts(fr.fn, blk, p, body)]
            if len(cnt) != 1 or which is None or st.ghost.get('first:' + which):
                raise Unsupported('a loop that is no search')
            n = {'rtpmaps': NR, 'fmtps': NF}[which]
            # the search is at line j; either the first line for this type is at j, or it is further down, or there is none
            bounds = zbool(lcmp('<=', js[which], n))
            if not any(z3.eq(bounds, x) for x in st.pc if z3.is_expr(x)):
                st.pc.append(bounds)
            at = lcmp('<', js[which], n)
            d = e.decide(st, at)
            if d is None:
                raise Fork(at)
            if d:
                m = mine(which, st)
                d = e.decide(st, m)
                if d is None:
                    raise Fork(m)
                r = 'found' if d else 'later'
            else:
                r = 'none'
            st.ghost['first:' + which] = r
            st.ghost[key] = TupleV([which, cnt[0], fr.regs[cnt[0]]])
            st.ghost[key + ':others'] = TupleV((p, fr.regs[p]) for p in phis if p not in cnt)
            st.ghost[key + ':heap'] = Snap(dict(st.heap))
            fr.regs[cnt[0]] = ladd(js[which], fr.regs[cnt[0]])
            return None
        which, p, c0 = st.ghost[key]
        stats['search'].add(which)
        e.prove(st, st.ghost['first:' + which] == 'later', 'the first line for the payload type is taken', 'invariant', fn=fr.fn.name)
        e.prove(st, lcmp('==', fr.regs[p], ladd(js[which], c0 + 1)), 'the lines are searched one by one', 'invariant', fn=fr.fn.name)
        for q, v in st.ghost[key + ':others']:
            e.prove(st, V.same(fr.regs[q], v), 'a line for another type changes nothing', 'invariant', fn=fr.fn.name)
        for o, v in st.ghost[key + ':heap'].h.items():
            e.prove(st, V.same(st.heap.get(o), v), 'a line for another type changes nothing', 'invariant', fn=fr.fn.name)
        raise X.PathDone()

    def searched(fr, blk, body):
        """Which list a loop goes through."""
        for b in body:
            for ins in fr.fn.blocks[b]['instrs']:
                if ins['op'] == 'indexaddr':
                    v = fr.regs.get(ins['x'].get('n'))
                    if isinstance(v, SliceV) and v.obj in ('rtpmaps^', 'fmtps^'):
                        return v.obj[:-1]
        return None

    class Hooks(dict):
        def get(self, key, d=None):
            return hook if key == '*' else None
    e.inv = Hooks()
    for o in c.call(e, 'sdp.populateCodecs', args, st):
        nil = e.decide(o, isnil(o.result))
        if nil is True:
            stats['done'] += 1
            c.ensures(e, o, lcmp('==', k, NP), 'success means that every payload type has its codec', fn.name)
            v = codecs(o)
            c.ensures(e, o, isinstance(v, SliceV) and v.len == NP and v.off == 0, 'exactly one codec per payload type', fn.name)
            for n, x in zip(mf, o.heap['media'].f):
                if n != 'Codecs':
                    c.ensures(e, o, V.same(x, old[n]), '%s of the medium stays' % n, fn.name)
        elif o.ghost.get('first:rtpmaps') is None:
            c.ensures(e, o, False, 'fails for no reason', fn.name)
        else:
            c.ensures(e, o, bnot(isnil(o.result)), 'the outcome is known', fn.name)
            c.ensures(e, o, o.ghost['first:rtpmaps'] != 'later', 'all mapping lines are considered', fn.name)
            for s, bad, cd in resolved(o):
                stats['bad'] += bad
                c.ensures(e, s, bad, 'fails only for a malformed mapping, or for a type that is not mapped and dynamic or not standard', fn.name)
    ok = stats['back'] and stats['std'] and stats['map'] and stats['bad'] and stats['done'] and stats['search'] == {'rtpmaps', 'fmtps'}
    c.ensures(e, st, bool(ok), 'vacuity guard %s' % ('' if ok else stats), fn.name)
