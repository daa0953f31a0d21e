"""C09: egress RTP stream."""
import z3
from .common import *

REPLAY = [('rtp', 'TestVerifC09')]
TRUSTED = ['dsp.LinearToUlaw: its contract (a function of the sample with results 0..255) is discharged under C11',
           '(*net.UDPConn).WriteTo transmits exactly the bytes given; its error is arbitrary']
ULAW = z3.Function('ulaw', z3.BitVecSort(64), z3.BitVecSort(64))
ULIN = z3.Function('unulaw', z3.BitVecSort(64), z3.BitVecSort(64))
BV8, BV16, BV32 = (lambda v: z3.BitVecVal(v, 8)), (lambda v: z3.BitVecVal(v, 16)), (lambda v: z3.BitVecVal(v, 32))


def lin2ulaw(e, st, a, ins):
    x = to_bv(a[0], 64)
    return bv_to_lin(ULAW(x), True)


def ulaw2lin(e, st, a, ins):
    return bv_to_lin(ULIN(to_bv(a[0], 64)), True)


CON = {'dsp.LinearToUlaw': lin2ulaw, 'dsp.UlawToLinear': ulaw2lin}


def write_to(e, st, a, ins):
    st.n += 1
    err = SymIface('werr#%d' % st.n, z3.Bool('werr#%d==nil' % st.n))
    st.trace.append(('write', e.slice_rope(st, a[1]), a[2], err))
    return TupleV([atom('wn#%d' % st.n, 0, V.MAXLEN), err])


MOD_ = {'(*net.UDPConn).WriteTo': write_to, '(*net.UDPConn).WriteToUDP': write_to}


def session(c, e, st, usable):
    """An arbitrary session satisfying the representation invariant established by NewSession."""
    t = c.prog.type_by_name('@rtp.Session')
    v = e.sym(t, 'rs')
    F = lambda n: c.prog.field('rtp.Session', n)
    o = e.alloc(st, BytesObj(EMPTY, 1500), 'obuf')
    v = v.set(F('obuf'), SliceV(o, 0, 0, 1500))
    if usable:
        for n in ('Sock', 'Peer'):
            p = v.f[F(n)]
            v = v.set(F(n), Ptr(p.obj, p.path, False))
    p = Ptr(e.alloc(st, v, 'rs'))
    return p, v, F


def hdr_bytes(pad, mark, pt, seq, ts, ssrc):
    one = lambda b: z3.If(zbool(b), BV8(1), BV8(0))
    out = [BV8(0x80) | (one(pad) << 5), (one(mark) << 7) | (to_bv(pt, 8) & 0x7f), z3.Extract(15, 8, seq), z3.Extract(7, 0, seq)]
    for v in (ts, ssrc):
        out += [z3.Extract(31 - 8 * i, 24 - 8 * i, v) for i in range(4)]
    return out


def parts(c, v, F):
    h = v.f[F('Header')]
    g = lambda n: h.f[c.prog.field('rtp.Header', n)]
    return g('Pad'), g('Mark'), to_bv(g('PT'), 8), to_bv(g('Seq'), 16), to_bv(g('TS'), 32), to_bv(g('Ssrc'), 32)


def frame_cond(c, e, o, rs, v, F, fn):
    """Nothing but the header changes in the session."""
    n = o.heap[rs.obj]
    for name in ('C', 'R', 'E', 'Sock', 'Peer', 'obuf'):
        c.ensures(e, o, V.same(n.f[F(name)], v.f[F(name)]), 'session field %s is kept' % name, fn)
    a, b = parts(c, v, F), parts(c, n, F)
    c.ensures(e, o, z3.And(zbool(a[0]) == zbool(b[0]), a[5] == b[5]), 'padding flag and source are kept', fn)
    return b


def writes(o):
    return [t for t in o.trace if t[0] == 'write']


def check_addr(c, e, o, w, v, F, fn):
    a = w[2]
    c.ensures(e, o, isinstance(a, Iface) and V.same(a.v, v.f[F('Peer')]) or V.same(a, v.f[F('Peer')]), 'sent to the peer', fn)


def send(c):
    fn = '(*rtp.Session).Send'
    e = c.engine('C09 Send', CON, MOD_)
    st = c.state(e)
    rs, v, F = session(c, e, st, True)
    fr = ArrV([z3.BitVec('s%d' % i, 16) for i in range(160)])
    fp = Ptr(e.alloc(st, fr, 'frame'))
    pad, mark, pt, seq, ts, ssrc = parts(c, v, F)
    for o in c.call(e, fn, [rs, fp], st):
        w = writes(o)
        c.ensures(e, o, len(w) == 1, 'exactly one packet is sent', fn)
        if len(w) != 1:
            continue
        bs = models.rope_bytes(w[0][1])
        c.ensures(e, o, bs is not None and len(bs) == 172, 'the packet has 172 bytes', fn)
        if bs is None or len(bs) != 172:
            continue
        for i, (x, y) in enumerate(zip(bs, hdr_bytes(pad, mark, BV8(0), seq, ts, ssrc))):
            c.ensures(e, o, to_bv(x, 8) == y, 'header byte %d carries the current stream state and payload type 0' % i, fn)
        for i in range(160):
            want = z3.Extract(7, 0, ULAW(z3.SignExt(48, fr.e[i])))
            c.ensures(e, o, to_bv(bs[12 + i], 8) == want, 'payload byte is the mu-law code of its sample', fn)
        check_addr(c, e, o, w[0], v, F, fn)
        n = frame_cond(c, e, o, rs, v, F, fn)
        c.ensures(e, o, n[3] == seq + 1, 'the sequence advances by one (wrapping)', fn)
        c.ensures(e, o, n[4] == ts + 160, 'the timestamp advances by 160 (wrapping)', fn)
        c.ensures(e, o, zbool(mark) == zbool(n[1]), 'the marker flag is kept', fn)
        c.ensures(e, o, V.same(o.heap[fp.obj], fr), 'the frame is not modified', fn)
        c.ensures(e, o, e.equal(o, o.result, w[0][3], None), 'the transmission error is reported', fn)


def send_raw(c):
    fn = '(*rtp.Session).SendRaw'
    e = c.engine('C09 SendRaw', CON, MOD_)
    st = c.state(e)
    rs, v, F = session(c, e, st, True)
    data = e.sym(c.prog.type_by_name('[]byte'), 'data')
    pad, mark, _, seq, ts, ssrc = parts(c, v, F)
    for o in c.call(e, fn, [rs, FB('pt'), data, z3.BitVec('samps', 32)], st):
        w = writes(o)
        c.ensures(e, o, len(w) == 1, 'exactly one packet is sent', fn)
        if len(w) != 1:
            continue
        r = w[0][1]
        bs = models.rope_bytes(rslice(r, 0, 12))
        for i, (x, y) in enumerate(zip(bs, hdr_bytes(pad, mark, FB('pt').bv(8), seq, ts, ssrc))):
            c.ensures(e, o, to_bv(x, 8) == y, 'header byte %d carries the current stream state and the given type' % i, fn)
        c.ensures(e, o, e.rope_eq(o, rslice(r, 12, rlen(r)), ratom('data')), 'the payload follows unchanged', fn)
        check_addr(c, e, o, w[0], v, F, fn)
        n = frame_cond(c, e, o, rs, v, F, fn)
        c.ensures(e, o, n[3] == seq + 1, 'the sequence advances by one (wrapping)', fn)
        c.ensures(e, o, n[4] == ts + z3.BitVec('samps', 32), 'the timestamp advances by the sample count', fn)


DIGITS = {ord(k): i for i, k in enumerate('0123456789*#ABCD!')}
DIGITS.update({ord(k.lower()): i for k, i in [(chr(a), b) for a, b in DIGITS.items()]})


def dtmf(c):
    fn = '(*rtp.Session).SendDTMF'
    e = c.engine('C09 SendDTMF', CON, MOD_)
    st = c.state(e)
    rs, v, F = session(c, e, st, True)
    pad, mark, _, seq, ts, ssrc = parts(c, v, F)
    valid = mask_of(lambda b: b in DIGITS)
    code = FB('digit', tuple(DIGITS.get(b, 0) for b in range(256)))
    outs = c.call(e, fn, [rs, FB('digit')], st)
    complete = 0
    for o in outs:
        w = writes(o)
        m = o.bm.get('digit', V.ALL)
        isnil = e.decide(o, e.equal(o, o.result, NILIFACE, None))
        if not w:
            c.ensures(e, o, FBool('digit', V.ALL & ~valid), 'only an invalid digit sends nothing', fn)
            c.ensures(e, o, isnil is False, 'an invalid digit is refused with an error', fn)
            c.ensures(e, o, same_val(e, o, o.heap[rs.obj], v), 'a refused digit leaves the stream alone', fn)
            continue
        c.ensures(e, o, FBool('digit', valid), 'packets are only sent for valid digits', fn)
        n = frame_cond(c, e, o, rs, v, F, fn)
        c.ensures(e, o, n[4] == ts, 'the timestamp is kept', fn)
        durs, ends = [], []
        failed = e.decide(o, bnot(w[-1][3].null))
        for k, x in enumerate(w):
            bs = models.rope_bytes(x[1])
            c.ensures(e, o, bs is not None and len(bs) == 16, 'event packets have 16 bytes', fn)
            if bs is None or len(bs) != 16:
                return
            want = hdr_bytes(pad, k == 0, BV8(101), seq + k, ts, ssrc)
            for i in range(12):
                c.ensures(e, o, to_bv(bs[i], 8) == want[i], 'event packet header byte %d (type 101, consecutive sequence, marker on the first only)' % i, fn)
            c.ensures(e, o, to_bv(bs[12], 8) == code.bv(8), 'the event code is that of the digit', fn)
            c.ensures(e, o, z3.Extract(6, 6, to_bv(bs[13], 8)) == 0, 'the reserved bit is zero', fn)
            check_addr(c, e, o, x, v, F, fn)
            durs.append(simp(z3.Concat(to_bv(bs[14], 8), to_bv(bs[15], 8))))
            ends.append(simp(z3.Extract(7, 7, to_bv(bs[13], 8))))
        okd = all(isinstance(d, int) for d in durs + ends)
        c.ensures(e, o, okd, 'durations and end bits are determined', fn)
        if not okd:
            continue
        ne = sum(ends)
        c.ensures(e, o, ends == sorted(ends), 'end packets come last', fn)
        prog = durs[:len(durs) - ne]
        c.ensures(e, o, all(a < b for a, b in zip(prog, prog[1:])) and all(d > 0 for d in prog) and len(prog) > 0, 'durations grow from a positive value', fn)
        c.ensures(e, o, all(d == durs[-1] for d in durs[len(prog):]) and (ne == 0 or durs[-1] > max(prog)), 'end packets have the full duration', fn)
        if failed:
            c.ensures(e, o, isnil is False, 'a transmission error is reported', fn)
        else:
            complete += 1
            c.ensures(e, o, ne == 3, 'there are three end packets', fn)
            c.ensures(e, o, isnil is True, 'success is reported', fn)
            c.ensures(e, o, n[3] == seq + len(w), 'the sequence advances by the number of packets', fn)
        for x in w[:-1]:
            c.ensures(e, o, x[3].null, 'sending stops at the first error', fn)
    c.obligation(complete > 0, 'SendDTMF: a complete transmission is reachable (vacuity guard)')


def idle(c):
    """Without session, socket or peer nothing happens."""
    for fn, args in (('(*rtp.Session).Send', [Ptr('anyframe')]), ('(*rtp.Session).SendRaw', [FB('pt'), NILSLICE, z3.BitVec('samps', 32)]),
                     ('(*rtp.Session).SendDTMF', [FB('digit')])):
        e = c.engine('C09 idle ' + fn, CON, MOD_)
        e.objtypes['anyframe'] = c.prog.type_by_name('@rtp.Frame')
        for case in ('nil', 'Sock', 'Peer'):
            st = c.state(e)
            rs, v, F = session(c, e, st, False)
            if case == 'nil':
                rs2 = NIL
            else:
                v = v.set(F(case), NIL)
                st.heap[rs.obj] = v
                rs2 = rs
            for o in c.call(e, fn, [rs2] + args, st):
                c.ensures(e, o, not writes(o), 'without %s nothing is sent' % case, fn)
                c.ensures(e, o, same_val(e, o, o.heap[rs.obj], v), 'without %s the stream state is kept' % case, fn)


def new_session(c):
    fn = 'rtp.NewSession'

    def listen(e, st, a, ins):
        st.n += 1
        err = SymIface('lerr', z3.Bool('lerr==nil'))
        t = c.prog.tid['*net.UDPConn']
        ok = e.decide(st, err.null)
        if ok is None:
            raise Fork(err.null)
        return TupleV([Iface(t, Ptr('conn', (), False)) if ok else NILIFACE, err])
    rnd = {'math/rand.Uint32': lambda e, st, a, ins: z3.BitVec('rand', 32)}
    e = c.engine('C09 NewSession', {'rtp.Listen': listen}, rnd)
    st = c.state(e)
    F = lambda n: c.prog.field('rtp.Session', n)
    for o in c.call(e, fn, [ratom('host')], st):
        s, err = o.result
        ok = e.decide(o, e.equal(o, err, NILIFACE, None))
        c.ensures(e, o, (s.null is True) == (ok is False), 'either a session or an error is returned', fn)
        if ok:
            v = o.heap[s.obj]
            b = v.f[F('obuf')]
            c.ensures(e, o, lcmp('==', b.len, 0), 'the output buffer is empty (representation invariant)', fn)
            c.ensures(e, o, lcmp('>=', b.cap, 172), 'the output buffer can hold a packet (representation invariant)', fn)
            g = [t for t in o.trace if t[0] == 'go']
            c.ensures(e, o, len(g) == 1 and g[0][1].endswith('rtp.receiver'), 'one receiver is started', fn)
            if len(g) == 1:
                want = (v.f[F('Sock')], v.f[F('C')], v.f[F('E')], v.f[F('R')])
                c.ensures(e, o, all(V.same(x, y) for x, y in zip(g[0][2], want)), 'the receiver serves this session\'s socket and channels', fn)
    # nothing else assigns the buffer or the channels
    bad = []
    for f in c.prog.funcs.values():
        for b in f.blocks:
            for i in b['instrs']:
                if i['op'] == 'fieldaddr' and c.prog.tname(i['xt']) == '*' + MOD + 'rtp.Session' and i['i'] == F('obuf'):
                    n = i['n']
                    for b2 in f.blocks:
                        for j in b2['instrs']:
                            if j['op'] == 'store' and j['addr'].get('n') == n and not f.name.endswith('rtp.NewSession'):
                                bad.append(f.pretty)
    c.obligation(not bad, 'representation invariant: the output buffer field is only assigned by NewSession', str(bad))


def verify(c):
    c.section('Send contract', send, c)
    c.section('SendRaw contract', send_raw, c)
    c.section('SendDTMF contract', dtmf, c)
    c.section('no socket or peer', idle, c)
    c.section('NewSession establishes the invariant', new_session, c)
