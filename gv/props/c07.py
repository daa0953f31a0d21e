"""C07: RTP headers encode and decode exactly."""
import z3
from ..vals import *
from ..exec import band2
from .common import *

REPLAY = [('rtp', 'TestVerifC07')]
TRUSTED = ['meaning of big-endian network order as written in the contract (bytes = shifted truncations)']


def header(c, e, name='h'):
    t = c.prog.type_by_name('@rtp.Header')
    return e.sym(t, name)


def spec_bytes(c, h):
    """RFC 3550 5.1, twelve bytes as 8-bit terms."""
    f = lambda n: h.f[c.prog.field('rtp.Header', n)]
    one = lambda b: z3.If(zbool(b), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    pt = to_bv(f('PT'), 8)
    seq, ts, ss = to_bv(f('Seq'), 16), to_bv(f('TS'), 32), to_bv(f('Ssrc'), 32)
    out = [z3.BitVecVal(0x80, 8) | (one(f('Pad')) << 5), (one(f('Mark')) << 7) | (pt & 0x7f)]
    out += [z3.Extract(15, 8, seq), z3.Extract(7, 0, seq)]
    for v in (ts, ss):
        out += [z3.Extract(31 - 8 * i, 24 - 8 * i, v) for i in range(4)]
    return out


def write(c):
    e = c.engine('C07 Header.Write')
    st = c.state(e)
    h = header(c, e)
    hp = Ptr(e.alloc(st, h, 'h'))
    b = e.sym(c.prog.type_by_name('[]byte'), 'b')
    pre = e.slice_rope(st, b)
    for o in c.call(e, '(*rtp.Header).Write', [hp, b], st):
        r = e.slice_rope(o, o.result)
        n = rlen(pre)
        head = rslice(r, 0, n, lambda x: e.decide(o, x))
        c.ensures(e, o, e.rope_eq(o, head, pre), 'what was already in the buffer is kept', '(*rtp.Header).Write')
        c.ensures(e, o, lcmp('==', rlen(r), ladd(n, 12)), 'exactly twelve bytes are appended', '(*rtp.Header).Write')
        tail = models.rope_bytes(rslice(r, n, rlen(r), lambda x: e.decide(o, x)))
        for i, (x, y) in enumerate(zip(tail, spec_bytes(c, h))):
            c.ensures(e, o, to_bv(x, 8) == y, 'byte %d of the header is as RFC 3550 prescribes' % i, '(*rtp.Header).Write')
        c.ensures(e, o, same_val(e, o, o.heap[hp.obj], h), 'the header itself is not modified', '(*rtp.Header).Write')
        c.ensures(e, o, e.rope_eq(o, e.slice_rope(o, b), pre), 'the caller\'s bytes are not modified', '(*rtp.Header).Write')


def read(c):
    e = c.engine('C07 Header.Read')
    st = c.state(e)
    h = header(c, e)
    hp = Ptr(e.alloc(st, h, 'h'))
    b = e.sym(c.prog.type_by_name('[]byte'), 'b')
    fn = '(*rtp.Header).Read'
    G = lambda n: e.objval(st, 'g:' + MOD + 'rtp.' + n)
    for o in c.call(e, fn, [hp, b], st):
        long = lcmp('>=', b.len, 12)
        B = [to_bv(e.elem(o, 'b', i), 8) for i in range(12)]
        ver = z3.LShR(B[0], 6) == 2
        ext = z3.Extract(4, 4, B[0]) == 1
        ok = z3.And(zbool(long), ver, z3.Not(ext))
        res = o.result
        isnil = e.equal(o, res, NILIFACE, None)
        c.ensures(e, o, zbool(isnil) == ok, 'accepted exactly when long enough, version 2 and without extension', fn)
        c.ensures(e, o, z3.Implies(z3.Not(zbool(long)), zbool(e.equal(o, res, G('ErrTruncatedPacket'), None))), 'short input gives ErrTruncatedPacket', fn)
        c.ensures(e, o, z3.Implies(z3.And(zbool(long), z3.Not(ver)), zbool(e.equal(o, res, G('ErrBadVersion'), None))), 'bad version gives ErrBadVersion', fn)
        c.ensures(e, o, z3.Implies(z3.And(zbool(long), ver, ext), zbool(e.equal(o, res, G('ErrExtendedHeadersNotSupported'), None))),
                  'extension gives ErrExtendedHeadersNotSupported', fn)
        nh = o.heap[hp.obj]
        c.ensures(e, o, z3.Or(ok, zbool(same_val(e, o, nh, h))), 'the header is untouched on error', fn)
        f = lambda n: nh.f[c.prog.field('rtp.Header', n)]
        spec = {'Pad': z3.Extract(5, 5, B[0]) == 1, 'Mark': z3.Extract(7, 7, B[1]) == 1, 'PT': B[1] & 0x7f,
                'Seq': z3.Concat(B[2], B[3]), 'TS': z3.Concat(*B[4:8]), 'Ssrc': z3.Concat(*B[8:12])}
        for n, v in spec.items():
            got = f(n)
            eq = zbool(got) == v if z3.is_bool(v) else to_bv(got, v.size()) == v
            c.ensures(e, o, z3.Implies(ok, eq), 'field %s is decoded from its own bits' % n, fn)
        c.ensures(e, o, e.rope_eq(o, e.slice_rope(o, b), ratom('b')), 'the input is not modified', fn)


def round_trip(c):
    """Read(Write(h)) = h over the two contracts, for every header with a 7-bit payload type."""
    e = c.engine('C07 round trip')
    st = c.state(e)
    h = header(c, e)
    e.assume(st, FBool(h.f[c.prog.field('rtp.Header', 'PT')].id, mask_of(lambda b: b < 128)))
    hp = Ptr(e.alloc(st, h, 'h'))
    b = e.new_bytes(st, mkrope([('B', x) for x in spec_bytes(c, h)] + [('A', 'rest', 0, atom_len('rest'))]))
    g = header(c, e, 'g')
    gp = Ptr(e.alloc(st, g, 'g'))
    for o in c.call(e, '(*rtp.Header).Read', [gp, b], st):
        c.ensures(e, o, e.equal(o, o.result, NILIFACE, None), 'the encoding of a header is accepted', '(*rtp.Header).Read')
        c.ensures(e, o, same_val(e, o, o.heap[gp.obj], h), 'decoding the encoding gives the header back', '(*rtp.Header).Read')


def verify(c):
    c.section('Header.Write contract', write, c)
    c.section('Header.Read contract', read, c)
    c.section('round trip lemma', round_trip, c)
