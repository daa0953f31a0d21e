"""C08: telephone events."""
import z3
from .common import *

REPLAY = [('rtp', 'TestVerifC08')]
KEYS = '0123456789*#ABCD!'


def fld(c, v, n):
    return v.f[c.prog.field('rtp.EventHeader', n)]


def spec(c, h):
    one = lambda b: z3.If(zbool(b), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    d = to_bv(fld(c, h, 'Duration'), 16)
    return [to_bv(fld(c, h, 'Event'), 8),
            (one(fld(c, h, 'E')) << 7) | (one(fld(c, h, 'R')) << 6) | (to_bv(fld(c, h, 'Volume'), 8) & 0x3f),
            z3.Extract(15, 8, d), z3.Extract(7, 0, d)]


def write(c):
    fn = '(*rtp.EventHeader).Write'
    e = c.engine('C08 EventHeader.Write')
    st = c.state(e)
    h = e.sym(c.prog.type_by_name('@rtp.EventHeader'), 'h')
    hp = Ptr(e.alloc(st, h, 'h'))
    old = [FB('old%d' % i) for i in range(4)] + [('A', 'rest', 0, atom_len('rest'))]
    b = e.new_bytes(st, mkrope([('B', x) if isinstance(x, FB) else x for x in old]))
    for o in c.call(e, fn, [hp, b], st):
        r = e.slice_rope(o, b)
        n = models.rope_bytes(rslice(r, 0, 4))
        for i, (x, y) in enumerate(zip(n, spec(c, h))):
            c.ensures(e, o, to_bv(x, 8) == y, 'byte %d is as RFC 4733 prescribes' % i, fn)
        c.ensures(e, o, e.rope_eq(o, rslice(r, 4, rlen(r), lambda x: e.decide(o, x)), ratom('rest')), 'bytes after the event are kept', fn)
        c.ensures(e, o, same_val(e, o, o.heap[hp.obj], h), 'the event is not modified', fn)


def read(c):
    fn = '(*rtp.EventHeader).Read'
    e = c.engine('C08 EventHeader.Read')
    st = c.state(e)
    h = e.sym(c.prog.type_by_name('@rtp.EventHeader'), 'h')
    hp = Ptr(e.alloc(st, h, 'h'))
    B = [FB('b%d' % i) for i in range(4)]
    b = e.new_bytes(st, mkrope([('B', x) for x in B] + [('A', 'rest', 0, atom_len('rest'))]))
    pre = e.slice_rope(st, b)
    b8 = [x.bv(8) for x in B]
    for o in c.call(e, fn, [hp, b], st):
        n = o.heap[hp.obj]
        want = {'Event': b8[0], 'E': z3.Extract(7, 7, b8[1]) == 1, 'R': z3.Extract(6, 6, b8[1]) == 1,
                'Volume': b8[1] & 0x3f, 'Duration': z3.Concat(b8[2], b8[3])}
        for k, v in want.items():
            g = fld(c, n, k)
            c.ensures(e, o, zbool(g) == v if z3.is_bool(v) else to_bv(g, v.size()) == v, 'field %s is decoded from its own bits' % k, fn)
        c.ensures(e, o, e.rope_eq(o, e.slice_rope(o, b), pre), 'the input is not modified', fn)


def trip(c):
    fn = '(*rtp.EventHeader).Read'
    e = c.engine('C08 round trip')
    st = c.state(e)
    h = e.sym(c.prog.type_by_name('@rtp.EventHeader'), 'h')
    e.assume(st, FBool(fld(c, h, 'Volume').id, mask_of(lambda b: b < 64)))
    g = Ptr(e.alloc(st, e.sym(c.prog.type_by_name('@rtp.EventHeader'), 'g'), 'g'))
    b = e.new_bytes(st, mkrope([('B', x) for x in spec(c, h)]))
    for o in c.call(e, fn, [g, b], st):
        c.ensures(e, o, same_val(e, o, o.heap[g.obj], h), 'decoding the encoding gives the event back', fn)


def maps(c):
    e = c.engine('C08 DtmfToChar')
    st = c.state(e)
    fn = 'rtp.DtmfToChar'
    ev = FB('event')
    for o in c.call(e, fn, [ev], st):
        m = o.bm.get('event', V.ALL)
        ch, err = o.result
        isnil = e.equal(o, err, NILIFACE, None)
        ok = mask_of(lambda b: b <= 16)
        c.ensures(e, o, zbool(isnil) == FBool('event', ok).z3(), 'accepted exactly for the seventeen keypad events', fn)
        tab = [ord(KEYS[b]) if b <= 16 else 0 for b in range(256)]
        c.ensures(e, o, z3.Implies(FBool('event', ok).z3(), to_bv(ch, 8) == FB('event', tuple(tab)).bv(8)), 'each event maps to its key', fn)
    e = c.engine('C08 CharToDtmf')
    st = c.state(e)
    fn = 'rtp.CharToDtmf'
    rev = {ord(k): i for i, k in enumerate(KEYS)}
    rev.update({ord(k.lower()): i for i, k in enumerate(KEYS)})
    for o in c.call(e, fn, [FB('ch')], st):
        evn, err = o.result
        isnil = e.equal(o, err, NILIFACE, None)
        ok = mask_of(lambda b: b in rev)
        c.ensures(e, o, zbool(isnil) == FBool('ch', ok).z3(), 'accepted exactly for the keypad characters', fn)
        tab = tuple(rev.get(b, 0) for b in range(256))
        c.ensures(e, o, z3.Implies(FBool('ch', ok).z3(), to_bv(evn, 8) == FB('ch', tab).bv(8)), 'each character maps to its event', fn)


def verify(c):
    c.section('EventHeader.Write contract', write, c)
    c.section('EventHeader.Read contract', read, c)
    c.section('round trip lemma', trip, c)
    c.section('keypad maps', maps, c)
