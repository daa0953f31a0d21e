"""C10: only proper audio packets become frames."""
import z3
from .common import *
from .c09 import CON, ULIN

REPLAY = [('rtp', 'TestVerifC10')]
TRUSTED = ['dsp.UlawToLinear: its contract (a function of the code) is discharged under C11',
           '(*net.UDPConn).ReadFrom stores a datagram of arbitrary length at most len(buf) in buf, leaving arbitrary bytes after it, or fails',
           'the application returns a frame (not nil) on R for every frame it receives, and closes R only after the socket (Session.Close*)']


def verify(c):
    c.section('receiver loop contract', receiver, c)


def receiver(c):
    fn = 'rtp.receiver'
    f = c.fn(fn)

    def read_from(e, st, a, ins):
        err = SymIface('rerr', z3.Bool('rerr==nil'))
        b = e.res(st, a[1])
        e.prove(st, lcmp('>=', b.len, 173), 'the receive buffer can tell a 172-byte datagram from a longer one', 'pre')
        rest = lsub(b.len, 172)
        e.assume(st, lcmp('==', atom_len('rest'), rest))
        st.heap[b.obj] = BytesObj(mkrope([('B', FB('d%d' % i)) for i in range(172)] + [('A', 'rest', 0, atom_len('rest'))]), b.len)
        st.ghost['rbuf'] = b.obj
        n = atom('amt', 0, None)
        e.assume(st, lcmp('<=', n, b.len))
        st.trace.append(('read', b))
        return TupleV([n, SymIface('raddr', z3.Bool('raddr==nil')), err])
    e = c.engine('C10 receiver', CON, {'(*net.UDPConn).ReadFrom': read_from})
    ft = c.prog.type_by_name('@rtp.Frame')
    pft = c.prog.tid['*' + MOD + 'rtp.Frame']

    def recv(st, ch, ins):
        st.n += 1
        o = 'returned#%d' % st.n
        st.heap[o] = e.sym(ft, o)
        st.trace.append(('recv', ch))
        return Ptr(o)
    e.recv = recv

    def havoc(e, st, fr, blk):
        for j in range(blk['nphi']):
            ins = blk['instrs'][j]
            v = e.sym(ins['t'], 'loop.' + ins['n'])
            if isinstance(v, Ptr):
                v = Ptr(v.obj, v.path, False)
                st.heap[v.obj] = e.sym(ft, 'curframe')
            fr.regs[ins['n']] = v
    cut = Cut(f, outer_loop(f), havoc, lambda e, st, fr: final(st, True), frame=lambda st, o: o == st.ghost.get('rbuf') or o.startswith('loop.')).install(e)
    seen = {'delivered': 0, 'dropped': 0, 'closed': 0}
    C, E, R = Opaque('c'), Opaque('e'), Opaque('r')

    def final(o, back):
        ev = [t for t in o.trace]
        sends = [t for t in ev if t[0] == 'send' and t[1] == C]
        rd = [t for t in ev if t[0] == 'read']
        b = [FB('d%d' % i).bv(8) for i in range(12)]
        proper = z3.And(zbool(lcmp('==', atom('amt', 0, None), 172)), z3.LShR(b[0], 6) == 2, z3.Extract(4, 4, b[0]) == 0, (b[1] & 0x7f) == 0)
        if back:
            for t in ev:
                c.ensures(e, o, t[0] in ('read', 'send', 'recv'), 'an iteration only receives, delivers and reclaims', fn)
            c.ensures(e, o, len(rd) == 1, 'an iteration receives one datagram', fn)
            c.ensures(e, o, z3.Bool('rerr==nil'), 'the loop goes on only after a successful read', fn)
            c.ensures(e, o, proper if sends else z3.Not(proper), 'a datagram is delivered exactly when it is a proper audio packet', fn)
            c.ensures(e, o, len(sends) <= 1, 'at most one frame per datagram', fn)
            seen['delivered' if sends else 'dropped'] += 1
            if sends:
                p = sends[0][2]
                at = o.ghost.get('sent')
                for i in range(160):
                    want = z3.Extract(15, 0, ULIN(z3.ZeroExt(56, FB('d%d' % (12 + i)).bv(8))))
                    c.ensures(e, o, to_bv(at.e[i], 16) == want, 'each sample is the mu-law decoding of its payload byte', fn)
                recvs = [t for t in ev if t[0] == 'recv']
                c.ensures(e, o, len(recvs) == 1 and recvs[0][1] == R, 'a frame is reclaimed after delivery', fn)
            else:
                c.ensures(e, o, not [t for t in ev if t[0] == 'recv'], 'a dropped datagram waits for nothing', fn)
        else:
            seen['closed'] += 1
            c.ensures(e, o, z3.Not(z3.Bool('rerr==nil')), 'the receiver ends only upon a read error', fn)
            tail = [(t[0], t[1]) for t in ev if t[0] in ('send', 'close')]
            c.ensures(e, o, tail == [('close', C), ('send', E), ('close', E)], 'at the end the channels are closed and the error reported', fn)
    orig = e.instr

    def instr(st, fr, ins):
        if ins['op'] == 'send':
            v = e.val(st, ins['x'])
            if isinstance(v, Ptr) and e.val(st, ins['chan']) == C:
                st.ghost['sent'] = e.objval(st, v.obj)
        return orig(st, fr, ins)
    e.instr = instr
    st = c.state(e)
    sock = Ptr('sock')
    for o in c.call(e, fn, [sock, C, E, R], st):
        final(o, False)
    c.obligation(cut.entries > 0 and seen['delivered'] > 0 and seen['dropped'] > 0 and seen['closed'] > 0,
                 'vacuity guard: delivering, dropping and ending are all reachable', str(seen))
