"""The receive loop of package dialog: contract of an arbitrary iteration, shared by C24 (what the message looks like) and C26
(which bytes it is made of)."""
from .common import *
from .lists import *
from .c19 import uris
from ..run import more_time

MAXUDP = 65507
FN = 'dialog.ReceiveMessages'


class ListWalk:
    """Contract of loops that walk along a list: the position is arbitrary, other pointers keep their distance to it.
    Facts 'the node k after the position exists' are kept as long as the loop re-establishes them."""

    def __init__(self, c, nx):
        self.c, self.nx = c, nx
        self.facts = {}
        self.dropped = False
        self.backs = 0

    def step(self, e, st, p):
        t = e.objtypes[p.obj]
        tn = e.p.tname(t).split('.')[-1]
        return e.res(st, e.load(st, nn(p)).f[self.nx[tn]])

    def dist(self, e, st, a, b):
        for k in range(4):
            if a.obj == b.obj:
                return k
            a = self.step(e, st, a)
            if a.null is True:
                return None
        return None

    def shape(self, e, st, fr, blk):
        regs = []
        for i in blk['instrs'][:blk['nphi']]:
            v = e.res(st, fr.regs[i['n']])
            if not isinstance(v, Ptr) or v.path:
                raise Unsupported('the loop in %s is no walk along a list' % fr.fn.pretty)
            regs.append((i['n'], v))
        if not regs:
            raise Unsupported('no contract for the loop in %s' % fr.fn.pretty)
        if any(v.null is True for _, v in regs):
            return None
        for n, b in regs:
            off = [(m, self.dist(e, st, b, v)) for m, v in regs]
            if all(d is not None for _, d in off):
                return b, off
        raise Unsupported('the pointers of the loop in %s do not belong together' % fr.fn.pretty)

    def __call__(self, e, st, fr, blk, body):
        key = '%s:%d' % (fr.fn.pretty, fr.b)
        g = 'walk:' + key
        cut = st.ghost.get(g)
        if fr.prev not in body:
            st.ghost[g] = cut = None
        sh = self.shape(e, st, fr, blk)
        if sh is None:
            return None
        b, off = sh
        far = max(d for _, d in off) + 1
        known, p = {}, b
        for k in range(far + 1):
            known[k] = p.null is False or e.decide(st, p.null) is False
            if not known[k]:
                break
            p = self.step(e, st, p)
            if p.null is True:
                break
        if cut is None:
            o = 'cur:%s^' % key
            t = e.objtypes[b.obj]
            tn = e.p.tname(t).split('.')[-1]
            for x in (b.obj,):
                if x in st.heap and not V.same(st.heap[x], e.sym(t, x[:-1] if x.endswith('^') else x)):
                    raise Unsupported('the list of the loop in %s was changed before' % fr.fn.pretty)
            if o in st.heap:
                raise Unsupported('the loop in %s is entered twice' % fr.fn.pretty)
            e.objtypes[o] = t
            want = self.facts.setdefault(key, {k for k in known if known[k]})
            ks = {k for k in want if known.get(k)}
            if ks != want:
                self.facts[key] = ks
                self.dropped = True
            cur = Ptr(o, (), False if 0 in ks else z3.Bool('cur:%s==nil' % key))
            q, at = cur, {0: cur}
            for k in range(1, far + 1):
                if not (k - 1) in ks:
                    break
                q = self.step(e, st, q)
                if k in ks:
                    e.assume(st, bnot(q.null))
                at[k] = q
            for n, d in off:
                if d not in at:
                    raise Unsupported('a pointer of the loop in %s may be past the end' % fr.fn.pretty)
                fr.regs[n] = at[d]
            st.ghost[g] = (b, tuple(off), cur)
            st.ghost['walkheap:' + key] = _H(dict(st.heap))
            return None
        b0, off0, cur = cut
        self.backs += 1
        self.c.ensures(e, st, self.dist(e, st, cur, b) not in (None, 0), 'the loop advances along the list', fr.fn.pretty)
        self.c.ensures(e, st, tuple(off) == off0, 'the pointers of the loop keep their distance', fr.fn.pretty)
        for k in sorted(self.facts[key]):
            if not known.get(k):
                self.facts[key].discard(k)
                self.dropped = True
        for o, v in st.ghost['walkheap:' + key].h.items():
            if not V.same(st.heap.get(o), v):
                self.c.ensures(e, st, False, 'the loop modifies nothing (%s)' % o, fr.fn.pretty)
        raise X.PathDone()


class _H:
    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def engine(c, L, label, walk):
    """Engine, with models of the socket and the clock."""

    def laddr(e, st, a, ins):
        return Iface(c.prog.tid['*net.UDPAddr'], Ptr('laddr', (), False))

    def read(e, st, a, ins):
        b = e.res(st, a[1])
        st.ghost['buf'] = b
        n = atom_len('dgram')
        e.assume(st, lcmp('<=', n, b.len))
        e.assume(st, lcmp('<=', n, MAXUDP))
        if not (b.path == () and isinstance(b.off, int) and b.off == 0):
            raise Unsupported('the receive buffer is part of something')
        st.heap[b.obj] = BytesObj(mkrope([('A', 'dgram', 0, atom_len('dgram')), ('A', 'rest', 0, lsub(b.len, n))]), b.len)
        err = z3.Bool('rerr==nil')
        st.trace.append(('read', b))
        fromaddr = Ptr('from', (), bnot(err))
        r = fromaddr if ins['mname_'] == 'udp' else Iface(c.prog.tid['*net.UDPAddr'], fromaddr)
        return TupleV([n, r, SymIface('rerr', err)])

    def rd(kind):
        return lambda e, st, a, ins: read(e, st, a, dict(ins, mname_=kind))

    def now(e, st, a, ins):
        st.n += 1
        return e.untuple(e.sym(ins['rt'], 'now#%d' % st.n))

    def nano(e, st, a, ins):
        st.n += 1
        return e.untuple(e.sym(ins['rt'], 'nano#%d' % st.n))

    def ipstr(e, st, a, ins):
        s = e.res(st, a[0])
        return ratom('ipstr:%s' % s.obj)

    def parse(e, st, a, ins):
        d = e.res(st, a[0])
        ok = z3.Bool('perr==nil')
        st.trace.append(('parse', d, e.slice_rope(st, d)))
        if d == NILSLICE or d.obj is None:
            return TupleV([NIL, NILIFACE])
        return TupleV([Ptr('msg^', (), bnot(ok)), SymIface('perr', ok)])
    con = dict(L.C)
    con['sip.ParseMsg'] = parse
    con['dialog.trace'] = lambda e, st, a, ins: None
    e = c.engine(label, con, {
        '(*net.UDPConn).LocalAddr': laddr, '(*net.conn).LocalAddr': laddr,
        '(*net.UDPConn).ReadFromUDP': rd('udp'), '(*net.UDPConn).ReadFrom': rd('iface'),
        'time.Now': now, '(net.IP).String': ipstr, '(time.Time).UnixNano': nano, '(time.Time).UnixMicro': nano})
    m = Msgs(c, e)
    uris(e, None, m)
    e.objtypes['msg^'] = c.prog.type_by_name('@sip.Msg')
    e.objtypes['laddr'] = e.objtypes['from'] = c.prog.type_by_name('net.UDPAddr')
    e.inv['*'] = walk
    return e, m


SIGS = {'dialog.addReceived': ['*@sip.Msg', '*net.UDPAddr'], 'dialog.fixMessagesFromStrictRouters': ['string', 'uint16', '*@sip.Msg']}


def has(c, n):
    """The function exists with the expected parameters, so that its contract can be used."""
    f = c.prog.fn(n)
    return f is not None and [c.prog.types[p['t']]['s'] for p in f.params] == [x.replace('@', MOD) for x in SIGS[n]]


def stubs(c, e, m, which):
    """Contracts of the fix-ups as used by the receive loop: what they do is proved of them separately (C24)."""
    via = c.prog.type_by_name('@sip.Param')

    def received(e, st, a, ins):
        p = e.res(st, a[0])
        v = m.get(st, p, 'sip.Msg', 'Via')
        e.prove(st, bnot(v.null), 'a fixed-up message has a Via', 'pre')
        st.trace.append(('received', p, e.res(st, a[1]), _H(dict(st.heap))))
        x = e.load(st, nn(v))
        st.n += 1
        o = 'params#%d' % st.n
        e.objtypes[o] = via
        e.store(st, nn(v), x.set(m.fields('sip.Via').index('Param'), Ptr(o, (), z3.Bool(o + '==nil'))))

    def strict(e, st, a, ins):
        p = e.res(st, a[2])
        st.trace.append(('strict', p, a[0], a[1], _H(dict(st.heap))))
        x = e.load(st, nn(p))
        st.n += 1
        for f, t in (('Request', 'URI'), ('Route', 'Addr')):
            o = 'fixed%s#%d' % (f, st.n)
            e.objtypes[o] = c.prog.type_by_name('@sip.' + t)
            x = x.set(m.fields('sip.Msg').index(f), Ptr(o, (), z3.Bool(o + '==nil')))
        e.store(st, nn(p), x)
    if 'dialog.addReceived' in which:
        e.contracts['dialog.addReceived'] = received
    if 'dialog.fixMessagesFromStrictRouters' in which:
        e.contracts['dialog.fixMessagesFromStrictRouters'] = strict


def retry(c, walk, run):
    """Repeats a run until the facts about the loops are stable."""
    for attempt in range(4):
        walk.dropped = False
        snap = (len(c.engines), c.extra_ob, c.extra_dis, len(c.fails))
        r = run()
        if not walk.dropped:
            return r
        rollback(c, snap)
    raise Unsupported('no stable facts about the loops')


def rollback(c, snap):
    del c.engines[snap[0]:]
    c.extra_ob, c.extra_dis = snap[1], snap[2]
    del c.fails[snap[3]:]


def modular(c, name, f, *a):
    """First with the contracts of the fix-ups; should that fail (the code is divided in another way), with their bodies."""
    snap = (len(c.engines), c.extra_ob, c.extra_dis, len(c.fails))
    which = [n for n in SIGS if has(c, n)]
    c.section(name, f, *a, which)
    if which and c.all_fails():
        rollback(c, snap)
        more_time(220)
        c.section(name + ', bodies instead of contracts', f, *a, [])


def ports(c, e, st):
    for o in ('laddr', 'from'):
        p = e.objval(st, o).f[[f['name'] for f in c.prog.u(c.prog.type_by_name('net.UDPAddr'))['fields']].index('Port')]
        e.assume(st, lcmp('>=', p, 0))
        e.assume(st, lcmp('<=', p, 65535))


def iterate(c, L, label, final, which):
    """Runs the loop; final(e, m, state, back) for the ends of an arbitrary iteration."""
    walk = ListWalk(c, L.nx)

    def run():
        e, m = engine(c, L, label, walk)
        stubs(c, e, m, which)
        f = c.fn(FN)

        def havoc(e, st, fr, blk):
            for j in range(blk['nphi']):
                raise Unsupported('the receive loop carries %s' % blk['instrs'][j]['n'])
        ends = []
        cut = Cut(f, outer_loop(f), havoc, lambda e, st, fr: ends.append((st, True)), frame=lambda st, o: isinstance(st.ghost.get('buf'), SliceV) and o == st.ghost['buf'].obj).install(e)
        st = c.state(e)
        ports(c, e, st)
        hook(e, m)
        for o in c.call(e, FN, [Ptr('sock'), Opaque('c'), Opaque('e')], st):
            ends.append((o, False))
        return e, m, cut, ends
    e, m, cut, ends = retry(c, walk, run)
    for o, back in ends:
        final(e, m, o, back)
    return e, cut, walk


def hook(e, m):
    """Remembers what is sent."""
    orig = e.instr

    def instr(st, fr, ins):
        if ins['op'] == 'send':
            v = e.val(st, ins['x'])
            ch = e.val(st, ins['chan'])
            if isinstance(v, Ptr) and ch == Opaque('c'):
                st.ghost['sent'] = _H(dict(st.heap))
                st.ghost['nsent'] = st.ghost.get('nsent', 0) + 1
        return orig(st, fr, ins)
    e.instr = instr
