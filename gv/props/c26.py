"""C26: delivered messages are immune to later traffic."""
from .common import *
from .lists import *
from .recv import *

REPLAY = [('dialog', 'TestVerifC26')]
TRUSTED = ['(*net.UDPConn).ReadFromUDP stores one datagram of at most %d bytes and yields its source, or fails' % MAXUDP]
ASSUME = ['the application does not write into the body it is given']


def verify(c):
    L = Lists(c.prog)
    modular(c, 'ReceiveMessages: an arbitrary iteration', loop, c, L)
    c.section('ParseMsg keeps nothing', keeps, c)


def loop(c, L, which):
    fn = FN
    seen = {}

    def final(e, m, o, back):
        tr = o.trace
        b = o.ghost.get('buf')
        if b is not None:
            c.ensures(e, o, lcmp('>=', b.len, MAXUDP), 'every datagram fits into the receive buffer', fn)
        if not back:
            return
        ps = [t for t in tr if t[0] == 'parse']
        rd = [t for t in tr if t[0] == 'read']
        snd = [t for t in tr if t[0] == 'send']
        c.ensures(e, o, len(ps) <= 1 and len(rd) == 1 and len(snd) <= len(ps), 'each delivered message is parsed from its own datagram', fn)
        for t in ps:
            d, r = t[1], t[2]
            old = o.ghost['cutheap:' + c.fn(fn).name].h
            c.ensures(e, o, isinstance(d.obj, str) and isnew(d.obj) and d.obj not in old, 'a message is parsed from memory of its own', fn)
            c.ensures(e, o, e.rope_eq(o, r, ratom('dgram')), 'a message is parsed from exactly the bytes of its datagram', fn)
            if isinstance(d.obj, str) and d.obj in o.heap:
                v = e.objval(o, d.obj)
                c.ensures(e, o, isinstance(v, BytesObj) and e.rope_eq(o, rslice(v.rope, d.off, ladd(d.off, d.len), lambda x: e.decide(o, x)), r),
                          'the bytes parsed stay as they are', fn)
        for t in snd:
            seen['sent'] = 1
            c.ensures(e, o, t[2].obj == 'msg^' and tr.index(rd[0]) < tr.index(ps[0]) < tr.index(t), 'the message delivered is the one parsed from this datagram', fn)
            c.ensures(e, o, all(V.same(o.heap.get(k), v) for k, v in o.ghost['sent'].h.items()), 'nothing is modified after the delivery', fn)
    e, cut, walk = iterate(c, L, fn, final, which)
    c.obligation('sent' in seen, 'vacuity guard: messages are delivered', '')


def keeps(c):
    """No function reachable from ParseMsg writes to memory that outlives it: nothing is stored to, or kept through, a global."""
    p = c.prog
    work, done = [c.fn('sip.ParseMsg').name], set()
    reach = []
    while work:
        n = work.pop()
        if n in done:
            continue
        done.add(n)
        f = p.funcs.get(n)
        if f is None or not f.blocks:
            continue
        reach.append(f)
        for b in f.blocks:
            for i in b['instrs']:
                for x in operands(i):
                    if x.get('k') == 'f':
                        work.append(x['n'])
                if i['op'] == 'call' and i.get('recv') is not None:
                    for tn, m in p.methods.items():
                        if tn.endswith('.' + i['mname']):
                            work.append(m)
    c.functions |= {f.pretty for f in reach}
    n = 0
    for f in reach:
        bad = taint(p, f)
        n += 1
        c.obligation(not bad, '%s writes no global and hands none out' % f.pretty, '; '.join(bad))
        for b in f.blocks:
            for i in b['instrs']:
                c.obligation(i['op'] not in ('go', 'send'), '%s shares nothing with other goroutines' % f.pretty, str(i.get('line'))) if i['op'] in ('go', 'send') else None
    c.obligation(n >= 5, 'vacuity guard: functions reachable from ParseMsg', str(n))


def operands(i):
    out = []

    def rec(x):
        if isinstance(x, dict):
            if 'k' in x and 'n' in x and isinstance(x['k'], str):
                out.append(x)
            else:
                for v in x.values():
                    rec(v)
        elif isinstance(x, list):
            for v in x:
                rec(v)
    for k, v in i.items():
        if k in ('op', 'n', 't', 'line'):
            continue
        rec(v)
    return out


def plain(p, t):
    """Values of this type carry no reference to memory that can be written."""
    u = p.u(t)
    if u['k'] == 'basic':
        return True
    if u['k'] == 'struct':
        return all(plain(p, f['t']) for f in u['fields'])
    if u['k'] == 'array':
        return plain(p, u['e'])
    if u['k'] == 'iface' and p.tname(t) == 'error':
        return True
    return u['k'] in ('func', 'sig')


def taint(p, f):
    """Uses of globals other than reading plain values out of them."""
    bad, reg = [], set()
    for _ in range(10):
        n = len(reg)
        for b in f.blocks:
            for i in b['instrs']:
                ops = operands(i)
                dirty = any(x['k'] == 'g' or x['k'] == 'r' and x['n'] in reg for x in ops)
                if not dirty:
                    continue
                if i['op'] == 'store' or i['op'] in ('call', 'return', 'send', 'makeclosure', 'mapupdate', 'makeinterface', 'go', 'defer'):
                    bad.append('%s in line %s' % (i['op'], i.get('line')))
                    continue
                if 'n' in i and 't' in i and not plain(p, i['t']):
                    reg.add(i['n'])
        if len(reg) == n:
            break
    return sorted(set(bad))
