"""C13: the noise generator is safe and deterministic.

Floating point arithmetic is abstracted to uninterpreted functions of its operands (comparisons and conversions keep their
meaning), so what is proved holds for every value the arithmetic may give."""
import z3
from .common import *
from .lists import B, ev, frame, Msgs, isnew

REPLAY = [('dsp', 'TestVerifC13')]
SECS = 5
ASSUME = ['floating point arithmetic abstracted to uninterpreted functions (comparison and conversion exact)',
          'table contents abstracted to arbitrary numbers']
MOD_ = {'ix1': 259200, 'ix2': 134456, 'ix3': 243000}
F64 = z3.Float64()


def fp(name):
    return z3.FP(name, F64)


def key(x):
    return x.sexpr() if isinstance(x, z3.ExprRef) else repr(x)


def engine(c, label, con=None):
    pure = lambda n: (lambda e, st, a, ins: named('%s(%s)' % (n, ','.join(key(x) for x in a))))
    m = {'math.' + n: pure(n) for n in ('Pow', 'Sqrt', 'Log', 'Exp', 'Abs', 'Cos', 'Sin', 'Log10', 'Floor', 'Ceil', 'Trunc', 'RoundToEven', 'Round', 'Max', 'Min')}
    e = c.engine(label, con or {}, m)
    names = {}

    def named(s):
        if s not in names:
            names[s] = fp('f%d' % len(names))
        return names[s]

    def fpop(st, tok, x, y):
        if tok in ('<', '<=', '>', '>='):
            return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}[tok](x, y)
        k = [key(x), key(y)]
        if tok in '+*':
            k.sort()
        return named('(%s%s%s)' % (k[0], tok, k[1]))
    e.fpop = fpop
    e.int2fp = lambda st, x, n: named('float(%r)' % (x,))
    e.convs = []

    def fp2int(st, x, n):
        w, s = X.INTW[n]
        lo, hi = float(-(1 << (w - 1))), float(1 << (w - 1))
        ok = z3.Or(z3.fpIsNaN(x), z3.And(z3.fpGT(x, z3.FPVal(lo - 1, F64)), z3.fpLT(x, z3.FPVal(hi, F64))))
        e.prove(st, ok, 'an amplitude is clipped before it becomes a sample', 'arith')
        v = named('trunc:%s' % key(x))
        r = z3.BitVec('s16:%s' % v, w)
        e.convs.append((r, x))
        return r
    e.fp2int = fp2int
    e.symelem = lambda st, a, x: named('table[%r]' % (x,))
    e.symstore = lambda st, a, x, new: a
    intop = e.intop

    def checked(st, tok, x, y, yt):
        r = intop(st, tok, x, y, yt)
        if tok in ('+', '-', '*'):
            e.prove(st, band(lcmp('>=', r, -(1 << 63)), lcmp('<', r, 1 << 63)), 'no overflow', 'arith')
        return r
    e.intop = checked
    return e


def inv(m, st, p, mk):
    """Gives the generators arbitrary values within their moduli."""
    o = m.e.objval(st, p.obj)
    fl = m.fields('dsp.AWGN')
    for n, k in MOD_.items():
        if n in fl:
            o = o.set(fl.index(n), atom(mk + n, 0, k - 1))
    st.heap[p.obj] = o


def holds(c, e, m, s, p, fn):
    v = m.obj(s, p, 'dsp.AWGN')
    for n, k in MOD_.items():
        x = v[n]
        c.ensures(e, s, band(lcmp('>=', x, 0), lcmp('<', x, k)), 'generator %s stays within its modulus' % n, fn)


def loops(c, e, m, find):
    """Every loop: the generators within their moduli, counters at least their initial value."""
    def hook(e, st, fr, blk, body):
        p = find(st)
        name = fr.fn.name
        g = 'loop%d.%s.%d' % (len(st.frames), name, fr.b)
        if fr.prev not in body:
            holds(c, e, m, st, p, name)
            start = {}
            for i in blk['instrs'][:blk['nphi']]:
                v = fr.regs[i['n']]
                if isinstance(v, (int, Lin)) and not isinstance(v, bool):
                    start[i['n']] = v
                    a = atom('%s.%s' % (g, i['n']), -(1 << 62), 1 << 62)
                    st.pc.append(zbool(lcmp('>=', a, v)))
                    fr.regs[i['n']] = a
                elif isinstance(v, z3.FPRef):
                    fr.regs[i['n']] = fp('%s.%s' % (g, i['n']))
                elif isinstance(v, bool) or z3.is_bool(v):
                    fr.regs[i['n']] = z3.Bool('%s.%s' % (g, i['n']))
                else:
                    raise Unsupported('loop variable %r' % (v,))
            st.ghost[g] = tuple(start.items())
            inv(m, st, p, g + '.')
            return None
        holds(c, e, m, st, p, name)
        for n, v in st.ghost[g]:
            c.ensures(e, st, lcmp('>=', fr.regs[n], v), 'counters do not fall below their start', name)
        raise X.PathDone()
    e.inv['*'] = hook


def verify(c):
    c.section('creation', create, c)
    c.section('ran1', ran1, c)
    c.section('Get', get, c)
    c.section('clipping', clip, c)
    c.section('determinism', determinism, c)


def create(c):
    fn = 'dsp.NewAWGN_DBOV'
    e = engine(c, fn)
    m = Msgs(c, e)

    def find(st):
        os = [k for k, v in st.heap.items() if isinstance(v, StructV) and len(v.f) == len(m.fields('dsp.AWGN')) and isnew(k)]
        return Ptr(os[-1], (), False)
    loops(c, e, m, find)
    seed = atom('seed', -(1 << 63), (1 << 63) - 1)
    for o in c.call(e, fn, [seed, fp('level')]):
        holds(c, e, m, o, e.res(o, o.result), fn)
        c.ensures(e, o, lcmp('==', m.get(o, o.result, 'dsp.AWGN', 'iset'), 0), 'a new generator holds no spare sample', fn)
        frame(c, e, o, fn)
    # the other constructors go through it
    for w, args in (('dsp.NewAWGN_DBM0', [seed, fp('level')]), ('dsp.NewAWGN', [fp('level')])):
        def sub(e, st, a, ins):
            st.trace.append(('new', a[0]))
            return Ptr('made^', (), False)
        e2 = engine(c, w, {fn: sub})
        for o in c.call(e2, w, args):
            c.ensures(e2, o, e2.res(o, o.result) == Ptr('made^', (), False) and len(o.trace) == 1, 'creates one generator', w)
            if len(args) == 2:
                c.ensures(e2, o, V.same(o.trace[0][1], seed), 'keeps the seed', w)


def ran1(c):
    fn = '(*dsp.AWGN).ran1'
    e = engine(c, fn)
    m = Msgs(c, e)
    s = m.ptr('s', 'dsp.AWGN', False)
    st = c.state(e)
    inv(m, st, s, 'old.')
    used = []
    e.symelem = lambda st, a, x: (used.append(x), fp('table[%r]' % (x,)))[1]
    for o in c.call(e, fn, [s], st):
        holds(c, e, m, o, s, fn)
        c.ensures(e, o, isinstance(o.result, z3.FPRef) and 'table[' in o.result.sexpr(), 'the number comes from the table', fn)
        frame(c, e, o, fn, ('s^',))
    c.obligation(len(used) > 0, 'vacuity guard: the table is read')


def ran1_contract(m):
    def h(e, st, a, ins):
        st.n += 1
        inv(m, st, e.res(st, a[0]), 'ran%d.' % st.n)
        return fp('ran#%d' % st.n)
    return h


def get(c):
    fn = '(*dsp.AWGN).Get'
    con = {}
    e = engine(c, fn, con)
    m = Msgs(c, e)
    e.contracts['(*dsp.AWGN).ran1'] = ran1_contract(m)
    s = m.ptr('s', 'dsp.AWGN', False)
    st = c.state(e)
    inv(m, st, s, 'old.')
    loops(c, e, m, lambda st: s)
    flag = set()
    for o in c.call(e, fn, [s], st):
        holds(c, e, m, o, s, fn)
        r = o.result
        flag.add('value' if isinstance(r, z3.BitVecRef) else r)
        frame(c, e, o, fn, ('s^',))
        clipped(c, e, o, r, fn)
    c.obligation(len(flag) >= 1, 'vacuity guard')


def clipped(c, e, o, r, fn, amp=None):
    """r is the clipped conversion of an amplitude compared on this path."""
    k = lambda x: z3.FPVal(float(x), F64)
    if isinstance(r, z3.BitVecRef):
        src = [x for v, x in e.convs if V.same(v, r)]
        ok = bool(src) and (amp is None or V.same(src[0], amp))
        c.ensures(e, o, ok, 'the sample is the amplitude', fn)
        return
    r = V.norm(r) if not isinstance(r, int) else r
    r = r - 65536 if isinstance(r, int) and r >= 32768 else r
    c.ensures(e, o, r in (32767, -32768), 'the sample is the amplitude or a limit', fn)
    cands = [amp] if amp is not None else fps(o)
    lim = lambda x: z3.fpGEQ(x, k(32767)) if r == 32767 else z3.fpLEQ(x, k(-32768))
    c.ensures(e, o, z3.Or([lim(x) for x in cands] or [z3.BoolVal(False)]), 'the limit is given only beyond it', fn)


def fps(o):
    out = {}

    def walk(x):
        if z3.is_app(x):
            if isinstance(x, z3.FPRef) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[x.sexpr()] = x
            for y in x.children():
                walk(y)
    for x in o.pc:
        if isinstance(x, z3.ExprRef):
            walk(x)
    return list(out.values())


def clip(c):
    fn = 'dsp.fsaturate'
    if c.prog.fn(fn) is None:
        return          # inlined: covered by Get
    e = engine(c, fn)
    x = fp('amplitude')
    rs = set()
    for o in c.call(e, fn, [x]):
        clipped(c, e, o, o.result, fn, x)
        rs.add(str(o.result)[:3])
    c.obligation(len(rs) == 3, 'vacuity guard: both limits and values between')


def determinism(c):
    """The code reads nothing but its arguments and its own state."""
    seen, work = set(), ['dsp.NewAWGN', 'dsp.NewAWGN_DBM0', 'dsp.NewAWGN_DBOV', '(*dsp.AWGN).Get']
    stores = set()
    for f in c.prog.funcs.values():
        if f.name.endswith('.init'):
            continue
        for b in f.blocks:
            for i in b['instrs']:
                if i['op'] == 'store' and i['addr'].get('k') == 'g':
                    stores.add(i['addr']['n'])
    while work:
        w = work.pop()
        if w in seen:
            continue
        seen.add(w)
        f = c.fn(w)
        for b in f.blocks:
            for i in b['instrs']:
                c.obligation(i['op'] not in ('go', 'select', 'send', 'range', 'next') and not (i['op'] == 'unop' and i.get('tok') == '<-'),
                             'the samples depend on nothing but the generator: %s in %s' % (i['op'], w))
                for k, v in i.items():
                    if isinstance(v, dict) and v.get('k') == 'g':
                        c.obligation(v['n'] not in stores, 'the samples depend on no changing variable: %s in %s' % (v['n'], w))
                if i['op'] in ('call', 'defer'):
                    n = (i.get('fn') or {}).get('n')
                    g = c.prog.funcs.get(n) if isinstance(n, str) else None
                    if g is not None and g.name.startswith(MOD + 'dsp.') or g is not None and g.pretty.startswith('(*dsp.'):
                        work.append(g.pretty)
                    else:
                        c.obligation(isinstance(n, str) and (n.startswith('math.') or n in ('len', 'cap', 'append', 'copy', 'min', 'max')),
                                     'the samples depend on nothing but the generator: call of %r in %s' % (n, w))
