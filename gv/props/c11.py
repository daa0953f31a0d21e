"""C11: the mu-law codec is exact for every sample."""
import os, time, z3
from .common import *
from .. import asm

REPLAY = [('dsp', 'TestVerifC11')]
TRUSTED = ['meaning of the amd64 instructions used by dsp_amd64.s, as written in gv/asm.py',
           'the Go assembler encodes dsp_amd64.s faithfully']


def bv(v):
    return z3.BitVecVal(v, 64)


class Prover:
    def __init__(self, c, label):
        self.c, self.label, self.t = c, label, 0.0

    def prove(self, path, cond, what, hyp=()):
        if isinstance(cond, bool):
            return self.c.obligation(cond, self.label + ': ' + what)
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(*[h for h in hyp])
        if path is not None:
            s.add(*path.cond)
        s.add(z3.Not(cond))
        t = time.time()
        r = s.check()
        self.t += time.time() - t
        return self.c.obligation(r == z3.unsat, self.label + ': ' + what, str(s.model())[:300] if r == z3.sat else str(r))


def load(c):
    from ..run import REPO
    fs = {}
    d = os.path.join(REPO, 'dsp')
    for n in sorted(os.listdir(d)):
        if n.endswith('.s'):
            fs.update(asm.parse(os.path.join(d, n)))
    return fs


def spec_enc(x):
    """G.711 mu-law code of a 16-bit sample, as a 64-bit term (x: 64-bit, within 16 bits)."""
    m = z3.If(x < 0, -x, x) + 132
    out = None
    for seg in range(7, -1, -1):
        code = bv(seg << 4) | (z3.LShR(m, seg + 3) & 15)
        out = code if out is None else z3.If(z3.ULT(m, bv(1 << (seg + 8))), code, out)
    out = z3.If(z3.UGE(m, bv(1 << 15)), bv(0x7f), out)
    return z3.If(x < 0, bv(0x7f), bv(0xff)) ^ out


def spec_dec(code):
    u = ~code & 0xff
    t = (((u & 15) << 3) + 132) << (z3.LShR(u, 4) & 7)
    return z3.If((u & 0x80) != 0, 132 - t, t - 132)


def result(p, name):
    return p.rets[name]


def encode(c, fs):
    pr = Prover(c, 'LinearToUlaw')
    s = z3.BitVec('sample', 16)
    x = z3.SignExt(48, s)
    outs = asm.Asm(fs['LinearToUlaw'], {'linear': x}, asm.Mem({}), pr.prove).run()
    c.functions.add('dsp.LinearToUlaw')
    for p in outs:
        pr.prove(p, result(p, 'ulaw') == spec_enc(x), 'postcondition: the G.711 code of the sample (path of %d instructions)' % p.steps)
    c.obligation(len(outs) > 0, 'LinearToUlaw returns')
    # the paths cover every sample
    pr.prove(None, z3.Or(*[z3.And(*p.cond) if p.cond else z3.BoolVal(True) for p in outs]), 'every sample is covered by a path')
    c.notes.append('solver %.2fs for LinearToUlaw' % pr.t)


def decode(c, fs):
    pr = Prover(c, 'UlawToLinear')
    b = z3.BitVec('code', 8)
    x = z3.ZeroExt(56, b)
    outs = asm.Asm(fs['UlawToLinear'], {'ulaw': x}, asm.Mem({}), pr.prove).run()
    c.functions.add('dsp.UlawToLinear')
    for p in outs:
        pr.prove(p, result(p, 'linear') == spec_dec(x), 'postcondition: the G.711 value of the code (path of %d instructions)' % p.steps)
    c.obligation(len(outs) > 0, 'UlawToLinear returns')
    pr.prove(None, z3.Or(*[z3.And(*p.cond) if p.cond else z3.BoolVal(True) for p in outs]), 'every code is covered by a path')


def lemmas(c):
    pr = Prover(c, 'codec lemma')
    b = z3.ZeroExt(56, z3.BitVec('code', 8))
    d = spec_dec(b)
    pr.prove(None, z3.And(d >= -32768, d <= 32767), 'decoded values are 16-bit samples')
    pr.prove(None, z3.Implies(b != 0x7f, spec_enc(d) == b), 'encode(decode(code)) = code for every code but negative zero')
    pr.prove(None, spec_enc(spec_dec(bv(0x7f))) == 0xff, 'negative zero re-encodes as zero')
    x = z3.SignExt(48, z3.BitVec('sample', 16))
    m = z3.If(x < 0, -x, x)
    cd = spec_enc(x)
    seg = z3.LShR(~cd & 0x7f, 4)
    err = spec_dec(cd) - x
    err = z3.If(err < 0, -err, err)
    pr.prove(None, z3.Implies(m <= 32635, err <= (bv(4) << seg)), 'decode(encode(x)) errs by at most half the interval width')
    pr.prove(None, z3.Implies(m > 32635, cd == z3.If(x < 0, bv(0), bv(0x80))), 'louder input gets the loudest code of its sign')


def verify(c):
    fs = load(c)
    c.section('LinearToUlaw contract', encode, c, fs)
    c.section('UlawToLinear contract', decode, c, fs)
    c.section('round trip and error lemmas', lemmas, c)
