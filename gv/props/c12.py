"""C12: mixing saturates each sample and nothing else."""
import z3
from .common import *
from .. import asm
from .c11 import Prover, load, TRUSTED

REPLAY = [('dsp', 'TestVerifC12')]
ASSUME = ['the two frames are either disjoint or identical']


def mix(c, fs, same):
    pr = Prover(c, 'L16MixSat160 (%s)' % ('same frame' if same else 'two frames'))
    d = [z3.BitVec('d%d' % i, 16) for i in range(160)]
    s = d if same else [z3.BitVec('s%d' % i, 16) for i in range(160)]
    reg = {'dst': d} if same else {'dst': d, 'src': s}
    outs = asm.Asm(fs['L16MixSat160'], {'dst': ('ptr', 'dst', 0), 'src': ('ptr', 'dst' if same else 'src', 0)}, asm.Mem(reg), pr.prove).run()
    c.functions.add('dsp.L16MixSat160')
    c.obligation(len(outs) == 1 and not outs[0].cond, 'one path, whatever the samples')
    for p in outs:
        for i in range(160):
            x = z3.SignExt(16, d[i]) + z3.SignExt(16, s[i])
            want = z3.If(x > 32767, z3.BitVecVal(32767, 16), z3.If(x < -32768, z3.BitVecVal(-32768, 16), z3.Extract(15, 0, x)))
            pr.prove(p, p.mem.r['dst'][i] == want, 'sample %d is the clipped sum' % i)
            if not same:
                pr.prove(p, p.mem.r['src'][i].eq(s[i]), 'source sample %d is unchanged' % i)


def verify(c):
    fs = load(c)
    c.section('L16MixSat160 contract', mix, c, fs, False)
    c.section('L16MixSat160 on one frame', mix, c, fs, True)
