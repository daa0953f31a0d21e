"""Symbolic execution of the Plan 9 amd64 assembly in /repo/dsp into 64-bit vector terms."""
import re
import z3
from .vals import Unsupported, simp

REGS = {'AX', 'BX', 'CX', 'DX', 'SI', 'DI', 'BP', 'R8', 'R9', 'R10', 'R11', 'R12', 'R13', 'R14', 'R15'}


def parse(path):
    macros, funcs, cur = {}, {}, None
    src = re.sub(r'/\*.*?\*/', '', open(path).read(), flags=re.S)
    for n, raw in enumerate(src.split('\n'), 1):
        line = re.sub(r'//.*', '', raw).strip()
        if not line:
            continue
        m = re.match(r'#define\s+(\w+)\s+(.*)', line)
        if m:
            macros[m.group(1)] = m.group(2).strip()
            continue
        if line.startswith('#'):
            continue
        for part in line.split(';'):
            part = part.strip()
            if not part:
                continue
            m = re.match(r'TEXT\s+[·\w]*·(\w+)', part)
            if m:
                cur = funcs[m.group(1)] = {'ins': [], 'labels': {}, 'line': n}
                continue
            while True:
                m = re.match(r'(\w+):\s*(.*)', part)
                if not m:
                    break
                cur['labels'][m.group(1)] = len(cur['ins'])
                part = m.group(2)
            if not part:
                continue
            f = part.split(None, 1)
            ops = []
            if len(f) > 1:
                depth, buf = 0, ''
                for ch in f[1] + ',':
                    if ch == ',' and depth == 0:
                        ops.append(macros.get(buf.strip(), buf.strip()))
                        buf = ''
                    else:
                        depth += {'(': 1, ')': -1}.get(ch, 0)
                        buf += ch
            cur['ins'].append((f[0], ops, n))
    return funcs


class Mem:
    """Named memory regions of 16-bit lanes."""

    def __init__(self, regions):
        self.r = {k: list(v) for k, v in regions.items()}

    def copy(self):
        return Mem(self.r)


class Path:
    def __init__(self):
        self.pc, self.i, self.regs, self.x = 0, 0, {}, {}
        self.cond, self.flags, self.rets, self.steps = [], None, {}, 0
        self.mem = None

    def copy(self):
        p = Path()
        p.i, p.regs, p.x = self.i, dict(self.regs), dict(self.x)
        p.cond, p.flags, p.rets, p.steps = list(self.cond), self.flags, dict(self.rets), self.steps
        p.mem = self.mem.copy()
        return p


def bv(v):
    return z3.BitVecVal(v, 64) if isinstance(v, int) else v


class Asm:
    """args: name -> 64-bit term or ('ptr', region, byte offset)."""

    def __init__(self, func, args, mem, prove):
        self.f, self.args, self.prove = func, args, prove
        self.mem = mem

    def run(self):
        p = Path()
        p.mem = self.mem.copy()
        work, done = [p], []
        while work:
            p = work.pop()
            while True:
                if p.i >= len(self.f['ins']):
                    raise Unsupported('falls off the end')
                op, ops, line = self.f['ins'][p.i]
                p.i += 1
                p.steps += 1
                if p.steps > 20000:
                    raise Unsupported('too many steps')
                if op == 'RET':
                    done.append(p)
                    break
                if op == 'JMP':
                    p.i = self.f['labels'][ops[0]]
                    continue
                if op.startswith('J'):
                    c = simp(self.jcc(p, op))
                    if isinstance(c, bool):
                        if c:
                            p.i = self.f['labels'][ops[0]]
                        continue
                    s = z3.Solver()
                    s.add(*p.cond)
                    t = s.check(c) != z3.unsat
                    f = s.check(z3.Not(c)) != z3.unsat
                    if t and f:
                        q = p.copy()
                        q.cond.append(c)
                        q.i = self.f['labels'][ops[0]]
                        work.append(q)
                        p.cond.append(z3.Not(c))
                    elif t:
                        p.i = self.f['labels'][ops[0]]
                    continue
                self.ins(p, op, ops, line)
        return done

    def jcc(self, p, op):
        if p.flags is None:
            raise Unsupported('flags not set')
        k, a, b = p.flags
        z, r = z3.BitVecVal(0, 64), None
        if k == 'cmp':
            t = {'JE': a == b, 'JEQ': a == b, 'JZ': a == b, 'JNE': a != b, 'JNZ': a != b, 'JS': (a - b) < z, 'JMI': (a - b) < z, 'JPL': (a - b) >= z,
                 'JNS': (a - b) >= z, 'JGE': a >= b, 'JGT': a > b, 'JG': a > b, 'JLE': a <= b, 'JLT': a < b, 'JL': a < b,
                 'JHI': z3.UGT(a, b), 'JHS': z3.UGE(a, b), 'JCC': z3.UGE(a, b), 'JLO': z3.ULT(a, b), 'JCS': z3.ULT(a, b), 'JLS': z3.ULE(a, b),
                 'JA': z3.UGT(a, b), 'JAE': z3.UGE(a, b), 'JB': z3.ULT(a, b), 'JBE': z3.ULE(a, b)}
            r = t.get(op)
        else:   # logical / inc / dec result: a is the result; b: overflow condition
            s = a < z
            t = {'JE': a == z, 'JEQ': a == z, 'JZ': a == z, 'JNE': a != z, 'JNZ': a != z, 'JS': s, 'JMI': s, 'JPL': z3.Not(s), 'JNS': z3.Not(s)}
            if b is not None:
                t.update({'JGE': s == b, 'JLT': s != b, 'JL': s != b, 'JGT': z3.And(a != z, s == b), 'JG': z3.And(a != z, s == b), 'JLE': z3.Or(a == z, s != b)})
            r = t.get(op)
        if r is None:
            raise Unsupported('branch ' + op)
        return r

    def get(self, p, o):
        if o.startswith('$'):
            return z3.BitVecVal(int(o[1:], 0) & ((1 << 64) - 1), 64)
        if o in REGS:
            if o not in p.regs:
                raise Unsupported('register %s read before it is set' % o)
            return p.regs[o]
        m = re.match(r'(\w+)\+(\d+)\(FP\)$', o)
        if m:
            if m.group(1) in p.rets:
                return p.rets[m.group(1)]
            return self.args[m.group(1)]
        raise Unsupported('operand ' + o)

    def put(self, p, o, v):
        if o in REGS:
            p.regs[o] = v if isinstance(v, tuple) else z3.simplify(v)
            return
        m = re.match(r'(\w+)\+(\d+)\(FP\)$', o)
        if m:
            p.rets[m.group(1)] = v
            return
        raise Unsupported('destination ' + o)

    def addr(self, p, o):
        m = re.match(r'(-?\w*)\((\w+)\)$', o)
        if not m or m.group(2) not in REGS:
            raise Unsupported('address ' + o)
        b = p.regs.get(m.group(2))
        if not isinstance(b, tuple):
            raise Unsupported('address in %s is not a pointer' % o)
        return b[1], b[2] + (int(m.group(1), 0) if m.group(1) else 0)

    def load16(self, p, o, line):
        r, off = self.addr(p, o)
        n = len(p.mem.r[r])
        ok = off % 2 == 0 and 0 <= off and off + 16 <= 2 * n
        self.prove(p, ok, 'line %d: 16-byte load inside the %s frame' % (line, r))
        if not ok:
            raise Unsupported('load outside')
        return p.mem.r[r][off // 2:off // 2 + 8]

    def ins(self, p, op, ops, line):
        if op in ('MOVOU', 'MOVO', 'MOVOA', 'MOVUPS', 'MOVAPS', 'MOVUPD', 'MOVAPD'):
            a, b = ops
            aligned = op in ('MOVO', 'MOVOA', 'MOVAPS', 'MOVAPD')
            v = p.x[a] if a in p.x else None
            if v is None:
                if re.match(r'X\d+$', a):
                    raise Unsupported('vector register read before it is set')
                if aligned:
                    self.prove(p, False, 'line %d: aligned access needs a 16-byte aligned frame' % line)
                v = self.load16(p, a, line)
            if re.match(r'X\d+$', b):
                p.x[b] = list(v)
            else:
                if aligned:
                    self.prove(p, False, 'line %d: aligned access needs a 16-byte aligned frame' % line)
                r, off = self.addr(p, b)
                n = len(p.mem.r[r])
                ok = off % 2 == 0 and 0 <= off and off + 16 <= 2 * n
                self.prove(p, ok, 'line %d: 16-byte store inside the %s frame' % (line, r))
                if not ok:
                    raise Unsupported('store outside')
                p.mem.r[r][off // 2:off // 2 + 8] = list(v)
            return
        lanes = {'PADDSW': lambda a, b: sat(z3.SignExt(1, a) + z3.SignExt(1, b)), 'PADDW': lambda a, b: a + b,
                 'PSUBSW': lambda a, b: sat(z3.SignExt(1, b) - z3.SignExt(1, a)), 'PSUBW': lambda a, b: b - a,
                 'PADDUSW': lambda a, b: z3.If(z3.UGE(a + b, a), a + b, z3.BitVecVal(0xffff, 16)),
                 'PAND': lambda a, b: a & b, 'POR': lambda a, b: a | b, 'PXOR': lambda a, b: a ^ b,
                 'PMAXSW': lambda a, b: z3.If(a > b, a, b), 'PMINSW': lambda a, b: z3.If(a < b, a, b)}
        if op in lanes:
            a, b = ops
            if a in p.x:
                v = p.x[a]
            else:
                self.prove(p, False, 'line %d: vector memory operand needs a 16-byte aligned frame' % line)
                v = self.load16(p, a, line)
            p.x[b] = [z3.simplify(lanes[op](x, y)) for x, y in zip(v, p.x[b])]
            return
        if op in ('MOVQ', 'LEAQ'):
            if op == 'LEAQ':
                r, off = self.addr(p, ops[0])
                self.put(p, ops[1], ('ptr', r, off))
                return
            self.put(p, ops[1], self.get(p, ops[0]))
            return
        if op in ('INCQ', 'DECQ', 'NOTQ', 'NEGQ'):
            v = self.get(p, ops[0])
            one = z3.BitVecVal(1, 64)
            if isinstance(v, tuple):
                raise Unsupported(op + ' of a pointer')
            r = {'INCQ': lambda: v + one, 'DECQ': lambda: v - one, 'NOTQ': lambda: ~v, 'NEGQ': lambda: -v}[op]()
            self.put(p, ops[0], r)
            if op == 'INCQ':
                p.flags = ('res', r, r == z3.BitVecVal(1 << 63, 64))
            elif op == 'DECQ':
                p.flags = ('res', r, v == z3.BitVecVal(1 << 63, 64))
            elif op == 'NEGQ':
                p.flags = ('cmp', z3.BitVecVal(0, 64), v)
            return
        if op in ('CMPQ', 'TESTQ'):
            a, b = self.get(p, ops[0]), self.get(p, ops[1])
            p.flags = ('cmp', a, b) if op == 'CMPQ' else ('res', a & b, z3.BoolVal(False))
            return
        if op in ('ADDQ', 'SUBQ', 'ANDQ', 'ORQ', 'XORQ', 'IMULQ'):
            a, b = self.get(p, ops[0]), self.get(p, ops[1])
            if isinstance(b, tuple):
                a = simp(a)
                if not isinstance(a, int) or op not in ('ADDQ', 'SUBQ'):
                    raise Unsupported('pointer arithmetic')
                if a >> 63:
                    a -= 1 << 64
                self.put(p, ops[1], ('ptr', b[1], b[2] + (a if op == 'ADDQ' else -a)))
                p.flags = None
                return
            r = {'ADDQ': lambda: b + a, 'SUBQ': lambda: b - a, 'ANDQ': lambda: b & a, 'ORQ': lambda: b | a, 'XORQ': lambda: b ^ a,
                 'IMULQ': lambda: b * a}[op]()
            self.put(p, ops[1], r)
            if op == 'SUBQ':
                p.flags = ('cmp', b, a)
            elif op == 'ADDQ':
                ov = z3.And((a < 0) == (b < 0), (r < 0) != (b < 0))
                p.flags = ('res', r, ov)
            elif op == 'IMULQ':
                p.flags = None
            else:
                p.flags = ('res', r, z3.BoolVal(False))
            return
        if op in ('SARQ', 'SHLQ', 'SHRQ', 'SALQ'):
            n = self.get(p, ops[0]) & 63
            v = self.get(p, ops[1])
            r = {'SARQ': lambda: v >> n, 'SHLQ': lambda: v << n, 'SALQ': lambda: v << n, 'SHRQ': lambda: z3.LShR(v, n)}[op]()
            self.put(p, ops[1], r)
            p.flags = None
            return
        if op in ('BSRQ', 'BSFQ'):
            v = self.get(p, ops[0])
            self.prove(p, v != 0, 'line %d: bit scan of a nonzero value' % line)
            r = z3.BitVecVal(0, 64)
            rng = range(1, 64) if op == 'BSRQ' else range(63, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, 64), r)
            self.put(p, ops[1], r)
            p.flags = None
            return
        if op.startswith('CMOVQ'):
            c = self.jcc(p, 'J' + op[5:])
            self.put(p, ops[1], z3.If(c, self.get(p, ops[0]), self.get(p, ops[1])))
            return
        if op in ('NOP', 'PCALIGN'):
            return
        raise Unsupported('instruction ' + op)


def sat(x):
    """17-bit sum to 16 bits with saturation."""
    return z3.If(x > 32767, z3.BitVecVal(32767, 16), z3.If(x < -32768, z3.BitVecVal(-32768, 16), z3.Extract(15, 0, x)))
