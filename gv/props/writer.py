"""Loops that write a field byte by byte: the contract of such a loop is that each byte of the field is written as one of finitely
many texts that depend on that byte only.  An arbitrary round of the loop gives these texts; the field as written is then the
symbol F('esc', (field, texts)), which wire.Run reads back."""
from .common import *
from .wire import Run, Number, unit, units


class Writer:
    def __init__(self, c, e):
        self.c, self.e = c, e
        self.n = 0
        e.merge = False

        class Inv(dict):
            def get(s, k, d=None):
                return self if k == '*' else dict.get(s, k, d)
        e.inv = Inv()

    def __call__(self, e, st, fr, blk, body):
        if fr.prev in body:
            raise Unsupported('loop entered twice')
        head, depth = fr.b, len(st.frames)
        phis = [i['n'] for i in blk['instrs'][:blk['nphi']]]
        bs = [k for k, v in st.heap.items() if isinstance(v, BufV)]
        if len(bs) != 1:
            raise Unsupported('%d buffers' % len(bs))
        b = bs[0]
        self.n += 1
        k = atom('writer:%d' % self.n, 0, 1 << 40)
        entry = {n: st.fr.regs[n] for n in phis}
        snap = st.clone()
        s = st.clone()
        for n in phis:
            s.fr.regs[n] = shift(entry[n], k)
        s.heap[b] = BufV(rapp('sofar'))
        s.fr.i, s.fr.pend = blk['nphi'], False

        def stop(x):
            f = x.frames[-1]
            return len(x.frames) == depth and (f.b not in body or f.b == head)
        back, leave, names = [], [], set()
        for o in e.run(s, depth - 1, stop):
            if o.done == 'stop' and o.fr.b == head:
                o.done = None
                e.phis(o, o.fr, blk)
                back.append(o)
                names |= {x[3:x.rindex('[')] for x in o.bm if x.startswith('el:')}
                names |= {u[1].id[3:u[1].id.rindex('[')] for u in units(o.heap[b].rope) if u[0] == 'B' and isinstance(u[1], FB)}
            else:
                leave.append(o)
        fn = fr.fn.name
        if len(names) != 1:
            raise Unsupported('a loop over the bytes of %s' % (sorted(names) or 'nothing'))
        X_ = names.pop()
        L = atom_len(X_)
        for o in leave:
            self.c.ensures(e, o, lcmp('<=', L, k), 'every byte of %s is written' % X_, fn)
        var, cover = [], 0
        for o in back:
            for n in phis:
                self.c.ensures(e, o, same_val(e, o, o.fr.regs[n], shift(entry[n], ladd(k, 1))), 'the loop advances by one byte per round', fn)
            for ob, v in snap.heap.items():
                if ob != b and not V.same(o.heap.get(ob), v):
                    self.c.ensures(e, o, same_val(e, o, o.heap[ob], v), 'the loop writes nothing but its output', fn)
            r = units(o.heap[b].rope)
            if not r or r[0][0] != 'F' or r[0][1] != 'sofar':
                raise Unsupported('the output is not extended')
            m = o.bm.get('el:%s[%r]' % (X_, norm(k)), e.elem_mask('el:%s[x]' % X_))
            if m & cover:
                raise Unsupported('what is written for a byte of %s depends on more than the byte' % X_)
            cover |= m
            out = []
            for u in r[1:]:
                if u[0] == 'B' and isinstance(u[1], FB):
                    if u[1].id != 'el:%s[%r]' % (X_, norm(k)):
                        raise Unsupported('another byte is written')
                    out.append(('B', FB('el:%s[j]' % X_, u[1].tab)))
                elif u[0] == 'L':
                    out.append(u)
                else:
                    raise Unsupported('piece %r in a loop' % (u,))
            var.append((m, tuple(out)))
        n = snap.clone()
        for r in phis:
            n.fr.regs[r] = shift(entry[r], L)
        n.heap[b] = BufV(rcat(snap.heap[b].rope, rapp('esc', X_, tuple(sorted(var, key=repr)))))
        n.fr.i, n.fr.pend = blk['nphi'], False
        return [n]


def shift(v, k):
    if isinstance(v, (int, Lin)) and not isinstance(v, bool):
        return ladd(v, k)
    if isinstance(v, SliceV):
        return SliceV(v.obj, ladd(v.off, k), lsub(v.len, k), lsub(v.cap, k), v.path)
    raise Unsupported('loop variable %r' % (v,))


def esc_run(rd, field, var, name=None):
    """The run that reads back a field written by such a loop."""
    name = name or field
    vs = []
    for i, (m, us) in enumerate(var):
        nm = '%s~%d' % (name, i)
        rd.e.atommask[nm] = m
        x = FB('el:%s[j]' % nm)
        vs.append(([FB(x.id, u[1].tab) if u[0] == 'B' else u[1][0] for u in us], [x]))
    return Run(name, vs)


def may_write(var, b):
    """Whether the byte occurs in the field as written."""
    for m, us in var:
        for u in us:
            if u[0] == 'L':
                if b in u[1]:
                    return True
            elif any(m >> x & 1 and u[1].tab[x] == b for x in range(256)):
                return True
    return False
