import z3
from .. import models, vals as V, exec as X
from ..vals import *
from ..ir import MOD


def same_val(e, st, a, b):
    """Condition that two values are equal."""
    if V.same(a, b):
        return True
    if isinstance(a, StructV) and isinstance(b, StructV):
        c = True
        for x, y in zip(a.f, b.f):
            c = X.band2(c, same_val(e, st, x, y))
        return c
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        c = True
        for x, y in zip(a.e, b.e):
            c = X.band2(c, same_val(e, st, x, y))
        return c
    if isinstance(a, (BufV, BytesObj)) and type(a) == type(b):
        return e.rope_eq(st, a.rope, b.rope)
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return a == b
    return e.equal(st, a, b, None)


def outer_loop(fn):
    """Head of the loop with the largest body."""
    h = fn.loop_heads()
    return max(h, key=lambda b: len(h[b])) if h else None


class Cut:
    """Loop contract by cutting: on entry the loop state is made arbitrary (within the invariant), an arbitrary
    iteration is executed, and paths that come back to the head end there after `back` has checked them."""

    def __init__(self, fn, head, havoc, back, frame=()):
        self.fn, self.head, self.havoc, self.back, self.frame = fn, head, havoc, back, frame
        self.entries = 0
        self.backs = 0

    def install(self, e):
        key = (self.fn.name, e.loop_ordinal(self.fn, self.head))
        e.inv[key] = self
        return self

    def __call__(self, e, st, fr, blk, body):
        if fr.prev not in body:
            self.entries += 1
            self.havoc(e, st, fr, blk)
            st.ghost['cut:' + self.fn.name] = tuple(sorted((k, id(v)) for k, v in st.heap.items()))
            st.ghost['cutheap:' + self.fn.name] = _Heap(dict(st.heap))
            return None
        self.backs += 1
        old = st.ghost['cutheap:' + self.fn.name].h
        for o, v in old.items():
            if self.frame(st, o) if callable(self.frame) else o in self.frame:
                continue
            if not V.same(st.heap.get(o), v):
                e.prove(st, same_val(e, st, st.heap[o], v), 'loop keeps object %s' % o, 'invariant', fn=self.fn.name)
        self.back(e, st, fr)
        raise X.PathDone()


class _Heap:
    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)
