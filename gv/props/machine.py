"""Functions that are state machines written with gotos (the generated parsers): the control points are the blocks with more than
one predecessor that lie on a cycle or behind one; between control points the code is a tree and is executed as it is."""
from .common import *
from .emit import regs_of


class Machine:
    def __init__(self, c, fn):
        self.c, self.fn = c, c.fn(fn)
        self.name = fn
        B = self.fn.blocks
        n = len(B)
        # blocks on a cycle (Tarjan), and everything behind
        self.scc = sccs([b['succs'] for b in B])
        size = {}
        for x in self.scc:
            size[x] = size.get(x, 0) + 1
        cyc = {i for i in range(n) if size[self.scc[i]] > 1 or i in B[i]['succs']}
        seen, work = set(cyc), list(cyc)
        while work:
            for y in B[work.pop()]['succs']:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        self.joins = {i for i in seen if len(B[i]['preds']) > 1}
        # a join that selects among many constants (the number of the state) is followed by a dispatch on it: passing through
        # keeps the constant known
        disp = {j for j in self.joins if any(len({str(x['v']) for x in i['edges'] if x['k'] == 'c'}) >= 3 for i in B[j]['instrs'][:B[j]['nphi']])}
        rest = [[y for y in b['succs'] if y not in self.joins - disp] for b in B]
        cc = sccs(rest)
        cnt = {}
        for x in cc:
            cnt[x] = cnt.get(x, 0) + 1
        self.joins -= {j for j in disp if cnt[cc[j]] == 1 and j not in rest[j]}
        self.live = self.liveness()
        self.types = {}
        for b in B:
            for i in b['instrs']:
                if 'n' in i:
                    self.types[i['n']] = i.get('t')
        for p in self.fn.params:
            self.types[p['n']] = p['t']

    def liveness(self):
        """Registers needed at the start of each block, after its phis."""
        B = self.fn.blocks
        use, dfn, phid = [], [], []
        for b in B:
            u, d, pd = set(), set(), set()
            for k, i in enumerate(b['instrs']):
                if k < b['nphi']:
                    pd.add(i['n'])
                    continue
                u |= set(regs_of(i)) - d
                if 'n' in i:
                    d.add(i['n'])
            use.append(u)
            dfn.append(d)
            phid.append(pd)
        inn = [set(u) for u in use]
        work = set(range(len(B)))
        while work:
            x = work.pop()
            out = set()
            for s in B[x]['succs']:
                k = B[s]['preds'].index(x)
                out |= inn[s] - phid[s]
                for i in B[s]['instrs'][:B[s]['nphi']]:
                    for pi, p in enumerate(B[s]['preds']):
                        if p == x and i['edges'][pi]['k'] == 'r':
                            out.add(i['edges'][pi]['n'])
            new = use[x] | (out - dfn[x])
            if new != inn[x]:
                inn[x] = new
                work |= set(B[x]['preds'])
        return inn

    def install(self, e):
        """The engine must not look for loops in the machine itself."""
        old = e.loop_head

        def loop_head(st, fr, blk):
            if fr.fn is self.fn:
                return None
            return old(st, fr, blk)
        e.loop_head = loop_head

    def stop(self, st):
        f = st.frames[-1]
        return len(st.frames) == 1 and f.prev is not None and f.b in self.joins

    def begin(self, e, st, args):
        """Runs from the entry to the first control points."""
        e.start(st, self.fn, args)
        st.frames[-1].prev = None
        return self.collect(e, e.run(st, 0, self.stop))

    def collect(self, e, outs):
        res = []
        for o in outs:
            if o.done == 'stop':
                o.done = None
                fr = o.frames[-1]
                e.phis(o, fr, self.fn.blocks[fr.b])
                fr.regs = {k: v for k, v in fr.regs.items() if k in self.live[fr.b]}
                fr.prev = None
            res.append(o)
        return res

    def at(self, st):
        """Control point of a state, or None when the function has returned."""
        return st.frames[-1].b if st.frames else None

    def step(self, e, st):
        """Runs from a control point to the next ones."""
        f = st.frames[-1]
        f.i = self.fn.blocks[f.b]['nphi']
        f.pend = False
        f.prev = None
        return self.collect(e, e.run(st, 0, self.stop))


def sccs(succs):
    """Component number of each node."""
    n = len(succs)
    idx, low, comp, stack, on = [None] * n, [0] * n, [None] * n, [], [False] * n
    cnt, cc = [0], [0]
    for root in range(n):
        if idx[root] is not None:
            continue
        work = [(root, 0)]
        while work:
            v, k = work.pop()
            if k == 0:
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                stack.append(v)
                on[v] = True
            rec = False
            for j in range(k, len(succs[v])):
                w = succs[v][j]
                if idx[w] is None:
                    work.append((v, j + 1))
                    work.append((w, 0))
                    rec = True
                    break
                if on[w]:
                    low[v] = min(low[v], idx[w])
            if rec:
                continue
            if low[v] == idx[v]:
                while True:
                    w = stack.pop()
                    on[w] = False
                    comp[w] = cc[0]
                    if w == v:
                        break
                cc[0] += 1
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
    return comp
