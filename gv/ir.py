"""Loads the SSA of /repo's working tree, as printed by tools/ssadump."""
import json, os, subprocess, sys

MOD = 'github.com/jart/gosip/'
INTW = {'int': (64, True), 'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True),
        'rune': (32, True), 'byte': (8, False), 'uint': (64, False), 'uint8': (8, False), 'uint16': (16, False),
        'uint32': (32, False), 'uint64': (64, False), 'uintptr': (64, False),
        'untyped int': (64, True), 'untyped rune': (32, True)}
# Kinds whose arithmetic is done on mathematical integers (with overflow obligations).
MATHINT = {'int', 'int64', 'untyped int'}


class Func:
    def __init__(self, prog, d):
        self.prog = prog
        self.name = d['name']
        self.short = d['short']
        self.file = d.get('file')
        self.line = d.get('line')
        self.params = d['params']
        self.freevars = d['freevars']
        self.rt = d['rt']
        self.blocks = d['blocks']
        self._ipdom = None
        self._loops = None
        for b in self.blocks:
            b['nphi'] = 0
            for i in b['instrs']:
                if i['op'] == 'phi':
                    b['nphi'] += 1
                else:
                    break

    @property
    def pretty(self):
        return self.name.replace(MOD, '')

    def ipdom(self):
        """Immediate post-dominators (block index -> block index or None)."""
        if self._ipdom is not None:
            return self._ipdom
        n = len(self.blocks)
        EXIT = n
        succs = [list(b['succs']) or [EXIT] for b in self.blocks] + [[]]
        preds = [[] for _ in range(n + 1)]
        for i, ss in enumerate(succs):
            for s in ss:
                preds[s].append(i)
        order, seen = [], set()
        stack = [(EXIT, iter(preds[EXIT]))]
        seen.add(EXIT)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(preds[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        num = {x: k for k, x in enumerate(order)}
        idom = {EXIT: EXIT}

        def inter(a, b):
            while a != b:
                while num[a] < num[b]:
                    a = idom[a]
                while num[b] < num[a]:
                    b = idom[b]
            return a
        changed = True
        while changed:
            changed = False
            for x in reversed(order):
                if x == EXIT:
                    continue
                ps = [s for s in succs[x] if s in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    new = inter(new, p)
                if idom.get(x) != new:
                    idom[x] = new
                    changed = True
        self._ipdom = {x: (None if idom.get(x, EXIT) == EXIT else idom[x]) for x in range(n)}
        return self._ipdom

    def loop_heads(self):
        """Blocks that are targets of DFS back edges, with the set of blocks of the natural loop."""
        if self._loops is not None:
            return self._loops
        color, heads, back = {}, {}, []
        stack = [(0, iter(self.blocks[0]['succs']))]
        color[0] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                c = color.get(y, 0)
                if c == 0:
                    color[y] = 1
                    stack.append((y, iter(self.blocks[y]['succs'])))
                    break
                elif c == 1:
                    back.append((x, y))
            else:
                color[x] = 2
                stack.pop()
        for t, h in back:
            body = heads.setdefault(h, {h})
            work = [t]
            while work:
                b = work.pop()
                if b in body:
                    continue
                body.add(b)
                work += self.blocks[b]['preds']
        self._loops = heads
        return heads


class Program:
    def __init__(self, d):
        self.types = d['types']
        self.methods = d['methods']
        self.globals = d['globals']
        self.strings = d['strings']
        self.funcs = {}
        for n, f in d['funcs'].items():
            if n.startswith(MOD) or n.startswith('(' + MOD) or n.startswith('(*' + MOD) or MOD in n.split('$')[0]:
                self.funcs[n] = Func(self, f)
        self._und = {}
        self.tid = {t['s']: i for i, t in enumerate(self.types)}

    def u(self, t):
        """Underlying type record of type index t."""
        r = self._und.get(t)
        if r is None:
            r = self.types[t]
            while r['k'] in ('named', 'alias'):
                r = self.types[r['u']]
            self._und[t] = r
        return r

    def tname(self, t):
        r = self.types[t]
        while r['k'] == 'alias':
            r = self.types[r['u']]
        return r['s']

    def fn(self, short):
        """Function by short path, e.g. 'sip.ParseURI' or '(*sip.URI).Append'."""
        if short.startswith('(*'):
            n = '(*' + MOD + short[2:]
        elif short.startswith('('):
            n = '(' + MOD + short[1:]
        else:
            n = MOD + short
        return self.funcs.get(n)

    def type_by_name(self, s):
        return self.tid[s.replace('@', MOD)]

    def field(self, tname, fname):
        t = self.types[self.type_by_name('@' + tname)]
        u = self.types[t['u']]
        for i, f in enumerate(u['fields']):
            if f['name'] == fname:
                return i
        raise KeyError(fname)


def go_env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1', GOWORK='off',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
    return e


PKGS = ['./sip', './sdp', './rtp', './dsp', './util', './dialog']


def dumper():
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools', 'ssadump')
    exe = os.path.join(os.path.dirname(here), 'bin', 'ssadump')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(os.path.join(here, 'main.go')):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        subprocess.run(['go', 'build', '-o', exe, '.'], cwd=here, env=go_env(), check=True)
    return exe


def load(repo='/repo'):
    out = subprocess.run([dumper()] + PKGS, cwd=repo, env=go_env(), stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE)
    if out.returncode != 0:
        raise SystemExit('ssadump failed: ' + out.stderr.decode())
    return Program(json.loads(out.stdout))
