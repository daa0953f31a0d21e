"""Glue: program, engines with the initial globals, obligations per property, evidence, replay, exit code."""
import json, os, subprocess, sys, time, traceback, resource, signal
import z3
from . import ir, exec as X, models, vals as V
from .vals import *
from .ir import MOD

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Undecided(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = ir.load(REPO)
        self.engines = []
        self.assumptions = set()
        self.notes = []
        self.undecided = []
        self.lemmas = []
        self.functions = set()
        self.base = None
        self.extra_ob = self.extra_dis = 0
        self.fails = []
        self.hints = []
        self.t0 = time.time()

    # -- engines
    def engine(self, label, contracts=None, models_=None):
        m = dict(models.M)
        if models_:
            m.update(models_)
        e = X.Engine(self.prog, contracts or {}, m, label)
        e.base = self.globals()
        self.engines.append(e)
        return e

    def globals(self):
        if self.base is None:
            self.base = init_globals(self.prog)
        return self.base

    def state(self, e):
        st = X.State()
        st.heap.update(e.base)
        return st

    def fn(self, name):
        f = self.prog.fn(name)
        if f is None:
            raise Undecided('function %s is gone' % name)
        return f

    def call(self, e, name, args, st=None, binds=()):
        """Runs a function on a state -> list of final states."""
        st = st or self.state(e)
        f = self.fn(name)
        self.functions.add(f.pretty)
        e.start(st, f, args, binds)
        d = len(st.frames) - 1
        outs = e.run(st, d)
        outs = [o for o in outs]
        if not outs:
            e.fail(st, 'no path returns (vacuous)', fn=f.name)
        return outs

    def ensures(self, e, st, cond, what, fn=None):
        f = self.prog.fn(fn) if fn else None
        return e.prove(st, cond, what, 'post', fn=f.name if f else (fn or e.label), line=f.line if f else None)

    def obligation(self, ok, what, detail=''):
        """An obligation decided by another back end."""
        self.extra_ob += 1
        if ok:
            self.extra_dis += 1
        else:
            self.fails.append((what, detail))
        return ok

    def section(self, name, f, *a):
        """Runs a group of obligations; trouble inside counts as an undischarged obligation."""
        t = time.time()
        try:
            f(*a)
        except (Unsupported, Undecided, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError,
                AssertionError, Fork, z3.Z3Exception, X.PathDone) as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.extra_ob += 1
            self.fails.append(('%s: obligations cannot be generated: %s: %s' % (name, type(ex).__name__, str(ex)[:300]),
                               '%s:%d' % (os.path.basename(tb.filename), tb.lineno)))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        self.lemmas.append((name, round(time.time() - t, 2)))

    # -- summary
    def totals(self):
        nob = self.extra_ob + sum(e.nob for e in self.engines)
        dis = self.extra_dis + sum(e.ndis for e in self.engines)
        return nob, dis

    def all_fails(self):
        out = list(self.fails)
        for e in self.engines:
            for f in e.failures:
                out.append(('%s: %s' % (e.label, str(f).split('\n')[0]), str(f)))
        return out


def init_globals(prog):
    """Executes the package initialisers; what cannot be executed is left unknown."""
    heap = {}
    e = X.Engine(prog, {}, dict(models.M), 'package initialisation')

    def lenient(fn_name):
        def h(e, st, a, ins):
            return e.untuple(e.sym(ins['rt'], 'init:%s#%s' % (fn_name, ins.get('n'))))
        return h
    orig = e.dispatch

    def dispatch(st, fr, ins, name, binds, args):
        if name.endswith('.init') and not name.startswith(MOD):
            return e.done(st, fr, ins, None)
        if name.endswith('.init'):
            return e.done(st, fr, ins, None)
        if name in ('flag.Int', 'flag.Bool', 'flag.String'):
            nm = 'flag:%s' % b''.join(x[1] for x in args[0]).decode()
            o = nm + '^'
            e.objtypes[o] = prog.types[ins['rt']]['elems'][0] if prog.types[ins['rt']]['k'] == 'tuple' else ins['rt']
            et = prog.u(e.objtypes[o])
            st.heap[o] = e.sym(et['e'], nm)
            return e.done(st, fr, ins, Ptr(o))
        try:
            return orig(st, fr, ins, name, binds, args)
        except Unsupported:
            return e.finish(st, fr, ins, lenient(name), args)
    e.dispatch = dispatch
    for pkg in ('util', 'sdp', 'dsp', 'rtp', 'sip', 'dialog'):
        f = prog.funcs.get(MOD + pkg + '.init')
        if f is None:
            continue
        st = X.State()
        st.heap = heap
        st.heap['g:' + MOD + pkg + '.init$guard'] = False
        st.n = 1000 * len(heap) + 1
        e.start(st, f, [])
        for o in e.run(st, 0):
            heap = o.heap
    return {k: v for k, v in heap.items()}


# ---------------------------------------------------------------- replay
def replay(pid, pkg, tests, seconds, seed, hints=None, tag=''):
    """Runs the executable contracts against the real code. -> (status, output); status ok|fail|broken."""
    work = '/tmp/verif-replay-%s-%d' % (pid, os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        rep = {}
        src = os.path.join(ROOT, 'replay', pkg)
        if not os.path.isdir(src):
            return 'broken', 'no harness', 0
        common = os.path.join(work, 'verif_common.go')
        open(common, 'w').write(open(os.path.join(ROOT, 'replay', 'common.go')).read().replace('package PKG', 'package ' + pkg, 1))
        rep['%s/%s/verif_common_test.go' % (REPO, pkg)] = common
        need = ['c%s_test.go' % t.replace('TestVerifC', '') for t in tests.split('|')]
        for n in sorted(os.listdir(src)):
            if n in need or n.startswith('gen'):
                rep['%s/%s/verif_%s' % (REPO, pkg, n)] = os.path.join(src, n)
        ov = os.path.join(work, 'overlay.json')
        json.dump({'Replace': rep}, open(ov, 'w'))
        hp = os.path.join(work, 'hints.json')
        json.dump(hints or {}, open(hp, 'w'))
        env = ir.go_env()
        env.update(VERIF_SEED=str(seed), VERIF_SECS=str(seconds), VERIF_HINTS=hp, VERIF_WORK=work)
        if os.environ.get('VERIF_MODFILE'):
            env['GOFLAGS'] = '-mod=mod -modfile=' + os.environ['VERIF_MODFILE']
        else:
            env['GOFLAGS'] = '-mod=mod'
        cmd = ['go', 'test', '-v', '-vet=off', '-count=1', '-overlay', ov, '-timeout', '%ds' % (seconds * 2 + 100), '-run', '^(' + tests + ')$', './' + pkg]
        try:
            p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=seconds * 2 + 240)
        except subprocess.TimeoutExpired as ex:
            return 'broken', 'timeout\n' + (ex.stdout or b'').decode('utf8', 'replace')[-3000:], 0
        out = p.stdout.decode('utf8', 'replace')
        cases = 0
        for l in out.split('\n'):
            if 'VERIF-CASES' in l:
                cases += int(l.split('VERIF-CASES')[1].split()[0])
        if p.returncode == 0:
            if 'no tests to run' in out:
                return 'broken', out, 0
            return 'ok', out, cases
        if 'VERIF-FAIL' in out or 'panic:' in out or 'fatal error:' in out or 'test timed out' in out:
            return 'fail', out, cases
        return 'broken', out, cases
    finally:
        subprocess.run(['rm', '-rf', work])


def deadline(t0, tier):
    """Past X.DEADLINE, whatever is being generated or discharged is abandoned (and counts as undischarged)."""
    X.DEADLINE = t0 + (1200 if tier == 'thorough' else 260)
    X.HARD = t0 + (2400 if tier == 'thorough' else 480)

    def tick(*a):
        if X.DEADLINE and time.time() > X.DEADLINE:
            raise Unsupported('time limit of the proof exceeded')
    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 1.0, 1.0)


def more_time(secs):
    X.DEADLINE = min(max(X.DEADLINE, time.time() + secs), X.HARD)


def main(pid, tier='quick', seed=1):
    import importlib
    t0 = time.time()
    meta = None
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid:
            meta = d
    mod = importlib.import_module('gv.props.' + pid.lower())
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, pid + '.txt')
    try:
        ctx = Ctx(pid, tier, seed)
    except SystemExit as ex:
        print(ex)
        raise
    deadline(t0, tier)
    try:
        mod.verify(ctx)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        X.DEADLINE = 0
    fails = ctx.all_fails()
    nob, dis = ctx.totals()
    if nob == 0:
        fails.append(('no obligations were generated', ''))
    t_proof = time.time() - t0
    # executable contracts: search for a failing input when a proof failed, short cross-check otherwise
    rs = []
    secs = getattr(mod, 'SECS', 8)
    if tier == 'thorough':
        secs *= 5
    if fails:
        secs = max(secs * 3, 30)
    status, output, cases = 'ok', '', 0
    for pkg, tests in getattr(mod, 'REPLAY', []) if not os.environ.get('VERIF_NOREPLAY') else []:
        s, o, c = replay(pid, pkg, tests, secs, seed, {'fails': [f[0] for f in fails], 'models': [f[1] for f in fails][:20]})
        rs.append((pkg, tests, s, c))
        cases += c
        if s == 'fail':
            status, output = 'fail', o
            break
        if s == 'broken' and status == 'ok':
            status, output = 'broken', o
    rc = 0
    if fails or status == 'fail':
        rc = 1
        with open(rpath, 'w') as f:
            f.write('property %s: %s\n\n' % (pid, meta['title']))
            for a, b in fails:
                f.write('UNDISCHARGED OBLIGATION: %s\n' % a)
                if b and b != a:
                    f.write('    %s\n' % b.replace('\n', '\n    '))
            if status == 'fail':
                f.write('\nFAILING INPUT (executable contract run against the real code):\n%s\n' % output[-20000:])
            else:
                f.write('\nNo failing input found (%s).\n%s\n' % (status, output[-3000:]))
        for a, b in fails[:10]:
            print('UNDISCHARGED: ' + a)
        if status == 'fail':
            for l in [l for l in output.split('\n') if 'VERIF-FAIL' in l or 'panic' in l][:5]:
                print(l.strip()[:400])
            print('VIOLATION property=%s replay=%s' % (pid, rpath))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rpath))
    elif status == 'broken':
        ctx.notes.append('executable contracts could not be run: ' + output[-500:])
        print('note: executable contracts could not be run for %s' % pid)
        if os.environ.get('VERIF_DEBUG'):
            print(output[-3000:])
    evidence(ctx, mod, meta, fails, rs, rc, time.time() - t0, t_proof, tier)
    print('%s: %d obligations, %d discharged, %d paths functions, %.1fs proof, %.1fs total, executable cases %d: %s' % (
        pid, nob, dis, len(ctx.functions), t_proof, time.time() - t0, cases, 'OK' if rc == 0 else 'FAILED'))
    return rc


def evidence(ctx, mod, meta, fails, rs, rc, secs, t_proof, tier):
    nob, dis = ctx.totals()
    funcs = set(ctx.functions)
    solver = 0.0
    kinds = {}
    for e in ctx.engines:
        funcs |= {f.replace(MOD, '') for f in e.funcs_seen}
        solver += e.solver_time
        for k, v in e.kinds.items():
            kinds[k] = kinds.get(k, 0) + v
    from .evidence import write
    write(ctx, mod, meta, dict(nob=nob, dis=dis, funcs=sorted(funcs), solver=solver, kinds=kinds, fails=fails,
                               replays=rs, rc=rc, secs=secs, t_proof=t_proof, tier=tier))
