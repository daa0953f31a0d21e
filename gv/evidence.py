"""Writes /verif/evidence/<id>.json."""
import json, os, subprocess
import z3
from . import models


def write(ctx, mod, meta, r):
    from .run import ROOT, REPO
    used = set()
    for e in ctx.engines:
        used |= getattr(e, 'models_used', set())
    trusted = ['golang.org/x/tools/go/ssa v0.52.0 (translation of /repo sources to SSA)',
               'tools/ssadump + gv/*.py (obligation generator written for this task)',
               'z3 %s' % z3.get_version_string()]
    trusted += ['assumed contract: %s - %s' % (n, models.TRUSTED.get(n, '')) for n in sorted(used)]
    trusted += list(getattr(mod, 'TRUSTED', []))
    assumptions = ['int and int64 are treated as mathematical integers unless an overflow obligation is listed',
                   'inputs are tree shaped: distinct symbolic pointers do not alias unless a contract says so',
                   'memory exhaustion and stack overflow are not modelled']
    assumptions += list(getattr(mod, 'ASSUME', [])) + sorted(ctx.assumptions)
    samples = [{'lemma': n, 'seconds': s} for n, s in ctx.lemmas]
    ev = {
        'property': ctx.pid, 'tier': r['tier'], 'seed': ctx.seed, 'level': 'proof',
        'coverage': {
            'obligations': r['nob'], 'discharged': r['dis'],
            'checker_cmd': 'python3-vt -m gv.check %s (obligations generated from %s on this run, discharged by z3 %s in process)' % (
                ctx.pid, REPO, z3.get_version_string()),
            'trusted_base': trusted,
            'functions_under_contract': r['funcs'],
            'obligations_by_kind': r['kinds'],
            'obligations_other_back_end': ctx.extra_ob,
            'solver_seconds': round(r['solver'], 3),
            'lemmas': samples,
            'undischarged': [f[0] for f in r['fails']],
            'bounded_cross_check': {
                'what': 'the same contracts in executable form, run against the real code on seeded inputs; bounded, not counted as proved',
                'runs': [{'package': p, 'tests': t, 'status': s, 'cases': c} for p, t, s, c in r['replays']]},
            'notes': ctx.notes,
        },
        'assumptions': assumptions,
        'wall_s': round(r['secs'], 2),
        'violations': 1 if r['rc'] else 0,
    }
    if getattr(mod, 'EXTRA', None):
        ev['coverage'].update(mod.EXTRA)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', ctx.pid + '.json')
    json.dump(ev, open(p + '.tmp', 'w'), indent=1, default=str)
    os.replace(p + '.tmp', p)
