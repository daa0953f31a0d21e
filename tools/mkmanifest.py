"""Writes MANIFEST.json from properties.jsonl and the property modules."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
NA = {
    'C29': 'Termination of goroutines under every interleaving of socket closure, channel sends and application reads is a liveness and '
           'scheduling property; contracts over sequential functions cannot state it and the generator models a goroutine start only as an event.',
}
checks, na = [], []
for p in props:
    f = R + '/gv/props/%s.py' % p['id'].lower()
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
    elif not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
    else:
        src = open(f).read()
        note, level, tech = None, 'proof', None
        for n in ast.parse(src).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', 0) and n.targets[0].id in ('NOTE', 'LEVEL', 'TECHNIQUE'):
                v = ast.literal_eval(n.value)
                if n.targets[0].id == 'NOTE': note = v
                elif n.targets[0].id == 'LEVEL': level = v
                else: tech = v
        checks.append({
            'property': p['id'],
            'quick_cmd': './check ' + p['id'],
            'thorough_cmd': './check %s --thorough' % p['id'],
            'technique': tech or 'contracts on the real functions; verification conditions generated from go/ssa of the working tree, discharged by z3',
            'level': level,
            'level_note': note or 'All inputs, all iterations; trusts go/ssa, the condition generator in gv/, z3 and the contracts assumed for library calls that the evidence lists.',
        })
m = {'version': 1,
     'setup_cmd': "python3-vt -c 'from gv import ir; ir.dumper(); ir.load()'",
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: contracts live in gv/props, keyed by function, and are checked against the SSA of /repo as it is.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
