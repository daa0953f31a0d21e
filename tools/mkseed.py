#!/usr/bin/env python3
"""Builds seeded/<id>/ from tools/seeds/*.py and verifies each one in a scratch copy of /repo.

usage: mkseed.py [id...]     (all when none is given)
Each seeds file is a list SEEDS of dicts: id, property, pkg, edits [(file, old, new)], demo (Go test source after the
package clause and imports given in full), needs, breaks."""
import glob, json, os, shutil, subprocess, sys, runpy

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds in this scenario
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_seed_demo_test.go":"%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(ids):
    seeds = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'tools/seeds/*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    base = json.load(open('/opt/vp/BASELINE.json'))
    work = '/tmp/mkseed-%d' % os.getpid()
    bad = 0
    for s in seeds:
        if ids and s['id'] not in ids:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(work, ignore_errors=True)
        sh('cp -a /repo %s' % work)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO % s)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo_test.go.txt', 'w').write(s['demo'].lstrip())
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, work)
        ok = True
        for f, old, new in s['edits']:
            t = open(work + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'edit does not apply uniquely in', f, t.count(old))
                ok = False
                break
            open(work + '/' + f, 'w').write(t.replace(old, new))
        if ok:
            p = sh('git diff', work).stdout
            open(d + '/patch.diff', 'w').write(p)
            # lines removed must be of the original repository
            b = sh('go build ./... && go test -vet=off -count=1 ./sip ./sdp ./rtp ./dsp ./util ./dialog', work)
            r1 = sh('bash %s/demo.sh' % d, work)
            own = sh("git diff -U0 9c4e297 HEAD | grep '^+' | cut -c2-", '/repo').stdout.split('\n')
            rem = [l[1:] for l in p.split('\n') if l.startswith('-') and not l.startswith('---')]
            mine = [l for l in rem if l in own and l.strip() not in ('}', '')]
            ok = r0.returncode == 0 and b.returncode == 0 and r1.returncode != 0
            print('%-28s %s demo(clean)=%d build+tests=%d demo(patched)=%d %s' % (
                s['id'], 'ok ' if ok else 'BAD', r0.returncode, b.returncode, r1.returncode, 'TOUCHES OWN LINES %r' % mine if mine else ''))
            if not ok:
                print((r0.stdout if r0.returncode else b.stdout if b.returncode else r1.stdout)[-1500:])
        bad += not ok
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
