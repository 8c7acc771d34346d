#!/usr/bin/env python3
"""Validates planted bugs: seedcheck.py [--no-tests] [--check] ID...
Copies /repo to a scratch directory, applies the patch, builds, runs the stable tests there, runs demo.sh on the
unchanged and on the changed copy, and (--check) the quick check of the bug's property against the changed copy."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
notests = '--no-tests' in sys.argv; check = '--check' in sys.argv
allprops = '--all' in sys.argv
base = json.load(open('/opt/vp/BASELINE.json'))
stable = base.get('passed') or base.get('stable') or base.get('tests')
for i in ids:
    d = f'{V}/seeded/{i}'; w = f'/tmp/sd.{os.getpid()}'
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    res = []
    for x in ('include', 'src', 'CMakeLists.txt', 'data', '.git'):
        (shutil.copytree if os.path.isdir(f'{REPO}/{x}') else shutil.copy)(f'{REPO}/{x}', f'{w}/{x}')
    e = os.environ.copy()
    clean = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True).returncode
    a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=w, capture_output=True, text=True)
    if a.returncode: print(i, 'PATCH', a.stderr); continue
    bug = subprocess.run(['bash', d + '/demo.sh'], cwd=w, capture_output=True)
    res.append(f'demo {clean}/{bug.returncode}' + ('' if clean == 0 and bug.returncode else ' BAD ' + bug.stderr.decode()[-300:]))
    if not notests:
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/repo', w).replace('/opt/vp/build.sh', w + '/build.sh')
            open(f'{w}/{s}', 'w').write(t)
        b = subprocess.run(['bash', w + '/build.sh'], capture_output=True, text=True)
        if b.returncode: res.append('BUILD FAILS ' + b.stdout[-400:])
        else:
            subprocess.run(['bash', w + '/test.sh', w + '/out.json'], capture_output=True)
            o = json.load(open(w + '/out.json'))
            miss = [t for t in stable if t not in o['passed']]
            res.append(f"tests {len(o['passed'])}" + (f' MISSING {miss}' if miss else ''))
    if check:
        e['EVR_REPO'] = w
        prop = json.load(open(d + '/meta.json'))['property']
        for p in ([f'C{n:02d}' for n in range(1, 28)] if allprops else [prop]):
            c = subprocess.run(['python3', V + '/run.py', p, 'quick'], env=e, capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            if c.returncode or not allprops: res.append(f'{p}:{c.returncode} {v[0][:90] if v else ""}')
    print(i, ' | '.join(res), flush=True)
    shutil.rmtree(w, ignore_errors=True)
