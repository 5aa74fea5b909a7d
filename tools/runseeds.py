#!/usr/bin/env python3
"""Runs checks against the planted bugs: runseeds.py [--all] [ID ...]. Applies each
patch to /repo, runs the check of its property (or every check), and undoes it."""
import json, os, subprocess, sys, time
S = '/verif/seeded'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
allc = '--all' in sys.argv
ids = args or sorted(os.listdir(S))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
assert not sh('git -C /repo status --porcelain').stdout
for i in ids:
    own = json.load(open(f'{S}/{i}/meta.json'))['property']
    r = sh(f'git -C /repo apply {S}/{i}/patch.diff')
    if r.returncode: print(i, 'does not apply', r.stdout); continue
    try:
        hit, other = [], []
        t = time.time()
        for p in (props if allc else [own]):
            r = sh(f'VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh {p}')
            v = [l for l in r.stdout.splitlines() if l.startswith(f'VIOLATION property={p} ')]
            if r.returncode == 1 and v: hit.append(p)
            elif r.returncode: other.append(f'{p}: rc {r.returncode} {r.stdout[-200:]!r}')
        print(i, own, 'CAUGHT' if own in hit else 'MISSED', ' '.join(hit), *other, f'{time.time()-t:.0f}s', flush=True)
    finally:
        sh('git -C /repo checkout -- .')
