#!/usr/bin/env python3
"""Apply refactorings to a scratch copy of /repo (all, or the ids named; --only C..,C.. limits the checks;
--test runs the tests first; --each: one at a time) and run the checks on it: every one must stay quiet."""
import os, subprocess, sys, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('MV', '/verif'); W = '/tmp/rf'; R_ = W + '/repo'; V = W + '/verif'
from refs import R
a = sys.argv[1:]
opt = lambda n: a[a.index(n) + 1] if n in a else None
only = opt('--only'); ids = [x for x in a if not x.startswith('--') and x != only]
sel = [r for r in R if not ids or r[0] in ids]
checks = only.split(',') if only else [c['property'] for c in json.load(open(SRC + '/MANIFEST.json'))['checks']]
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(V, exist_ok=True)
if not os.path.isdir(R_): sh(f'cp -a /repo {R_}')
sh(f'git -C {R_} checkout -q -- . ; git -C {R_} fetch -q /repo HEAD && git -C {R_} reset -q --hard FETCH_HEAD')
sh(f'rsync -a --delete --exclude work --exclude .git --exclude evidence --exclude seeded {SRC}/ {V}/')
sh(f"sed -i 's#/repo#{R_}#g' {V}/harness/Cargo.toml {V}/harness-fmt/Cargo.toml {V}/harness-ral/Cargo.toml {V}/features.py {V}/export*.sh")
def go(group):
    try:
        for id, edits in group:
            for f, old, new in edits:
                p = R_ + '/' + f; t = open(p).read()
                if t.count(old) != 1: print(id, f, 'found', t.count(old), 'times:', old[:80]); return
                open(p, 'w').write(t.replace(old, new))
        if '--test' in a:
            r = sh('cargo test --offline --workspace --exclude z80emu-embedded-example 2>&1 | grep -E "^error|^test result|FAILED|panicked" -A6', cwd=R_)
            print(r.stdout[-1500:], flush=True)
            if 'error' in r.stdout or 'FAILED' in r.stdout: return
        for c in checks:
            t0 = time.time(); r = sh(f'VERIF_TIER=quick {V}/check.sh {c}')
            if r.returncode: print('FAIL', c, r.returncode, r.stdout[:1500], flush=True)
            else: print('ok', c, round(time.time() - t0), flush=True)
    finally:
        sh(f'git -C {R_} checkout -- .')
if '--each' in a:
    for r in sel: print('==', r[0]); go([r])
else: go(sel)
