#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from bugs.py after confirming each in a scratch copy of /repo.
usage: plant.py [ID...]   (nothing: every bug that is not there yet)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import B
SCRATCH = '/tmp/plant'
COPY = SCRATCH + '/repo'
SEED = os.environ.get('SEED', '/verif/seeded')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')
STABLE = dict(ENV, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
EMB = dict(ENV, RUSTUP_TOOLCHAIN='1.98.0-x86_64-unknown-linux-gnu')
def run(cmd, env=STABLE, cwd=COPY, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
if not os.path.isdir(COPY):
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', COPY])
def clean(): run('git checkout -q -- .')
clean(); run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
WANT = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
todo = [b for b in B if (b['id'] in sys.argv[1:] if sys.argv[1:] else not os.path.isdir(f"{SEED}/{b['id']}"))]
for b in todo:
    clean()
    bad = None
    for f, old, new in b['edits']:
        p = f'{COPY}/{f}'
        t = open(p).read()
        if t.count(old) != 1: bad = f'{f}: old text found {t.count(old)} times'; break
        open(p, 'w').write(t.replace(old, new))
    if bad: print(b['id'], 'EDIT', bad); continue
    diff = run('git diff').stdout
    d = f'{SCRATCH}/out/{b["id"]}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    sh = b.get('demo') or open(HERE + '/demo.sh').read().replace('DEPS', b['deps'])
    open(d + '/demo.sh', 'w').write(sh)
    if b['main'] is not None:
        shutil.copy(HERE + '/kit.rs', d)
        open(d + '/main.rs', 'w').write('mod kit;\n#[allow(unused_imports)]\nuse kit::*;\n' + b['main'] + '\n')
    r = run(f'bash {d}/demo.sh')
    if r.returncode == 0: print(b['id'], 'DEMO passes with the patch'); continue
    fail = r.stdout.strip().splitlines()[-3:]
    build = ['cargo test --workspace --exclude z80emu-embedded-example --no-run --offline -q',
             'cargo build -q -p z80emu --no-default-features --offline']
    for c in build:
        r = run(c)
        if r.returncode: print(b['id'], 'BUILD', r.stdout[-600:]); break
    if r.returncode: continue
    r = run('cargo build -q -p z80emu-embedded-example --target thumbv7em-none-eabihf --target-dir /tmp/plant/emb --offline', EMB)
    if r.returncode: print(b['id'], 'EMB', r.stdout[-600:]); continue
    r = run('cargo test --workspace --exclude z80emu-embedded-example --no-fail-fast --offline -- --test-threads 8')
    if r.returncode:
        print(b['id'], 'TESTS', [l for l in r.stdout.splitlines() if 'FAILED' in l or 'failed' in l][:4]); continue
    clean()
    r = run(f'bash {d}/demo.sh')
    if r.returncode: print(b['id'], 'DEMO fails without the patch', r.stdout[-900:]); continue
    out = f'{SEED}/{b["id"]}'
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(d, out)
    print(b['id'], 'kept;', ' | '.join(fail)[-160:], flush=True)
clean()
