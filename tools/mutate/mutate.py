#!/usr/bin/env python3
"""Mutation campaign: random small edits of the library, the checks against each, the stable tests against what they miss.
usage: mutate.py SEED COUNT [FILE-SUBSTRING]    (works in /tmp/mz, results appended to /tmp/mz/log.jsonl)"""
import json, os, random, re, subprocess, sys, time
seed, count = int(sys.argv[1]), int(sys.argv[2])
only = sys.argv[3] if len(sys.argv) > 3 else ''
W = os.environ.get('MZ', '/tmp/mz'); SRC = os.environ.get('MV', '/verif'); R = W + '/repo'; V = W + '/verif'
def sh(c, t=1200, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 99, 'timeout')
def setup():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R): sh(f'cp -a /repo {R}')
    sh('git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=R)
    sh(f'mkdir -p {V}; rsync -a --delete --exclude work --exclude .git --exclude evidence --exclude seeded {SRC}/ {V}/ || cp -a {SRC}/. {V}/')
    sh(f"sed -i 's#/repo#{R}#g' {V}/harness/Cargo.toml {V}/harness-fmt/Cargo.toml {V}/harness-ral/Cargo.toml {V}/features.py {V}/export*.sh")
FILES = {f: n for f, n in [
    ('src/z80/ops.rs', 3), ('src/z80/internal.rs', 5), ('src/z80/instructions.rs', 8), ('src/z80/macros.rs', 3), ('src/z80/opcodes.rs', 1),
    ('src/z80.rs', 5), ('src/z80/flavours.rs', 3), ('src/z80/any.rs', 2), ('src/z80/debug.rs', 1), ('src/z80/serde.rs', 3), ('src/host.rs', 2),
    ('src/macros.rs', 2), ('src/disasm.rs', 2), ('src/cpu/flags.rs', 2), ('src/cpu/parse.rs', 2), ('src/cpu/registers.rs', 2), ('src/cpu/debug.rs', 2), ('src/cpu.rs', 1), ('src/lib.rs', 1)] if only in f}
RULES = [
    (r'wrapping_add', ['wrapping_sub']), (r'wrapping_sub', ['wrapping_add']), (r'(?<=[\w)\]] )\+(?= )', ['-']), (r'(?<=[\w)\]] )-(?= )', ['+']),
    (r'(?<= )&(?= )', ['|', '^']), (r'(?<= )\|(?= )(?!\|)', ['&', '^']), (r'(?<= )\^(?= )', ['|', '&']), (r'<<', ['>>']), (r'>>(?!\()', ['<<']),
    (r'==', ['!=']), (r'!=', ['==']), (r'(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']), (r'<=', ['<']), (r'>=', ['>']),
    (r'&&', ['||']), (r'\|\|(?! )', ['&&']), (r'(?<= )\|\|(?= )', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bif (?!let)', ['if !']), 
    (r'\b0x[0-9a-fA-F]+\b', ['#x']), (r'\b\d+\b(?!\.\.)', ['#d']), (r'\biff1\b', ['iff2']), (r'\biff2\b', ['iff1']), (r'8hi\b', ['8lo']), (r'8lo\b', ['8hi']),
    (r'\bXdd\b', ['Yfd']), (r'\bYfd\b', ['Xdd']), (r'\bmsb\b', ['lsb']), (r'\blsb\b', ['msb']), (r'\binc(?=\w*16)', ['dec']), (r'\bdec(?=\w*16)', ['inc']),
    (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bNO_MREQ_X\d', ['NO_MREQ_X1', 'NO_MREQ_X2', 'NO_MREQ_X5']), (r'\bregs\.(bc|de|hl)\b', ['regs.bc', 'regs.de', 'regs.hl']),
    (r'\badd_mreq\b', ['add_m1', 'add_io']), (r'\badd_io\b', ['add_mreq']), (r'\bReg16::(BC|DE|HL|SP)\b', ['Reg16::BC', 'Reg16::DE', 'Reg16::HL', 'Reg16::SP']),
    (r'\bIncrease\b', ['Decrease']), (r'\bDecrease\b', ['Increase']), (r'\bhi\b', ['lo']), (r'\blo\b', ['hi']), (r'\bvhi\b', ['vlo']), (r'\bvlo\b', ['vhi']),
    (r'\bNMOS\b', ['CMOS']), (r'\bCMOS\b', ['NMOS', 'BM1']), (r'\bBM1\b', ['NMOS']), (r'CpuFlags::([SZYHXPNC])\b', ['CpuFlags::S', 'CpuFlags::Z', 'CpuFlags::H', 'CpuFlags::P', 'CpuFlags::N', 'CpuFlags::C']),
    (r'^\s*[\w.!$]+[^;{}]*\([^;{}]*\);\s*$', ['#del']), (r'^\s*[\w.$]+ = [^;{}]*;\s*$', ['#del']), (r'^\s*return [^;]*;\s*$', ['#del']),
]
def sites(path):
    out = []; skip = False
    t = open(path).read()
    cut = t.find('#[cfg(test)]\nmod tests'); lim = t.count('\n', 0, cut) if cut > 0 else 10 ** 9
    if path.endswith('src/lib.rs'): pass
    for i, l in enumerate(t.split('\n')):
        if i >= lim: break
        if '/*' in l: skip = '*/' not in l; continue
        if skip: skip = '*/' not in l; continue
        s = l.strip()
        if s.startswith('//') or s.startswith('#') or s.startswith('*') or s.startswith('use ') or s.startswith('pub use') or s.startswith('/*') or 'assert' in s: continue
        code = l.split('//')[0]
        for r, subs in RULES:
            for m in re.finditer(r, code):
                for sub in subs:
                    if sub != m[0]: out.append((i, m.start(), m.end(), sub))
    return out
def apply(path, site, rng):
    i, a, b, sub = site
    ls = open(path).read().split('\n'); l = ls[i]; old = l[a:b]
    if sub == '#del': new = ''
    elif sub == '#x': v = int(old, 16); new = '0x%X' % max(0, v ^ (1 << rng.randrange(8)))
    elif sub == '#d': new = str(max(0, int(old) + rng.choice([-1, 1])))
    else: new = sub
    ls[i] = l[:a] + new + l[b:]
    open(path, 'w').write('\n'.join(ls))
    return l.strip(), ls[i].strip()
UNIT = {'src/cpu/registers.rs': ['C33', 'C27', 'C21'], 'src/cpu/parse.rs': ['C27', 'C28'], 'src/cpu/flags.rs': ['C31'], 'src/cpu/debug.rs': ['C28'], 'src/disasm.rs': ['C26'],
    'src/macros.rs': ['C25'], 'src/host.rs': ['C24', 'C25', 'C34'], 'src/z80/any.rs': ['C19', 'C20', 'C34'], 'src/z80/flavours.rs': ['C20', 'C23', 'C19'], 'src/z80.rs': ['C23', 'C20'],
    'src/z80/serde.rs': ['C21'], 'src/z80/debug.rs': ['C34'], 'src/cpu.rs': ['C23'], 'src/lib.rs': ['C27']}
NOCORE = {'src/cpu/debug.rs', 'src/disasm.rs', 'src/macros.rs', 'src/host.rs', 'src/z80/any.rs', 'src/z80/serde.rs', 'src/lib.rs'}
def judge(f):
    os.environ['LD_LIBRARY_PATH'] = sh('rustc +nightly --print sysroot').stdout.strip() + '/lib'
    r = sh(f'{V}/export.sh work/prog.bin', cwd=V)
    if r.returncode: return 'nobuild', r.stdout[-300:]
    have = {c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    for c in UNIT.get(f, []):
        if c not in have: continue
        r = sh(f'VERIF_TIER=quick {V}/check.sh {c}')
        if r.returncode == 1: return 'caught', c + ' ' + r.stdout[:160]
        if r.returncode: return 'undecided', c + ' ' + r.stdout[:400]
    if f not in NOCORE:
        r = sh(f'{V}/engine/target/release/zcheck --dump "" --prog work/prog.bin | head -c 20000000', cwd=V)
        ls = r.stdout.splitlines()
        d = [l for l in ls if ' | ' in l and '::' in l and not l.startswith('STUCK')]
        s = [l for l in ls if l.startswith('STUCK')]
        if d: return 'caught', f'core {len(d)} ' + d[0][:160]
        if s: return 'undecided', s[0][:300]
    return 'missed', ''
setup()
rng = random.Random(seed)
done = 0
pool = {f: sites(f'{R}/{f}') for f in FILES}
names = [f for f in FILES if pool[f]]
while done < count:
    f = rng.choices(names, [FILES[x] for x in names])[0]
    s = rng.choice(pool[f])
    sh('git checkout -q -- .', cwd=R)
    a, b = apply(f'{R}/{f}', s, rng)
    if a == b: continue
    t0 = time.time()
    v, why = judge(f)
    if v == 'nobuild': continue
    done += 1
    tests = ''
    if v != 'caught':
        e = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true'); e.pop('LD_LIBRARY_PATH', None)
        r = sh('cargo test --workspace --exclude z80emu-embedded-example --no-fail-fast --offline -- --test-threads 8', cwd=R, env=e)
        tests = 'pass' if r.returncode == 0 else 'fail'
    rec = dict(file=f, line=s[0] + 1, old=a, new=b, verdict=v, why=why, tests=tests, secs=round(time.time() - t0))
    open(W + '/log.jsonl', 'a').write(json.dumps(rec) + '\n')
    if v != 'caught': print(json.dumps(rec), flush=True)
    else: print(f'{f}:{s[0]+1} caught {why[:60]}', flush=True)
sh('git checkout -q -- .', cwd=R)
