#!/usr/bin/env python3
"""plant.py ID: confirm a planted bug in scratch copies of /repo.
Reads /tmp/bugs/ID.py (PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN) and writes /verif/seeded/ID."""
import sys, os, subprocess, shutil, json, importlib.util, tempfile
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
bid = sys.argv[1]
spec = importlib.util.spec_from_file_location('b', f'/tmp/bugs/{bid}.py'); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
S = tempfile.mkdtemp(prefix='plant.', dir='/tmp')
try:
    R = f'{S}/repo'
    sh(f'cp -a /repo {R}')
    sh('git checkout -q -- .', R)
    for f, old, new in b.EDITS:
        p = f'{R}/{f}'; t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    patch = sh('git diff', R).stdout
    D = f'/verif/seeded/{bid}'
    if os.path.isdir(D): shutil.rmtree(D)
    os.makedirs(f'{D}/demo/src')
    open(f'{D}/patch.diff', 'w').write(patch)
    T = '/verif/tools/demo_template'
    shutil.copy(f'{T}/demo.sh', D); os.chmod(f'{D}/demo.sh', 0o755)
    shutil.copy(f'{T}/Cargo.toml', f'{D}/demo/')
    shutil.copytree('/verif/mon/vmodel', f'{D}/demo/vmodel')
    shutil.copy(f'{T}/src/h.rs', f'{D}/demo/src/')
    raw = getattr(b, 'RAW', False)
    open(f'{D}/demo/src/main.rs', 'w').write(('' if raw else 'mod h;\nuse h::*;\n') + b.MAIN)
    if raw: os.remove(f'{D}/demo/src/h.rs')
    for f, old, new in getattr(b, 'FILES', []):
        t = open(f'{D}/{f}').read(); assert old in t, old
        open(f'{D}/{f}', 'w').write(t.replace(old, new))
    open(f'{D}/meta.json', 'w').write(json.dumps({'property': b.PROPERTY, 'needs': b.NEEDS, 'what_it_breaks': b.BREAKS}, indent=1) + '\n')
    # original lines?
    blame = 0
    for f in {e[0] for e in b.EDITS}:
        base = sh(f'git show cf30aa1:{f}', '/repo').stdout.split('\n')
        minus = [l[1:] for l in sh(f'git diff -U0 -- {f}', R).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
        hit = [l for l in minus if l.strip() and l in base]
        blame += len(hit)
    print('original lines changed:', blame)
    t = sh('cargo test --offline --all-features 2>&1 | grep -E "test result|warning: unused|^error|FAILED|failed"', R, env={**os.environ, 'CARGO_TARGET_DIR': '/tmp/plant_target', 'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true'})
    print('tests:', t.stdout.strip())
    d1 = sh(f'bash {D}/demo.sh', R); print('patched demo:', d1.returncode, (d1.stdout + d1.stderr)[-600:].strip())
    sh('git checkout -q -- .', R)
    d0 = sh(f'bash {D}/demo.sh', R); print('clean demo:', d0.returncode, (d0.stdout + d0.stderr)[-1500:].strip())
    ok = blame > 0 and '15 passed; 0 failed' in t.stdout and d0.returncode == 0 and d1.returncode not in (0, 99)
    print('OK' if ok else 'NOT OK', bid)
finally:
    shutil.rmtree(S)
