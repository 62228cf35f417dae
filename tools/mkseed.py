#!/usr/bin/env python3
"""Builds and confirms planted bugs: mkseed.py [--check] seeds/FILE.py ...  (each FILE defines S = dict(...)).

S: id, property, file or edits=[(path, old, new)], needs, what, main (Rust main.rs) or mjs (node demo), checks.
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); REPO = '/repo'

def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean(): sh(f'git -C {REPO} checkout -- .')

def one(path, check):
    g = {}; exec(open(path).read(), g); S = g['S']; sid = S['id']; d = f'{V}/seeded/{sid}'
    assert not sh(f'git -C {REPO} status --porcelain').stdout, 'repo dirty'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    if 'main' in S:
        for f in ('demo.sh', 'Cargo.toml', 'Cargo.lock'): shutil.copy(f'{HERE}/demo/{f}', d)
        open(f'{d}/main.rs', 'w').write(S['main'])
    else:
        for f in ('demo.sh', 'hooks.mjs', 'register.mjs'): shutil.copy(f'{HERE}/demo_js/{f}', d)
        open(f'{d}/demo.mjs', 'w').write(S['mjs'])
    json.dump({'property': S['property'], 'needs': S['needs'], 'what_it_breaks': S['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    os.chmod(f'{d}/demo.sh', 0o755)
    out = []
    try:
        r0 = sh(f'{d}/demo.sh', cwd=REPO); out.append(f'clean={r0.returncode}')
        for p, old, new in S['edits']:
            t = open(f'{REPO}/{p}').read(); assert t.count(old) == 1, (p, t.count(old), old)
            open(f'{REPO}/{p}', 'w').write(t.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
        b = sh('bash /opt/vp/build.sh'); out.append(f'build={b.returncode}')
        t = sh(f'bash /opt/vp/test.sh /tmp/ms.json; cat /tmp/ms.json'); 
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); j = json.load(open('/tmp/ms.json'))
        ok = set(j.get('passed', j.get('pass', []))); out.append(f'tests_missing={sorted(base-ok)}')
        r1 = sh(f'{d}/demo.sh', cwd=REPO); out.append(f'patched={r1.returncode}')
        if check:
            for c in S.get('checks', [S['property']]):
                c1 = sh(f'python3 {V}/engine/checks.py {c}', cwd=V); out.append(f'{c}={c1.returncode}')
                out += [l[:260] for l in c1.stdout.splitlines() if 'VIOLATION' in l][:3]
        if r0.returncode: out.append((r0.stdout + r0.stderr)[-1500:])
        if r1.returncode in (0, 9) or b.returncode: out.append((r1.stdout + r1.stderr)[-800:] + b.stderr[-800:])
    finally:
        clean()
    print(sid, *out, flush=True)

if __name__ == '__main__':
    a = sys.argv[1:]; check = '--check' in a
    for p in a:
        if p != '--check': one(p, check)
