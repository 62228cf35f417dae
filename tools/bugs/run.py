#!/usr/bin/env python3
"""Applies small behaviour-changing edits one at a time to a scratch copy and runs every check on it: run.py FILE.py ... [-k name]
FILE.py: B = [(name, property, [(path, old, new), ...]), ...]; the named property's check has to raise the alarm."""
import os, re, subprocess, sys, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); W = '/tmp/w/bf'
sys.path.insert(0, V + '/tools/refactor')
def ids(): return sorted(set(re.findall(r"@prop\('(C\d+)'", open(V + '/engine/props.py').read())))
def one(job):
    name, pid, edits = job
    d = tempfile.mkdtemp(dir=W); repo = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo])
    try:
        for e in edits:
            p, old, new = e[:3]; t = open(f'{repo}/{p}').read(); n = t.count(old)
            if n != 1 and len(e) < 4: return name, pid, 'BAD EDIT %d %r' % (n, old[:80]), []
            open(f'{repo}/{p}', 'w').write(t.replace(old, new))
        env = dict(os.environ, ZK_REPO=repo, VERIF_NOEVIDENCE='1')
        if all(e[0].endswith('.ts') for e in edits): env['VERIF_PART'] = 'ts'
        r = subprocess.run(['python3', V + '/engine/checks.py', ','.join(ids())], env=env, capture_output=True, text=True)
        got = sorted(set(re.findall(r'VIOLATION property=(C\d+)', r.stdout)))
        und = sorted({l[:160] for l in r.stdout.splitlines() if l.startswith('undecided') and 'from_file.WitnessFile.from_file.slice' not in l and 'sub-underflow' not in l})
        want = pid.split('|')
        return name, pid, 'ok' if any(w in got for w in want) else ('OTHER ' + ' '.join(got) if got else 'MISSED'), und
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    a = sys.argv[1:]; pick = None
    if '-k' in a: i = a.index('-k'); pick = a[i + 1]; del a[i:i + 2]
    jobs = []
    for f in a:
        g = {}; exec(open(f).read(), g); jobs += [b for b in g['B'] if not pick or pick in b[0]]
    with cf.ThreadPoolExecutor(8) as ex:
        n = 0
        for name, pid, r, und in ex.map(one, jobs):
            n += r == 'ok'
            if r != 'ok': print('##', name, pid, r); [print('     ', u) for u in und[:6]]
            sys.stdout.flush()
        print(n, 'of', len(jobs), 'caught')
