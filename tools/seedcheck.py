#!/usr/bin/env python3
"""Runs the check of its property on every planted bug, in scratch copies: seedcheck.py [id ...]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/w/sc'
def one(s):
    d = tempfile.mkdtemp(dir=W); repo = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo])
    try:
        a = subprocess.run(['git', '-C', repo, 'apply', f'{V}/seeded/{s}/patch.diff'], capture_output=True, text=True)
        if a.returncode: return s, 'does not apply', a.stderr[:200]
        pid = json.load(open(f'{V}/seeded/{s}/meta.json'))['property']
        r = subprocess.run(['python3', V + '/engine/checks.py', pid], env=dict(os.environ, ZK_REPO=repo, VERIF_NOEVIDENCE='1'), capture_output=True, text=True)
        return s, pid, 'caught' if r.returncode == 1 and f'VIOLATION property={pid} ' in r.stdout else 'MISSED %d ' % r.returncode + r.stdout[-300:] + r.stderr[-300:]
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    with cf.ThreadPoolExecutor(6) as ex:
        for x in ex.map(one, sys.argv[1:] or sorted(os.listdir(V + '/seeded'))): print(*x, flush=True)
