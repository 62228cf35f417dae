#!/usr/bin/env python3
"""Applies behaviour-preserving edits one at a time to a scratch copy and runs every check on it: run.py FILE.py ... [-k name]
FILE.py: R = [(name, [(path, old, new), ...]), ...]; old may occur several times when written as (path, old, new, 'all')."""
import os, subprocess, sys, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V + '/engine')
W = '/tmp/w/rf'
def ids():
    import re
    return sorted(set(re.findall(r"@prop\('(C\d+)'", open(V + '/engine/props.py').read())))
def one(job):
    f, name, edits, only = job
    d = tempfile.mkdtemp(dir=W); repo = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo]); out = []
    try:
        for e in edits:
            p, old, new = e[:3]; t = open(f'{repo}/{p}').read(); n = t.count(old)
            if n != 1 and len(e) < 4: return (name, ['BAD EDIT %d %s %r' % (n, p, old[:80])])
            open(f'{repo}/{p}', 'w').write(t.replace(old, new))
        if 'RF_RAW' not in os.environ:
            env = dict(os.environ, ZK_REPO=repo, VERIF_NOEVIDENCE='1')
            if all(e[0].endswith('.ts') for e in edits): env['VERIF_PART'] = 'ts'
            r = subprocess.run(['python3', V + '/engine/checks.py', ','.join(only or ids())], env=env, capture_output=True, text=True)
            for l in r.stdout.splitlines() + r.stderr.splitlines()[-3:]:
                if 'obligations hold' in l or l.startswith('KNOWN-FINDING'): continue
                if l.startswith('undecided: from_file.WitnessFile.from_file.slice') or l.startswith('undecided: parse_witness.parse_witness.sub-underflow'): continue
                out.append(l[:int(os.environ.get('WD', '330'))])
    finally: shutil.rmtree(d, ignore_errors=True)
    return (name, out)
if __name__ == '__main__':
    os.makedirs(W, exist_ok=True)
    a = sys.argv[1:]; pick = None; only = None
    if '-k' in a: i = a.index('-k'); pick = a[i + 1]; del a[i:i + 2]
    if '-p' in a: i = a.index('-p'); only = a[i + 1].split(','); del a[i:i + 2]
    jobs = []
    for f in a:
        if f.endswith('run.py'): continue
        g = {}; exec(open(f).read(), g)
        jobs += [(f, n, e, only) for n, e in g['R'] if not pick or pick in n]
    with cf.ThreadPoolExecutor(8) as ex:
        for name, out in ex.map(one, jobs):
            print('##', name, 'ok' if not out else ''); [print('   ', l) for l in out]; sys.stdout.flush()
