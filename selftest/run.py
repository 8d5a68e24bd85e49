#!/usr/bin/env python3
"""Runs the analyzer over small source variants of the module under test.

Each entry of the files variants_*.py is (kind, property, title, edits) with kind
'bug' (the named property must be reported) or 'ref' (behaviour is preserved: every
check must stay quiet) and edits a list of (file, old, new).  Development aid only;
no registered check uses it.
usage: run.py [-p PROP] [-k bug|ref] [-t substring]
"""
import sys, os, subprocess, shutil, tempfile, glob, argparse
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('-p'); ap.add_argument('-k'); ap.add_argument('-t'); ap.add_argument('-v', action='store_true')
a = ap.parse_args()
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
tmp = tempfile.mkdtemp(prefix='selftest')
sc = os.path.join(tmp, 'sc')
subprocess.check_call(['go', 'build', '-o', sc, '.'], cwd=os.path.join(here, '../analyzer'), env=env)
ids = subprocess.run([sc, 'list'], env=env, capture_output=True, text=True).stdout.split()
V = []
for f in sorted(glob.glob(os.path.join(here, 'variants_*.py'))):
    ns = {}
    exec(open(f).read(), ns)
    V += ns['V']
V = [v for v in V if (not a.p or v[1] == a.p or v[0] == 'ref') and (not a.k or v[0] == a.k) and (not a.t or a.t in v[2])]
def one(i):
    kind, prop, title, edits = V[i]
    d = os.path.join(tmp, 'm%d' % i)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
    try:
        for f, old, new in edits:
            p = os.path.join(d, f)
            if old is None: # a new file
                open(p, 'w').write(new)
                continue
            s = open(p).read()
            if s.count(old) < 1:
                return 'STALE', f, ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        b = subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            return 'NOBUILD', b.stderr[:300], ''
        e = dict(env, REPO=d, VERIF_ROOT=d + '.out')
        os.makedirs(d + '.out', exist_ok=True)
        shutil.copy(os.path.join(here, '../known_findings.txt'), d + '.out/') if os.path.exists(os.path.join(here, '../known_findings.txt')) else None
        todo = [prop] if kind == 'bug' else ([a.p] if a.p else ids)
        bad, out = [], ''
        for id in todo:
            r = subprocess.run([sc, id], env=e, capture_output=True, text=True)
            if kind == 'bug' and r.returncode == 0:
                bad.append(id)
            if kind == 'ref' and r.returncode != 0:
                bad.append(id); out += r.stdout
            if kind == 'bug': out += r.stdout
        return ('OK' if not bad else ('MISSED' if kind == 'bug' else 'FALSE-ALARM')), ' '.join(bad), out
    finally:
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + '.out', ignore_errors=True)
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(one, range(len(V))))
n = {}
for v, (st, why, out) in zip(V, res):
    n[st] = n.get(st, 0) + 1
    if st != 'OK' or a.v:
        print(st, v[0], v[1], v[2], '--', why)
        if st == 'FALSE-ALARM' or a.v: print('   ', out[:900].replace('\n', '\n    '))
print(n)
shutil.rmtree(tmp, ignore_errors=True)
