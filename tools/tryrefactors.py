#!/usr/bin/env python3
"""Apply each refactoring of tools/refactors*.py to a scratch copy of /repo and run the proofs of its properties there.
tryrefactors.py [--full] [ids...]   (--full: apply to /repo itself and run check.py)"""
import os, shutil, subprocess, sys, importlib
from concurrent.futures import ThreadPoolExecutor
import queue
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
R = []
for m in ('refactors', 'refactors2', 'refactors3', 'refactors4', 'refactors5', 'refactors6'):
    if os.path.exists(os.path.join(H, m + '.py')):
        R += importlib.import_module(m).R
want = sys.argv[1:]
full = '--full' in want
want = [w for w in want if not w.startswith('--')]
R = [r for r in R if not want or any(w in r[0] for w in want)]
W = 1 if full else min(4, max(1, len(R)))
places = queue.Queue()
for i in range(W):
    d = '/repo'
    if not full:
        d = '/tmp/tryref/%d' % i
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    places.put(d)


def one(r):
    id, f, edits, props = r
    d = places.get()
    out = []
    p = d + '/' + f
    s0 = s = open(p).read()
    try:
        for a, b in edits:
            if s.count(a) < 1:
                return id + ' DOES NOT APPLY ' + a[:60]
            s = s.replace(a, b, 1)
        open(p, 'w').write(s)
        if full:
            for pr in props:
                r = subprocess.run(['python3-vt', H + '/../check.py', pr], capture_output=True, text=True)
                out.append('%s %s %s %s' % (id, pr, r.returncode, r.stdout.strip().split('\n')[-1][:200]))
        else:
            env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=d + '-cache', PYTHONHASHSEED='0')
            r = subprocess.run(['python3-vt', H + '/../engine/runjobs.py', '-n', str(8 // W), '-p', ','.join(props)], capture_output=True, text=True, env=env)
            bad = [l for l in r.stdout.split('\n') if any(w in l for w in ('unknown', 'refuted', 'vacuous', 'unsupported', 'engine:'))]
            out.append('%s %s %s' % (id, ','.join(props), 'ok' if not bad and r.returncode == 0 else 'BAD ' + r.stderr[-300:]))
            out += ['     ' + b[:230] for b in bad[:6]]
        return '\n'.join(out)
    finally:
        open(p, 'w').write(s0)
        places.put(d)


with ThreadPoolExecutor(W) as ex:
    for o in ex.map(one, R):
        print(o, flush=True)
if not full:
    shutil.rmtree('/tmp/tryref', ignore_errors=True)
