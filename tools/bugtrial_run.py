#!/usr/bin/env python3
"""bugtrial_run.py [-f defs.py] [-w workers] [ids...]: apply each trial bug to a scratch copy of /repo, check that it compiles and
passes the unit tests, and run the check of its property from a scratch copy of /verif."""
import argparse, os, queue, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser(); ap.add_argument('-f', default=os.path.join(os.path.dirname(os.path.abspath(__file__)), 'bugtrial.py'))
ap.add_argument('-w', type=int, default=3); ap.add_argument('ids', nargs='*'); ap.add_argument('-p'); ap.add_argument('--notest', action='store_true')
a = ap.parse_args()
d = {}; exec(open(a.f).read(), d)
R = [r for r in d['R'] if not a.ids or r[0] in a.ids]
q = queue.Queue()
W = min(a.w, len(R))
for i in range(W):
    b = '/tmp/tb/%d' % i
    shutil.rmtree(b, ignore_errors=True)
    os.makedirs(b + '/repo'); os.makedirs(b + '/verif')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo' % b, shell=True, check=True)
    subprocess.run('cp -r /verif/check.py /verif/engine /verif/contracts /verif/replay /verif/known_findings.txt %s/verif/' % b, shell=True, check=True)
    q.put(b)

def one(r):
    id, prop, edits = r[:3]
    b = q.get()
    saved = {}
    try:
        for f, x, y in edits:
            p = b + '/repo/' + f
            s = open(p).read(); saved.setdefault(p, s)
            if s.count(x) < 1: return '%s DOES NOT APPLY %s' % (id, x[:80])
            open(p, 'w').write(s.replace(x, y, 1))
        t = ''
        if not a.notest:
            e = dict(os.environ, CARGO_TARGET_DIR=b + '/tt', CARGO_NET_OFFLINE='true')
            c = subprocess.run('cargo test -q -p gaoya --offline --lib', shell=True, cwd=b + '/repo', env=e, capture_output=True, text=True)
            t = 'tests ' + ('pass' if c.returncode == 0 else 'FAIL ' + ' '.join(l for l in (c.stdout + c.stderr).split('\n') if 'FAILED' in l or l.startswith('error'))[:200])
        e = dict(os.environ, VERIF_REPO=b + '/repo', VERIF_CACHE=b + '/cache', VERIF_SEED='1', VERIF_TIER='quick')
        out = []
        for pr in (a.p or prop).split(','):
            c = subprocess.run(['python3-vt', b + '/verif/check.py', pr], env=e, capture_output=True, text=True)
            ls = c.stdout.strip().split('\n')
            v = [l for l in ls if l.startswith('VIOLATION')]
            fo = [l for l in ls if l.startswith('failed obl')]
            st = [l for l in ls if 'obligations discharged' in l]
            kind = 'MISSED' if c.returncode == 0 else 'rc=%d' % c.returncode
            if v: kind = ('proof ' if fo else '') + ('input' if 'no-failing' not in v[0] else '')
            out.append('%s %s %s: %s' % (id, pr, t, kind))
            if kind != 'proof input':
                out.append('      ' + (st[0] if st else c.stderr[-300:])[:400])
                if fo: out.append('      ' + fo[0][:200])
        return '\n'.join(out)
    finally:
        for p, s in saved.items(): open(p, 'w').write(s)
        q.put(b)

with ThreadPoolExecutor(W) as ex:
    for o in ex.map(one, R): print(o, flush=True)
shutil.rmtree('/tmp/tb', ignore_errors=True)
