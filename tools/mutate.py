#!/usr/bin/env python3
"""mutate.py [-w workers] [-m max per file] [files...]: small systematic changes (operators, constants, dropped statements) of every
function in scope, one at a time on a scratch copy; prints those that compile and leave every proof of the file's properties
standing. Survivors are read by hand: each must be a change that keeps the behaviour, or is outside the properties."""
import argparse, os, queue, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
G = 'gaoya/src/'
SCOPE = {G + 'minhash/minhash_index.rs': 'P01,P02,P03,P04,P05,P06', G + 'minhash/id_container.rs': 'P07', G + 'minhash/min_hasher.rs': 'P08',
         G + 'minhash/min_hasher64.rs': 'P08', G + 'minhash/mod.rs': 'P08,P09,P10,P11', G + 'minhash/string_index.rs': 'P19',
         G + 'minhash/hashers.rs': 'P12', G + 'simhash/sim_hash.rs': 'P11,P12', G + 'simhash/sim_hasher.rs': 'P12',
         G + 'simhash/sim_hash_index.rs': 'P13,P14', G + 'simhash/permutation.rs': 'P13', G + 'simhash/mod.rs': 'P15',
         G + 'text/multi_shingles.rs': 'P16', G + 'text/tokenizers.rs': 'P21', G + 'clustering/clustering_serial.rs': 'P17',
         'py-gaoya/src/min_hash.rs': 'P20', 'py-gaoya/src/sim_hash.rs': 'P20'}
OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r' / ', [' * ']),
       (r' \+= ', [' -= ']), (r' << ', [' >> ']), (r' & ', [' | ']), (r' \| ', [' & ']), (r'\.iter\(\)', ['.iter().skip(1)', '.iter().take(1)']),
       (r'\.into_iter\(\)', ['.into_iter().skip(1)']), (r'true', ['false']), (r'false', ['true']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'!(?=[a-z(])', ['']),
       (r'0\.\.', ['1..']), (r'wrapping_', ['']), (r'\.min\(', ['.max(']), (r'\.max\(', ['.min(']), (r'\|=', ['^=']), (r'b\.cmp\(', ['a.cmp(']),
       (r'\bid\.clone\(\)', ['Default::default()'])]


def mutants(text):
    cut = text.find('#[cfg(test)]')
    n = len(text) if cut < 0 else cut
    pos = 0
    for line in text[:n].splitlines(True):
        s = line.strip()
        if s and not s.startswith(('//', 'use ', 'pub use', '#', 'impl', 'where', 'type ', 'pub trait', 'pub struct', 'pub type')):
            for pat, reps in OPS:
                for m in re.finditer(pat, line):
                    for r in reps:
                        yield pos + m.start(), pos + m.end(), r
            if s.endswith(';') and not s.startswith(('let ', 'return', 'break', 'continue', 'type ', 'const ')):
                yield pos + line.index(s), pos + line.index(s) + len(s), ''
        pos += len(line)


ap = argparse.ArgumentParser()
ap.add_argument('-w', type=int, default=3)
ap.add_argument('-m', type=int, default=1000)
ap.add_argument('-n', type=int, default=2)
ap.add_argument('files', nargs='*')
a = ap.parse_args()
todo = []
random.seed(1)
for f, ps in SCOPE.items():
    if a.files and not any(x in f for x in a.files):
        continue
    text = open('/repo/' + f).read()
    ms = list(mutants(text))
    if len(ms) > a.m:
        ms = sorted(random.sample(ms, a.m))
    todo += [(f, ps) + m for m in ms]
print(len(todo), 'mutants', flush=True)
q = queue.Queue()
for i in range(a.w):
    d = '/tmp/mut/%d' % i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    q.put(d)
stat = {}


def one(t):
    f, ps, x, y, r = t
    d = q.get()
    p = d + '/' + f
    s0 = open(p).read()
    try:
        open(p, 'w').write(s0[:x] + r + s0[y:])
        ln = s0[:x].count('\n')
        new = (s0[:x] + r + s0[y:]).split('\n')[ln].strip()
        env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=d + '-cache', PYTHONHASHSEED='0')
        try:
            r_ = subprocess.run(['python3-vt', H + '/../engine/runjobs.py', '-n', str(a.n), '-t', '4000', '-p', ps], capture_output=True, text=True, env=env, timeout=400)
        except subprocess.TimeoutExpired:
            return 'timeout', '%s:%d %s' % (f, ln + 1, new)
        bad = [l for l in r_.stdout.split('\n') if any(w in l for w in ('unknown', 'refuted', 'vacuous', 'unsupported', 'engine:'))]
        if r_.returncode != 0 and not bad:
            return 'nobuild', ''
        if any('| post' in l or '| inv' in l or '| panic' in l or '| pre' in l or 'refuted' in l for l in bad):
            return 'violation', ''
        if bad:
            return 'standin', '%s:%d  %s   -- %s' % (f, ln + 1, new, bad[0].strip()[:150])
        return 'SURVIVED', '%s:%d  %s' % (f, ln + 1, new)
    finally:
        open(p, 'w').write(s0)
        q.put(d)


with ThreadPoolExecutor(a.w) as ex:
    for k, m in ex.map(one, todo):
        stat[k] = stat.get(k, 0) + 1
        if m:
            print(k, m, flush=True)
print(stat, flush=True)
shutil.rmtree('/tmp/mut', ignore_errors=True)
