#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from properties.jsonl, the registered jobs and the notes below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/engine', H + '/contracts']
import runjobs
NA = {}
jobs = runjobs.all_jobs()
checks = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA:
        continue
    js = [j['name'] for j in jobs if p in j['props']]
    c = dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='python3-vt check.py %s --thorough' % p,
             evidence_file='evidence/%s.json' % p)
    if js:
        c.update(technique='contracts on the real functions, discharged by Z3 over the MIR compiled from /repo',
                 level='proof', level_note='Functions under contract: ' + ', '.join(js) + '. Assumed: library contracts of '
                 'std/ahash/rayon (engine/models.py), reals for floats, the VC generator, rustc, Z3. A function the generator '
                 'cannot decide after a change falls back to a bounded search, reported as such in the evidence.',
                 theorems=js)
    else:
        c.update(technique='bounded stand-in: executable contract checked on generated inputs', level='exploration',
                 level_note='bounded, not proved: contracts for this part are not discharged; the executable form of the '
                 'postconditions is evaluated on random small inputs.')
    checks.append(c)
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='cfg gaoya_verif', enable='RUSTFLAGS=--cfg gaoya_verif', source_commits=['e3b5921']),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Every check re-derives its obligations from /repo\'s current working tree; see DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
