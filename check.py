#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]

Deciding step: every obligation that the contracts in contracts/ generate from /repo's current MIR is discharged.
A failed obligation is replayed against the real code by the harness in replay/ (a bounded search for a concrete input);
the harness also runs when everything is discharged, as a check of the assumed library contracts.
Exit 0: property held. Exit 1: VIOLATION line printed. Exit 2: nothing could be explored (the tree does not build)."""
import glob, json, os, resource, shutil, subprocess, sys, threading, time, traceback

if os.environ.get('PYTHONHASHSEED') != '0':     # the same proof search on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
import mir
CACHE = os.environ.get('VERIF_CACHE', '/var/tmp/verif-gaoya')
EVID = os.path.join(HERE, 'evidence')

# properties for which a panic is no violation by itself (what is returned is what they speak about)
PANIC_OK = {'P01'}
BOUND = 'random small inputs from replay/ (seeded generator), each checked against an executable statement of the property'


def limit_memory(pid):
    try:
        resource.prlimit(pid, resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (OSError, ValueError):
        pass


class Harness(threading.Thread):
    """Builds the replay crate against /repo and searches for a failing input."""

    def __init__(self, prop, seed):
        super().__init__(daemon=True)
        self.prop, self.seed = prop, seed
        self.bin, self.err, self.cases, self.runs = None, None, 0, 0
        self.hook = True

    def run(self):
        env = dict(os.environ, CARGO_TARGET_DIR=CACHE + '/replay-target', CARGO_NET_OFFLINE='true')
        for flags in ('--cfg gaoya_verif', ''):
            env['RUSTFLAGS'] = flags
            try:
                p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(HERE, 'replay'), env=env,
                                   capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                self.err = 'build timed out'
                continue
            if p.returncode == 0:
                self.bin = CACHE + '/replay-target/debug/gaoya-replay'
                self.hook = bool(flags)
                return
            self.err = p.stderr[-3000:]

    def command(self, i, ms):
        return [self.bin, self.prop, str(self.seed * 1000 + i), str(ms)]

    def search(self, seconds, procs):
        """Output of a run that found a failing input, or None."""
        self.join()
        if self.bin is None:
            return None
        ps = []
        for i in range(procs):
            cmd = self.command(i, int(seconds * 1000))
            ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            limit_memory(ps[-1][1].pid)
        found, hung = None, []
        end = time.time() + seconds * 2 + 40
        for cmd, p in ps:
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                hung.append(cmd)
                continue
            self.runs += 1
            if p.returncode == 1 and 'FAILING-INPUT' in out:
                found = found or out
            elif p.returncode is not None and p.returncode < 0 and -p.returncode in (4, 6, 8, 11):
                try:
                    q = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds * 2 + 60)
                except subprocess.TimeoutExpired:
                    hung.append(cmd)
                    continue
                if q.returncode == p.returncode:
                    found = found or 'FAILING-INPUT property=%s: `%s` dies with signal %d\n' % (self.prop, ' '.join(cmd), -p.returncode)
            else:
                for l in out.splitlines():
                    if l.startswith('cases '):
                        self.cases += int(l.split()[1])
        if hung and not found:
            # runs end by themselves: one that does not, twice, is stuck in a call that never returns
            try:
                subprocess.run(hung[0], capture_output=True, text=True, timeout=seconds * 2 + 60)
            except subprocess.TimeoutExpired:
                found = 'FAILING-INPUT property=%s: `%s` reaches a call that does not return\n' % (self.prop, ' '.join(hung[0]))
        return found


class PyHarness(Harness):
    """Builds the Python extension from /repo, lays the package out in a scratch folder and drives it from Python."""

    def run(self):
        env = dict(os.environ, CARGO_TARGET_DIR=CACHE + '/py-target', CARGO_NET_OFFLINE='true', PYO3_PYTHON='/usr/bin/python3', RUSTFLAGS='')
        try:
            p = subprocess.run(['cargo', 'build', '--offline', '-q', '-p', 'pygaoya'], cwd=mir.REPO, env=env, capture_output=True, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            self.err = 'build timed out'
            return
        if p.returncode != 0:
            self.err = p.stderr[-3000:]
            return
        pkg = CACHE + '/py-package'
        shutil.rmtree(pkg, ignore_errors=True)
        os.makedirs(pkg + '/gaoya')
        for f in glob.glob(os.path.join(mir.REPO, 'py-gaoya', 'gaoya', '*.py')):
            shutil.copy(f, pkg + '/gaoya')
        shutil.copy(CACHE + '/py-target/debug/libgaoya.so', pkg + '/gaoya/gaoya.abi3.so')
        self.bin = pkg

    def command(self, i, ms):
        return ['/usr/bin/python3', '-B', os.path.join(HERE, 'replay', 'py_harness.py'), self.bin, str(self.seed * 1000 + i), str(ms)]


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            if l.startswith('KNOWN-FINDING:'):
                out.append(l.strip())
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)
    h = (PyHarness if prop == 'P20' else Harness)(prop, seed)
    h.start()
    results, err = [], None
    try:
        import runjobs
        jobs = runjobs.all_jobs()
        idx = [i for i, j in enumerate(jobs) if prop in j['props']]
        if idx:
            results = runjobs.run_all(idx, {prop}, 40000 if thorough else 16000, par=7, limit=600 if thorough else 240,
                                      deadline=t0 + (1500 if thorough else 420), second=thorough)
    except Exception as e:
        err = 'engine: %s: %s' % (type(e).__name__, str(e)[:500])
        traceback.print_exc()
    obls = [dict(o, job=r['job']) for r in results for o in r['obls']]
    counted = [o for o in obls if o['kind'] != 'vacuity']
    done = [o for o in counted if o['status'] in ('proved', 'trivial')]
    vac = [o for o in obls if o['status'] == 'vacuous']
    broken_jobs = {}
    for r in results:
        if r['error']:
            broken_jobs[r['job']] = r['error']
        bad = [o for o in r['obls'] if o['kind'] in ('induction', 'engine') and o['status'] not in ('proved', 'trivial')]
        if bad:
            broken_jobs.setdefault(r['job'], 'loop summary not established: ' + bad[0]['name'])
        v = [o for o in r['obls'] if o['status'] == 'vacuous']
        if v:
            broken_jobs.setdefault(r['job'], 'vacuous: ' + v[0]['name'])
    failed = [o for o in counted if o['status'] not in ('proved', 'trivial') and o['kind'] not in ('induction', 'engine')
              and o['job'] not in broken_jobs and not (o['kind'] in ('panic', 'overflow') and prop in PANIC_OK)]
    proof = bool(results) and not err and not broken_jobs and not failed
    if proof:
        found = h.search(20 if thorough else 4, 8 if thorough else 4)
    else:
        found = h.search(150 if thorough else 25, 8)
    viol = 0
    replay = os.path.join(EVID, prop + '.replay.txt')
    lines = []
    if found or failed:
        viol = 1
        with open(replay, 'w') as f:
            if found:
                f.write('Failing input found on the real code:\n%s\n' % found)
            for o in failed:
                f.write('Failed obligation: %s\n  function/job: %s / %s\n  kind: %s\n  result: %s %s\n' % (
                    o['name'], o['fn'], o['job'], o['kind'], o['status'], o['detail']))
                if o.get('model'):
                    f.write('  solver model:\n%s\n' % o['model'])
                if o.get('smt'):
                    f.write('  query (SMT-LIB):\n%s\n' % o['smt'][:40000])
            for j, e in broken_jobs.items():
                f.write('Not decided by proof: %s: %s\n' % (j, e))
        for o in failed[:6]:
            print('failed obligation: %s [%s] %s' % (o['name'], o['job'], o['status']))
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if found else ' no-failing-input-found'))
    contracts = sorted({c for r in results for c in r['contracts']})
    inl = sorted({c for r in results for c in r['inlined']})
    models = sorted({c for r in results for c in r['models']})
    assumed = sorted({c for r in results for c in r['assumed']})
    lemmas = sorted({c for r in results for c in r['lemmas']})
    try:
        import trusted
        base = trusted.BASE
        extra = trusted.PER.get(prop, [])
    except Exception:
        base, extra = [], []
    cov = dict(obligations=len(counted), discharged=len(done), checker_cmd='python3-vt /verif/check.py %s' % prop,
               trusted_base=base + ['library contract: ' + m for m in models],
               back_end='Z3 %s (in process; E-matching, then MBQI); cvc5 for what Z3 leaves open' % z3v(),
               discharged_by=dict(z3=sum(1 for o in done if o['status'] == 'proved' and o['detail'] != 'cvc5'),
                                  cvc5=sum(1 for o in done if o['detail'] == 'cvc5'),
                                  simplifier=sum(1 for o in done if o['status'] == 'trivial')),
               solver_s=round(sum(o['time'] for o in obls), 2),
               functions_under_contract=sorted({r['job'] for r in results}),
               contracts_used_at_call_sites=contracts, functions_executed_in_place=inl, lemmas=lemmas,
               **(dict(second_opinion_cvc5={v: sum(1 for o in done if o.get('second') == v) for v in ('unsat', 'sat', 'none')})
                  if thorough else {}),
               vacuity_checks=sum(1 for o in obls if o['kind'] == 'vacuity'), vacuous=len(vac),
               not_decided_by_proof=broken_jobs, failed=[o['name'] + ' [' + o['job'] + ']' for o in failed],
               by_kind={k: sum(1 for o in counted if o['kind'] == k) for k in sorted({o['kind'] for o in counted})},
               bounded_stand_in=dict(used_to_decide=not proof, evaluations=h.cases, rule=BOUND, processes=h.runs,
                                     hooks_on=h.hook, build_error=h.err if h.bin is None else None))
    level = 'proof' if results else 'exploration'
    if level == 'exploration':
        cov.update(evaluations=h.cases, distinct_nontrivial=h.cases, rule=BOUND,
                   samples=['gaoya-replay %s case 0' % prop])
    if err:
        cov['engine_error'] = err
    ev = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=extra + assumed, wall_s=round(time.time() - t0, 1), violations=viol)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for l in known():
        if 'property=%s ' % prop in l:
            print(l)
    print('%s: %d/%d obligations discharged in %d jobs%s; harness %d cases; %.0f s' % (
        prop, len(done), len(counted), len(results),
        '' if not broken_jobs else ' (%d jobs decided by the bounded stand-in: %s)' % (len(broken_jobs), broken_jobs),
        h.cases, time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if not viol and not proof and h.runs == 0:
        print('%s: nothing could be explored: %s %s' % (prop, err, h.err))
        sys.stdout.flush()
        os._exit(2)
    os._exit(1 if viol else 0)


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
