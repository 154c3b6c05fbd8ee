"""Run jobs in parallel child processes and collect obligation results."""
import importlib, multiprocessing as mp, os, sys, time, traceback
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'contracts')]
import z3
import verify
from vals import Unsupported

MODULES = ['minhash_index', 'containers', 'measures', 'hashers', 'simhash', 'simhashers', 'simhash_index', 'centroid', 'text', 'tokenizers', 'clusterer', 'clusterer_par', 'string_index', 'python', 'pylayer', 'keys', 'lemmas']


def all_jobs():
    out = []
    for m in MODULES:
        out += importlib.import_module(m).JOBS
    return out


def run_job(job, props=None, timeout=20000, second=False):
    t = time.time()
    res = dict(job=job['name'], obls=[], error=None, contracts=[], inlined=[], models=[], assumed=[], lemmas=[])
    cx = None
    try:
        cx = job['setup']()
        cx.prover.timeout = timeout
        cx.props = job['props']
        cx.curfn = job['name']
        job['run'](cx)
        res['gen_s'] = round(time.time() - t, 2)
        fails = 0
        for o in sorted(cx.obls, key=lambda o: o.kind != 'induction'):
            if props is not None and o.props is not None and not (o.props & props):
                continue
            if o.expect is False:
                cx.prover.vacuity(cx, o)
            elif o.status != 'trivial':
                cx.prover.discharge(cx, o)
            o.second = cx.prover.second(cx, o) if second and o.status == 'proved' and o.detail != 'cvc5' else None
            if o.second == 'sat':
                o.status, o.detail = 'unknown', 'Z3: unsat, cvc5: sat'
            if o.status in ('refuted', 'unknown'):
                fails += 1
                cx.prover.timeout = min(cx.prover.timeout, 6000)
            res['obls'].append(dict(name=o.name, fn=o.fn, kind=o.kind, status=o.status, time=round(o.time, 3), detail=o.detail,
                                    model=o.model, second=o.second, props=sorted(o.props or []),
                                    smt=cx.prover.smt2(cx, o) if o.status in ('refuted', 'unknown') else None))
            if o.status in ('refuted', 'unknown') and (o.kind == 'induction' or fails >= 4):
                break
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
        res['tb'] = traceback.format_exc()
    except Exception as e:
        res['error'] = 'engine: %s: %s' % (type(e).__name__, str(e)[:300])
        res['tb'] = traceback.format_exc()
    if cx is not None:
        res['contracts'] = sorted(cx.used_contracts)
        res['inlined'] = sorted(cx.inlined)
        res['models'] = sorted(cx.models_used)
        res['assumed'] = sorted(cx.assumed)
        res['lemmas'] = sorted(cx.lemmas_used)
    res['wall'] = round(time.time() - t, 2)
    return res


def run_all(idx, props=None, timeout=20000, par=8, limit=300, deadline=None, second=False):
    """idx: indices into all_jobs(). Each job in its own forked process."""
    ctx = mp.get_context('fork')
    js = all_jobs()
    for pk in {js[i].get('package', 'gaoya') for i in idx}:
        verify.crate(pk)
    pend = list(idx)
    live = {}
    out = {}
    names = [j['name'] for j in all_jobs()]
    while pend or live:
        while pend and len(live) < par:
            i = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_pipe_child, args=(i, w, props, timeout, second))
            p.start()
            w.close()
            live[i] = (p, r, time.time())
        for i, (p, r, t0) in list(live.items()):
            if r.poll(0.02):
                try:
                    out[i] = r.recv()
                except EOFError:
                    out[i] = dict(job=names[i], obls=[], error='engine: worker died', contracts=[], inlined=[], models=[],
                                  assumed=[], lemmas=[], wall=time.time() - t0)
                p.join()
                del live[i]
            elif time.time() - t0 > limit or (deadline and time.time() > deadline):
                p.kill()
                p.join()
                out[i] = dict(job=names[i], obls=[], error='unsupported: time limit of %d s' % limit, contracts=[], inlined=[],
                              models=[], assumed=[], lemmas=[], wall=limit)
                del live[i]
    return [out[i] for i in idx]


def _pipe_child(i, w, props, timeout, second):
    w.send(run_job(all_jobs()[i], props, timeout, second))
    w.close()


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('-j', default='')
    ap.add_argument('-p', default='')
    ap.add_argument('-n', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-t', type=int, default=20000)
    ap.add_argument('--tb', action='store_true')
    ap.add_argument('--second', action='store_true')
    a = ap.parse_args()
    js = all_jobs()
    ps = set(a.p.split(',')) if a.p else None
    idx = [i for i, j in enumerate(js) if a.j in j['name'] and (not ps or ps & j['props'])]
    for r in run_all(idx, ps, a.t, par=a.n, second=a.second):
        st = {}
        for o in r['obls']:
            st[o['status']] = st.get(o['status'], 0) + 1
        if a.second:
            for o in r['obls']:
                if o['second']:
                    st['cvc5 ' + o['second']] = st.get('cvc5 ' + o['second'], 0) + 1
        print(r['job'], r['wall'], 's', st, r['error'] or '')
        if a.tb and r.get('tb'):
            print(r['tb'])
        for o in r['obls']:
            if a.v or o['status'] in ('refuted', 'unknown', 'vacuous'):
                print('    ', o['status'], '|', o['kind'], '|', o['name'], '|', o['fn'], o['props'], o['time'], o['detail'])
