"""MinHash centroids (P11)."""
from common import *
import minhash_index as mi

TT = usort('U_T')
P11 = P('P11')
MENTION = z3.Function('MENTION', TT, B)      # uninterpreted: brings a term to the solver's attention


def setup():
    return new_ctx({'T': sh_u('U_T')}, {})


def j_positions(name, refs):
    def run(cx):
        r = Run(cx, name, ['sigs'])
        sg = cx.deref(r.st, r.args[0])
        n = sg.n
        row = lambda t: cx.deref(r.st, sg.at(t))
        L = row(iv(0)).n
        t, i, k, x = gensym('t', I), gensym('i', I), gensym('k', I), gensym('x', TT)
        r.st.fact(n >= 1)
        r.st.fact(ForAll([t], Implies(And(t >= 0, t < n), row(t).n == L), [row(t).n]))
        r.st.fact(ForAll([t], MENTION(row(iv(0)).at(t))))
        for s, v in r.body():
            cx.oblige(s, 'the centroid is as long as the signatures', v.n == L, 'post')
            ii = [i >= 0, i < L]
            cnt, _ = cx.models.spec_fold(cx, s, k, row(k).at(i) == x, n, [i, x], ii)
            ob = lambda nm, g: cx.oblige(s, nm, g, 'post', ii)
            ob('its value at a position occurs there', cnt(n, [i, v.at(i)]) >= 1)
            ob('no value occurs more often at a position', cnt(n) <= cnt(n, [i, v.at(i)]))
    return run


def applications(e, prefix):
    out, seen, work = [], set(), [e]
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.num_args() and t.decl().name().startswith(prefix):
            out.append(t)
        work.extend(t.children())
    return out


def j_bands(cx):
    r = Run(cx, 'minhash_band_centroid_from_refs', ['sigs', 'b', 'r'])
    sg = cx.deref(r.st, r.args[0])
    nb, bs = r.args[1], r.args[2]
    n = sg.n
    row = lambda t: cx.deref(r.st, sg.at(t))
    t, i, k, j = gensym('t', I), gensym('i', I), gensym('k', I), gensym('j', I)
    r.st.fact(n >= 1)
    r.st.fact(And(nb >= 1, bs >= 1))
    r.st.fact(ForAll([t], Implies(And(t >= 0, t < n), row(t).n == nb * bs), [row(t).n]))
    ks, mk, ln, at = ex.seqkey_funs(TT)
    cx.need_seqkey(TT)
    band = lambda t, i: cx.key(r.st, Seq(bs, lambda j: row(t).at(i * bs + j), row(t).arr, row(t).off + i * bs if row(t).off is not None else i * bs))
    M = z3.Function('MENTION', ks, B)
    r.st.fact(ForAll([t], M(band(iv(0), t))))
    for s, v in r.body():
        cx.models.relate_folds(cx, s, k, [], bs, lambda t: t * bs, nb, hints=[M(band(iv(0), k))])
        cx.oblige(s, 'the centroid is as long as the signatures', v.n == nb * bs, 'post')
        x, kv, d = gensym('x', ks), gensym('kv', ks), gensym('d', I)
        ii = [i >= 0, i < nb]
        cnt, _ = cx.models.spec_fold(cx, s, k, band(k, i) == x, n, [i, x], ii)
        # kv is the centroid's band i
        mine = [ln(kv) == bs, ForAll([j], Implies(And(j >= 0, j < bs), at(kv, j) == v.at(i * bs + j)), [at(kv, j)])]
        here = [M(band(iv(0), i))]
        ob = lambda nm, g, *hy: cx.oblige(s, nm, g, 'post', ii + list(hy))
        won = list({W.sexpr(): (W, ps[-1]) for W, ps in cx.bests if W.sort() == ks and ps}.values())
        if len(won) == 1:
            # in steps: the centroid's band is the winner of its counter
            b = z3.substitute(won[0][0], (won[0][1], i))
            ob('a band of the centroid is as long as a band', ln(b) == bs, *here)
            dif = [d >= 0, d < bs]
            pos = gensym('pos', I)
            dif += [pos == i * bs + d, pos < i * bs + bs, pos >= i * bs]
            # (facts of arithmetic) the bands before i and i itself are within the centroid
            dif += [(i + 1) * bs == i * bs + bs, i * bs >= 0]
            vt = v.at(pos)
            for P in applications(vt, 'PIECE!'):
                ob('a position of the centroid lies in its band', P == i, ln(b) == bs, *dif)
                dif.append(P == i)
            ob('a band of the centroid comes from its counter', vt == at(b, d), ln(b) == bs, *dif)
            same = ForAll([j], Implies(And(j >= 0, j < bs), v.at(i * bs + j) == at(b, j)), [at(b, j)])
            ob('and is its winner', kv == b, *mine, ln(b) == bs, same)
            mine, kv = [], b
        ob('its value in a band occurs there', cnt(n, [i, kv]) >= 1, *mine, *here)
        ob('no value occurs more often in a band', cnt(n) <= cnt(n, [i, kv]), *mine, *here)


# ---- the index
def c_bands(cx, st, args):
    """Contract of minhash_band_centroid_from_refs, as far as its caller needs it: what it is called with, and its result."""
    sg, nb, bs = cx.deref(st, args[0]), args[1], args[2]
    t = gensym('t', I)
    row = lambda t: cx.deref(st, sg.at(t))
    cx.called = (sg, nb, bs, row)
    sh = mi.SEQT

    def ens(res):
        cx.gave = res
        return [('length', [], res.n == nb * bs, None)]
    return Spec(requires=[('at least one band and one row', And(nb >= 1, bs >= 1)), ('at least one signature', sg.n >= 1),
                          ('signatures of the same length', ForAll([t], Implies(And(t >= 0, t < sg.n), row(t).n == nb * bs)))],
                result_shape=sh, ensures=ens)


def setup_index():
    return mi.setup({'minhash_band_centroid_from_refs': Contract('minhash_band_centroid_from_refs', c_bands)})


def j_calculate(cx):
    r = mi.Run(cx, 'MinHashIndex::calculate_centroid', ['self', 'ids'])
    pre = mi.pre_index(cx, r)
    ids = cx.deref(r.st, r.args[1])
    k, u, j = gensym('k', I), gensym('u', I), gensym('j', I)
    w = gensym('w', I)
    r.st.fact(And(w >= 0, w < ids.n, pre.has(ids.at(w))))      # at least one of the ids is stored
    cnt, sel = cx.models.spec_fold(cx, r.st, k, pre.has(ids.at(k)), ids.n)
    for f, d in cx.models.count_facts(cx, r.st, cx.models.fold_info(cx, cnt(k), k)):
        cx.axioms.append((f, d))
    cx.called = None
    for s, v in r.body():
        if cx.called is None:
            raise Unsupported('the centroid is not computed by minhash_band_centroid_from_refs')
        sg, nb, bs, row = cx.called
        cx.models.spec_fold(cx, s, k, pre.has(ids.at(k)), ids.n)
        ob = lambda nm, g, *hy: cx.oblige(s, nm, g, 'post', list(hy))
        ob('the bands are those of the index', And(nb == pre.b, bs == pre.r))
        ob('one signature for every id that is stored', sg.n == cnt(ids.n))
        ob('in the order of the ids', And(row(u).n == pre.sig(ids.at(sel(u))).n, row(u).at(j) == pre.sig(ids.at(sel(u))).at(j)),
           u >= 0, u < sg.n, j >= 0, j < pre.nh)
        ob('the centroid is as long as the signatures', v.n == pre.nh)
        ob('the centroid is the one computed', v.at(j) == cx.gave.at(j), j >= 0, j < v.n)


JOBS = [JOB('minhash_centroid', j_positions('minhash_centroid', False), P11, setup),
        JOB('minhash_centroid_from_refs', j_positions('minhash_centroid_from_refs', True), P11, setup),
        JOB('minhash_band_centroid_from_refs', j_bands, P11, setup),
        JOB('MinHashIndex::calculate_centroid', j_calculate, P11, setup_index)]
