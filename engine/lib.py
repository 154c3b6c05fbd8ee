"""Mathematical functions used by contracts, with lemmas. Every lemma here is itself an obligation
(contracts/lemmas.py): proved by induction from the defining equations."""
import z3
from vals import *
from exec import as_select, occurs, is_zero

_AS = {}


def first_index(st, seq, name='FIRST'):
    """Names the least position at which each listed value occurs (every non-empty set of positions has a least one)."""
    j, j2 = gensym('j', I), gensym('j', I)
    x = seq.at(j)
    f = z3.Function(gensym(name, I).decl().name(), x.sort(), I)
    st.fact(z3.ForAll([j], Implies(And(j >= 0, j < seq.n), And(f(x) >= 0, f(x) <= j, seq.at(f(x)) == x)), patterns=[x]))
    st.fact(z3.ForAll([j, j2], Implies(And(j >= 0, j < seq.n, j2 >= 0, j2 < f(x)), seq.at(j2) != x), patterns=[z3.MultiPattern(f(x), seq.at(j2))]))
    return f


def eqcnt(es):
    """EQCNT(A, p, B, q, n) = |{ i < n : A[p+i] == B[q+i] }|"""
    ar = z3.ArraySort(I, es)
    return z3.Function('EQCNT_' + str(es), ar, I, ar, I, I, I)


def eqcnt_def(es):
    f = eqcnt(es)
    ar = z3.ArraySort(I, es)
    A, C = z3.Consts('A C', ar)
    p, q, k, m = z3.Ints('p q k m')
    F = lambda n: f(A, p, C, q, n)
    return [z3.ForAll([A, p, C, q], F(iv(0)) == 0, patterns=[F(iv(0))]),
            z3.ForAll([A, p, C, q, k, m],
                      Implies(And(k >= 0, m == k + 1), F(m) == F(k) + If(A[p + k] == C[q + k], iv(1), iv(0))),
                      patterns=[z3.MultiPattern(F(k), F(m))])]


def eqcnt_lemmas(es):
    """name -> (quantified lemma, induction proof: (vars, statement(n)))"""
    f = eqcnt(es)
    ar = z3.ArraySort(I, es)
    A, C, D = z3.Consts('A C D', ar)
    p, q, r, n, i = z3.Ints('p q r n i')
    F = f(A, p, C, q, n)
    w = z3.Function('eqcntwit_' + str(es), ar, I, ar, I, I, I)
    W = w(A, p, C, q, n)
    wd = z3.Function('eqcntdif_' + str(es), ar, I, ar, I, I, I)
    WD = wd(A, p, D, r, n)
    return {
        'bounds': z3.ForAll([A, p, C, q, n], Implies(n >= 0, And(F >= 0, F <= n)), patterns=[F]),
        'symmetric': z3.ForAll([A, p, C, q, n], Implies(n >= 0, F == f(C, q, A, p, n)), patterns=[F]),
        'full means equal': z3.ForAll([A, p, C, q, n, i], Implies(And(n >= 0, F == n, i >= p, i < p + n), A[i] == C[q + i - p]),
                                      patterns=[z3.MultiPattern(F, A[i])]),
        'equal means full': z3.ForAll([A, p, C, q, n], Implies(And(n >= 0, F != n),
                                                               And(W >= 0, W < n, A[p + W] != C[q + W])), patterns=[F]),
        'content': z3.ForAll([A, p, D, r, C, q, n],
                             Or(n < 0, F == f(D, r, C, q, n), And(WD >= 0, WD < n, A[p + WD] != D[r + WD])),
                             patterns=[z3.MultiPattern(F, f(D, r, C, q, n))]),
    }


def eqcnt_induction(es):
    """(name, hypotheses, goal): each lemma from the definition alone, by induction over the number of positions.
    A lemma under a hypothesis about all positions below n is split: the hypothesis at n + 1 gives that at n and at position n."""
    f = eqcnt(es)
    ar = z3.ArraySort(I, es)
    A, C, D = z3.Consts('A0 C0 D0', ar)
    p, q, r, n, j, i = z3.Ints('p0 q0 r0 n0 j0 i0')
    F = lambda m: f(A, p, C, q, m)
    G = lambda m: f(C, q, A, p, m)
    E = lambda m: f(D, r, C, q, m)
    st = {
        'bounds': lambda m: And(F(m) >= 0, F(m) <= m),
        'symmetric': lambda m: F(m) == G(m),
        'full means equal': lambda m: And(F(m) <= m, Implies(And(F(m) == m, i >= 0, i < m), A[p + i] == C[q + i])),   # for any fixed i
    }
    out = []
    for k, s in st.items():
        out += [(k + ' (base)', [], s(iv(0))), (k + ' (step)', [n >= 0, s(n)], s(n + 1))]
    under = {
        'equal means full': (lambda t: A[p + t] == C[q + t], lambda m: F(m) == m),
        'content': (lambda t: A[p + t] == D[r + t], lambda m: F(m) == E(m)),
    }
    for k, (at, c) in under.items():
        hyp = lambda m: z3.ForAll([j], Implies(And(j >= 0, j < m), at(j)))
        out += [(k + ' (base)', [], c(iv(0))),
                (k + ' (step, positions below n)', [n >= 0, hyp(n + 1), i >= 0, i < n], at(i)),
                (k + ' (step, position n)', [n >= 0, hyp(n + 1)], at(n)),
                (k + ' (step)', [n >= 0, c(n), at(n)], c(n + 1))]
    return out


def need_eqcnt(cx, es):
    nm = 'eqcnt:' + str(es)
    if nm in cx.axkeys:
        return
    cx.axkeys.add(nm)
    d = frozenset([eqcnt(es).name()])
    axs = [(a, d) for a in eqcnt_def(es) + list(eqcnt_lemmas(es).values())]
    cx.axioms.extend(axs)
    cx.__dict__.setdefault('lib_axioms', {})[nm] = axs
    cx.lemmas_used.add('EQCNT')


def known_eqcnt(cx, st, k, bs, c, hyps):
    c = simp(c)
    if not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE):
        return None
    g, x, y = c.children()
    if not (z3.is_int_value(x) and z3.is_int_value(y)):
        return None
    if (x.as_long(), y.as_long()) == (0, 1):
        g = Not(g)
    elif (x.as_long(), y.as_long()) != (1, 0):
        return None
    neg = False
    if z3.is_not(g) or z3.is_distinct(g) and g.num_args() == 2:
        neg = True
        g = g.arg(0) if z3.is_not(g) else g.arg(0) == g.arg(1)
    if not z3.is_eq(g):
        return None
    a, b = as_select(g.arg(0), k), as_select(g.arg(1), k)
    if a is None or b is None:
        return None
    (A, p), (C, q) = a, b
    if any(occurs(t, k) for t in (A, C, p, q)):
        return None
    es = A.sort().range()
    need_eqcnt(cx, es)
    f = eqcnt(es)

    def F(kk, xs):
        e = f(A, p, C, q, kk)
        if neg:
            e = kk - e
        ps = [(v, x) for v, x in zip(bs, xs)]
        return z3.substitute(e, *ps) if ps else e
    return F


def relate_eqcnt(cx, st, a, b, hyps=()):
    """Counts the code keeps of equal (or of different) positions, in its own loop, are EQCNT (or the rest)."""
    import models
    es = a.arr.sort().range()
    need_eqcnt(cx, es)
    f = eqcnt(es)
    if not cx.__dict__.get('foldreg'):
        return
    k = gensym('k', I)
    F = lambda t: f(a.arr, a.off, b.arr, b.off, t)
    e = a.at(k) == b.at(k)
    models.relate_folds(cx, st, k, [], If(e, iv(1), iv(0)), F, a.n, hyps)
    models.relate_folds(cx, st, k, [], If(e, iv(0), iv(1)), lambda t: t - F(t), a.n, hyps)


def sim(cx, a, b):
    """Positional match fraction of two sequences of equal length, as the code computes it."""
    need_eqcnt(cx, a.arr.sort().range() if a.arr is not None else None)
    cx.float_axioms('fdiv')
    f = eqcnt(a.arr.sort().range())
    return z3.Function('fdiv', R, R, R)(z3.ToReal(f(a.arr, a.off, b.arr, b.off, a.n)), z3.ToReal(a.n))
