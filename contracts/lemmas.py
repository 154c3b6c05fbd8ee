"""The mathematical facts that the engine gives to the solver, proved here from definitions by induction.
G is an arbitrary predicate on positions, c an arbitrary step."""
from common import *

G = z3.Function('G', I, B)
G2 = z3.Function('G2', I, B)
c = z3.Function('c', I, I)
c2 = z3.Function('c2', I, I)
n, m, i, j, k, p, lo, hi = z3.Ints('n m i j k p lo hi')
nat = lambda *xs: [x >= 0 for x in xs]


def setup():
    return new_ctx({}, {})


def proof(*steps):
    """Each step: (name, goal, hypotheses)."""
    def run(cx):
        st = St()
        for nm, g, hy in steps:
            cx.oblige(st, nm, g, 'lemma', list(hy))
    return run


def induct(nm, stmt, defs, hyps=(), extra=()):
    """stmt(0), and stmt(n) -> stmt(n+1) for n >= 0."""
    return [(nm + ' (base)', stmt(iv(0)), list(defs) + list(hyps)),
            (nm + ' (step)', stmt(n + 1), list(defs) + list(hyps) + [n >= 0, stmt(n)] + list(extra))]


def count(F, g):
    q = z3.Int('q')
    return [F(iv(0)) == 0, z3.ForAll([q], Implies(q >= 0, F(q + 1) == F(q) + If(g(q), iv(1), iv(0))), patterns=[F(q + 1)])]


# ---- numbers of true guards and their positions
S = z3.Function('S', I, I)
DS = count(S, G)
mono = lambda t: z3.ForAll([k], Implies(And(k >= 0, k <= t), And(S(k) <= S(t), S(t) - S(k) <= t - k)))
strict = lambda t: z3.ForAll([k], Implies(And(k >= 0, k < t, G(k)), S(k) < S(t)))
pos = lambda t: z3.ForAll([i], Implies(And(i >= 0, i < S(t)), z3.Exists([p], And(p >= 0, p < t, G(p), S(p) == i))))
COUNT = induct('a count lies between 0 and the number of steps', lambda t: And(S(t) >= 0, S(t) <= t), DS)
COUNT += induct('counts grow by at most one per step', mono, DS, extra=[S(n + 1) >= S(n)])
COUNT += induct('a count is larger beyond a true guard', strict, DS, extra=[mono(n)])
COUNT += induct('every rank below a count has a position', pos, DS)
COUNT += [('that position is unique', i == j, nat(i, j) + [G(i), G(j), S(i) == S(j), z3.ForAll([n], Implies(n >= 0, strict(n)))]),
          ('two counts with equal guards (base)', S(iv(0)) == z3.Function('S2', I, I)(iv(0)), DS + count(z3.Function('S2', I, I), G2))]
S2 = z3.Function('S2', I, I)
COUNT += [('two counts with equal guards (step)', S(n + 1) == S2(n + 1), DS + count(S2, G2) + [n >= 0, S(n) == S2(n), G(n) == G2(n)])]

# ---- sums
T, T2 = z3.Function('T', I, I), z3.Function('T2', I, I)
summ = lambda F, f: [F(iv(0)) == 0, z3.ForAll([k], Implies(k >= 0, F(k + 1) == F(k) + f(k)), patterns=[F(k + 1)])]
ok = lambda t: z3.ForAll([k], Implies(And(k >= 0, k < t), And(c(k) >= lo, c(k) <= hi)), patterns=[c(k)])
SUMS = [('sums of steps within bounds (base)', And(T(iv(0)) >= lo * 0, T(iv(0)) <= hi * 0), summ(T, c)),
        ('sums of steps within bounds (step)', And(T(n + 1) >= lo * n + lo, T(n + 1) <= hi * n + hi),
         summ(T, c) + [n >= 0, ok(n + 1), T(n) >= lo * n, T(n) <= hi * n]),
        ('sums with equal steps (base)', T(iv(0)) == T2(iv(0)), summ(T, c) + summ(T2, c2)),
        ('sums with equal steps (step)', T(n + 1) == T2(n + 1), summ(T, c) + summ(T2, c2) + [n >= 0, T(n) == T2(n), c(n) == c2(n)])]

# ---- first and last position, least and greatest value
L = z3.Function('L', I, I)
DL = [L(iv(0)) == -1, z3.ForAll([k], Implies(k >= 0, L(k + 1) == If(G(k), k, L(k))), patterns=[L(k + 1)])]
last = lambda t: And(L(t) >= -1, L(t) < If(t > 0, t, iv(0)), Implies(L(t) >= 0, G(L(t))),
                     z3.ForAll([j], Implies(And(j > L(t), j >= 0, j < t), Not(G(j))), patterns=[G(j)]))
first = lambda t: Or(z3.ForAll([j], Implies(And(j >= 0, j < t), Not(G(j))), patterns=[G(j)]),
                     z3.Exists([p], And(p >= 0, p < t, G(p), z3.ForAll([j], Implies(And(j >= 0, j < p), Not(G(j))), patterns=[G(j)]))))
M = z3.Function('M', I, I)
e0 = z3.Int('e0')
DM = [M(iv(0)) == e0, z3.ForAll([k], Implies(k >= 0, M(k + 1) == If(c(k) < M(k), c(k), M(k))), patterns=[M(k + 1)])]
least = lambda t: And(M(t) <= e0, Or(M(t) == e0, z3.Exists([p], And(p >= 0, p < t, M(t) == c(p)))),
                      z3.ForAll([j], Implies(And(j >= 0, j < t), M(t) <= c(j)), patterns=[c(j)]))
ORDER = induct('the last position with a property', last, DL) + induct('the first position with a property', first, []) + \
    induct('the least of finitely many values', least, DM)

# ---- finite sets: a listing of a universe without repetition, counted with guards
A1, B1 = z3.Function('inA', I, B), z3.Function('inB', I, B)
F = {nm: z3.Function('n' + nm, I, I) for nm in ('A', 'B', 'N', 'U')}
DC = count(F['A'], A1) + count(F['B'], B1) + count(F['N'], lambda q: And(A1(q), B1(q))) + count(F['U'], lambda q: Or(A1(q), B1(q)))
ar = z3.ArraySort(I, I)
f = z3.Const('f', ar)
inj = lambda f, a, b: And(z3.ForAll([i], Implies(And(i >= 0, i < a), And(f[i] >= 0, f[i] < b)), patterns=[f[i]]),
                          z3.ForAll([i, j], Implies(And(i >= 0, i < a, j >= 0, j < a, i != j), f[i] != f[j]), patterns=[z3.MultiPattern(f[i], f[j])]))
# P(b): an injection of a positions into b positions has a <= b. Step: drop the position mapped to b (if any), moving the last one there
w = z3.Int('w')
g = z3.Store(f, w, f[m - 1])
hit = [w >= 0, w < m, f[w] == n]
CARD = induct('inclusion and exclusion', lambda t: F['A'](t) + F['B'](t) == F['N'](t) + F['U'](t), DC) + \
    [('pigeonhole (base)', m <= 0, [inj(f, m, iv(0)), f[0] == f[0], m >= 0]),
     ('pigeonhole (step, last value not taken)', m <= n + 1, [n >= 0, m >= 0, inj(f, m, n + 1),
      z3.ForAll([i], Implies(And(i >= 0, i < m), f[i] != n), patterns=[f[i]]), Implies(inj(f, m, n), m <= n)]),
     ('pigeonhole (step, last value taken)', m <= n + 1, [n >= 0, m >= 1, inj(f, m, n + 1)] + hit + [Implies(inj(g, m - 1, n), m - 1 <= n)])]


# ---- positions on which two sequences agree
def j_eqcnt(cx):
    st = St()
    d = lib.eqcnt_def(T_)
    for nm, hy, goal in lib.eqcnt_induction(T_):
        cx.oblige(st, 'agreeing positions: ' + nm, goal, 'lemma', (d if '(step, ' not in nm else []) + hy)


T_ = usort('U_T')
ALLC = P('P01', 'P02', 'P03', 'P04', 'P06', 'P08', 'P10', 'P11', 'P12', 'P13', 'P14', 'P16', 'P17')
JOBS = [JOB('lemmas: counting', proof(*COUNT), ALLC, setup),
        JOB('lemmas: sums', proof(*SUMS), P('P10', 'P11', 'P12'), setup),
        JOB('lemmas: first, last, least', proof(*ORDER), ALLC | P('P05'), setup),
        JOB('lemmas: finite sets', proof(*CARD), P('P09', 'P04', 'P17'), setup),
        JOB('lemmas: agreeing positions', j_eqcnt, P('P01', 'P02', 'P03', 'P09'), setup)]
