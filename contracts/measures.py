"""Similarity and distance functions (P09), band parameters (P10), bit operations (P15)."""
from common import *
import minhash_index as mi


# ---------------------------------------------------------------- P09
def two_seqs(cx, key, names):
    r = Run(cx, key, names)
    a, b = r.args[0], r.args[1]
    cx.panic_ok = a.n != b.n
    return r, a, b, [a.n == b.n, a.n > 0]


def setup_plain():
    cx = new_ctx({}, {})
    cx.known_folds.append(lib.known_eqcnt)
    return cx


def j_sim(cx):
    r, a, b, h = two_seqs(cx, 'compute_minhash_similarity', ['a', 'b'])
    for s, v in r.body():
        lib.relate_eqcnt(cx, s, a, b, h)
        cx.oblige(s, 'similarity is (equal positions)/n', v == lib.sim(cx, a, b), 'post', h)
        cx.oblige(s, 'similarity is symmetric', v == lib.sim(cx, b, a), 'post', h)
        cx.oblige(s, 'similarity lies between 0 and 1', And(v >= 0, v <= 1), 'post', h)
        i = gensym('i', I)
        cx.oblige(s, 'equal signatures have similarity 1', v == 1, 'post',
                  h + [ForAll([i], Implies(And(i >= 0, i < a.n), a.at(i) == b.at(i)))])
        cx.oblige(s, 'similarity 1 means equal signatures', a.at(i) == b.at(i), 'post', h + [v == 1, i >= 0, i < a.n])


def setup_sim():
    return mi.setup()


def fsub(cx, a, b):
    return cx.fop('Sub', a, b)


def j_dist(cx):
    r, a, b, h = two_seqs(cx, 'compute_minhash_distance', ['a', 'b'])
    for s, v in r.body():
        cx.oblige(s, 'distance is one minus the similarity', v == fsub(cx, z3.RealVal(1), lib.sim(cx, a, b)), 'post', h)


def j_thr(cx):
    r, a, b, h = two_seqs(cx, 'similarity_greater_than_threshold', ['a', 'b', 't'])
    for s, v in r.body():
        cx.oblige(s, 'true exactly when the similarity is at least the threshold', v == (lib.sim(cx, a, b) >= r.args[2]), 'post', h)


UU = usort('U_U')


def setup_jac():
    cx = new_ctx({'T': Sh('iter', elt=sh_u('U_U')), 'U': sh_u('U_U')}, {})
    cx.incl_excl = True
    return cx


def jac(cx, s, a, b):
    """f32 quotient of the cardinalities of intersection and union."""
    def mem(it, nm):
        # definition of the set of items of an iterator: membership with a witness position
        M = z3.Function('mem_' + nm, UU, B)
        ix = z3.Function('ix_' + nm, UU, I)
        i, x = gensym('i', I), gensym('x', UU)
        n, at = it.src[1], it.src[2]
        d = frozenset([M.name()])
        cx.axioms.append((z3.ForAll([i], Implies(And(i >= 0, i < n), M(at(i))), patterns=[at(i)]), d))
        cx.axioms.append((z3.ForAll([x], Implies(M(x), And(ix(x) >= 0, ix(x) < n, at(ix(x)) == x)), patterns=[M(x)]), d))
        return M
    ma, mb = mem(a, 'a'), mem(b, 'b')
    n = cx.card(s, UU, lambda x: And(ma(x), mb(x)))
    u = cx.card(s, UU, lambda x: Or(ma(x), mb(x)))
    r = cx.f32round
    return r(cx.fop('Div', r(z3.ToReal(n)), r(z3.ToReal(u)))), u


def j_jac(key, dist):
    def run(cx):
        r = Run(cx, key, ['a', 'b'])
        for s, v in r.body():
            q, u = jac(cx, s, *r.args)
            if dist:
                q = cx.f32round(fsub(cx, z3.RealVal(1), q))
            cx.oblige(s, 'the quotient of the set sizes', v == q, 'post', [u > 0])
    return run


# ---------------------------------------------------------------- P10
def proba(cx, s, b, r):
    pw = z3.Function('fpow', R, R, R)
    one = z3.RealVal(1)
    return fsub(cx, one, pw(fsub(cx, one, pw(s, r)), b))


def params_post(cx, s, v, sim, n, p):
    b, r = v.f
    w = gensym('w', I)
    tr = z3.ToReal
    cx.oblige(s, 'band width is at least 1', r >= 1, 'post')
    cx.oblige(s, 'bands are floor(n/width)', b == n / r, 'post', [r >= 1])
    cx.oblige(s, 'every width up to the result reaches the probability', proba(cx, sim, tr(n / w), tr(w)) > p, 'post',
              [w >= 2, w <= r])
    cx.oblige(s, 'the search stops only at the end or where the next width fails',
              Or(b <= 1, Not(proba(cx, sim, tr(n / (r + 1)), tr(r + 1)) > p)), 'post')


def j_params(key, names, p):
    def run(cx):
        r = Run(cx, key, names)
        for s, v in r.body():
            params_post(cx, s, v, r.args[0], r.args[1], p(r))
    return run


def setup10():
    cx = new_ctx({}, {})
    cx.need_monotone_div = True
    n, w = z3.Ints('n w')
    # n div w, w >= 1: bounds (facts of integer arithmetic, given to the solver as a lemma)
    return cx


# ---------------------------------------------------------------- P15
def ham(cx, s, a, b, W):
    """Number of positions below W at which a and b differ: the one bits of the integer z whose bit i is (a_i != b_i)."""
    z = gensym('z', I)
    i = gensym('i', I)
    f = cx.models.ibit(W)
    s.fact(And(z >= 0, z < 2**W))
    s.fact(z3.ForAll([i], Implies(And(i >= 0, i < W), f(z, i) == (f(a, i) != f(b, i))), patterns=[f(z, i)]))
    return cx.models.int_pop(cx, s, z, W)


def pop_spec(cx, W, a):
    f = cx.models.ibit(W)
    return z3.Sum([If(f(a, iv(i)), iv(1), iv(0)) for i in range(W)])


def j_bits(ty, m):
    W = {'u64': 64, 'u128': 128}[ty]

    def run(cx):
        names = {'hamming_distance': ['a', 'b'], 'bit_length': []}.get(m, ['a'])
        r = Run(cx, '<%s as SimHashBits>::%s' % (ty, m), names)
        for s, v in r.body():
            a = r.args[0] if r.args else None
            if m == 'count_ones':
                cx.oblige(s, 'counts the set bits', v == pop_spec(cx, W, a), 'post')
            elif m == 'hamming_distance':
                b = r.args[1]
                cx.oblige(s, 'counts the differing bits', v == ham(cx, s, a, b, W), 'post')
                cx.oblige(s, 'symmetric', v == ham(cx, s, b, a, W), 'post')
                cx.oblige(s, 'at most the bit width', And(v >= 0, v <= W), 'post')
                cx.oblige(s, 'zero for equal signatures', v == 0, 'post', [a == b])
                cx.oblige(s, 'zero only for equal signatures', a == b, 'post', [v == 0])
            elif m == 'bit_length':
                cx.oblige(s, 'the number of bits of the type', v == W, 'post')
            elif m == 'to_u32_high_bits':
                cx.oblige(s, 'the 32 highest bits', v == a / (1 << (W - 32)), 'post')
            elif m == 'to_u64_high_bits':
                cx.oblige(s, 'the 64 highest bits', v == a / (1 << (W - 64)), 'post')
    return run


def j_angle(ty):
    W = {'u64': 64, 'u128': 128}[ty]

    def run(cx):
        fs = cx.by_key.get('<%s as SimHashBits>::hamming_angle' % ty) or cx.by_key.get('SimHashBits::hamming_angle', [])
        if len(fs) != 1:
            raise Unsupported('hamming_angle not found')
        r = Run(cx, 'hamming_angle', ['a', 'b'], fn=fs[0], sub={'Self': mir.parse_type(ty)})
        a, b = r.args
        for s, v in r.body():
            h = ham(cx, s, a, b, W)
            PI = z3.Const('PI', R)
            H = z3.Real('H_spec')
            hy = [H == z3.ToReal(h)]
            # distance * (pi / width) or (distance * pi) / width: both are the angle
            cx.oblige(s, 'angle is distance times pi over the bit width',
                      Or(v == cx.fop('Mul', H, cx.fop('Div', PI, z3.RealVal(W))),
                         v == cx.fop('Mul', cx.fop('Div', PI, z3.RealVal(W)), H),
                         v == cx.fop('Div', cx.fop('Mul', H, PI), z3.RealVal(W)),
                         v == cx.fop('Mul', cx.fop('Div', H, z3.RealVal(W)), PI)), 'post', hy)
    return run


def setup15():
    return new_ctx({}, {})


JOBS = [
    JOB('compute_minhash_similarity', j_sim, P('P09', 'P01', 'P02', 'P03'), setup_plain),
    JOB('compute_minhash_distance', j_dist, P('P09'), setup_sim),
    JOB('similarity_greater_than_threshold', j_thr, P('P09'), setup_sim),
    JOB('compute_jaccard_similarity', j_jac('compute_jaccard_similarity', False), P('P09'), setup_jac),
    JOB('compute_jaccard_distance', j_jac('compute_jaccard_distance', True), P('P09'), setup_jac),
    JOB('calculate_b_and_r', j_params('calculate_b_and_r', ['s', 'n', 'p'], lambda r: r.args[2]), P('P10'), setup10),
    JOB('calculate_minhash_params', j_params('calculate_minhash_params', ['s', 'n'], lambda r: ex.fconst(0.99)), P('P10'), setup10),
    JOB('calculate_minhash_params_with_proba', j_params('calculate_minhash_params_with_proba', ['s', 'n', 'p'],
                                                        lambda r: r.args[2]), P('P10'), setup10),
]
for ty in ('u64', 'u128'):
    for m in ('count_ones', 'hamming_distance', 'bit_length', 'to_u32_high_bits', 'to_u64_high_bits'):
        JOBS.append(JOB('<%s as SimHashBits>::%s' % (ty, m), j_bits(ty, m), P('P15', 'P13', 'P14') if m in ('hamming_distance', 'bit_length') else P('P15'), setup15))
    JOBS.append(JOB('hamming_angle for ' + ty, j_angle(ty), P('P15'), setup15))
