"""SimHash: signatures (P12), centroid (P11), index (P13, P14)."""
from common import *
from exec import bitf, WIDTH

SB = usort('S_Bits')
BITS = Sh('bits', sort=SB)
UU, HH, ID = usort('U_U'), usort('U_H'), usort('U_Id')
bit, W = bitf(SB), WIDTH(SB)


def setup_c():
    return new_ctx({'S': BITS, 'T': Sh('iter', elt=BITS), 'H': sh_u('U_H')}, {})


def j_centroid(cx):
    r = Run(cx, 'SimHash::create_centroid', ['self', 'sigs'])
    it = r.args[1]
    n, at = it.src[1], it.src[2]
    L = z3.Int('const_L')
    r.st.fact(And(L >= 0, L <= W))
    for s, v in r.body():
        i, k = gensym('i', I), gensym('k', I)
        ii = [i >= 0, i < L]
        cnt, _ = cx.models.spec_fold(cx, s, k, bit(at(k), i), n, [i], ii)
        cx.oblige(s, 'bit i is set exactly when it is set in more than half of the signatures', bit(v, i) == (cnt(n) > n / 2), 'post', ii)
        cx.oblige(s, 'bits beyond the configured length are clear', Not(bit(v, i)), 'post', [i >= L, i < W])


# ---- signatures
SH = z3.Function('SIMHASH', HH, UU, SB)


def c_hash(cx, st, args):
    """A token's hash is a function of the hasher and the token."""
    return Spec(result=SH(cx.deref(st, args[0]), cx.deref(st, args[1])))


HASH = Contract('SimHasher::hash', c_hash)


def setup_s():
    return new_ctx({'S': BITS, 'T': Sh('iter', elt=sh_u('U_U')), 'H': sh_u('U_H'), 'U': sh_u('U_U')}, {'SimHasher::hash': HASH})


def j_signature(cx):
    r = Run(cx, 'SimHash::create_signature', ['self', 'it'])
    h = r.args[0].f[0]
    it = r.args[1]
    n, at = it.src[1], it.src[2]
    L = z3.Int('const_L')
    r.st.fact(And(L >= 0, L <= W))
    cx.sum_bounds = [(-1, 1)]
    for s, v in r.body():
        i, k = gensym('i', I), gensym('k', I)
        ii = [i >= 0, i < L]
        tb = lambda t: bit(SH(h, at(t)), i)
        ones, _ = cx.models.spec_fold(cx, s, k, tb(k), n, [i], ii)
        zeros, _ = cx.models.spec_fold(cx, s, k, Not(tb(k)), n, [i], ii)
        cx.models.relate_folds(cx, s, k, [i], If(tb(k), iv(-1), iv(1)), lambda t: zeros(t) - ones(t), n, ii)
        cx.oblige(s, 'bit i is set exactly when more tokens have it clear than set', bit(v, i) == (zeros(n) > ones(n)), 'post', ii)
        cx.oblige(s, 'all zeros for an empty stream', Not(bit(v, i)), 'post', [n == 0, i >= 0, i < W])
        cx.oblige(s, 'bits beyond the configured length are clear', Not(bit(v, i)), 'post', [i >= L, i < W])


def j_multiset(cx):
    """Counting the tokens with a bit set does not depend on their order: exchanging two neighbours changes no count
    (and neighbour exchanges generate every reordering)."""
    st = St()
    p, n, k = z3.Ints('p n k')
    g = z3.Function('tokbit', I, B)
    g2 = lambda t: If(t == p, g(p + 1), If(t == p + 1, g(p), g(t)))
    C, D = z3.Function('count1', I, I), z3.Function('count2', I, I)
    st.fact(And(p >= 0, p + 1 < n, C(0) == 0, D(0) == 0))
    one = lambda b: If(b, iv(1), iv(0))
    stp = lambda t: And(C(t + 1) == C(t) + one(g(t)), D(t + 1) == D(t) + one(g2(t)))
    ob = lambda nm, gl, *hy: cx.oblige(st, nm, gl, 'lemma', list(hy))
    ob('equal before the exchanged pair', C(k + 1) == D(k + 1), k >= 0, k < p, C(k) == D(k), stp(k))
    ob('equal after the exchanged pair', C(p + 2) == D(p + 2), C(p) == D(p), stp(p), C(p + 2) == C(p + 1) + one(g(p + 1)),
       D(p + 2) == D(p + 1) + one(g2(p + 1)))
    ob('equal from there on', C(k + 1) == D(k + 1), k >= p + 2, C(k) == D(k), stp(k))


def j_new(cx):
    r = Run(cx, 'SimHash::new', ['h'])
    for s, v in r.body():
        cx.oblige(s, 'the given hasher is used', v.f[0] == r.args[0], 'post')


JOBS = [JOB('SimHash::new', j_new, P('P12'), setup_s),
        JOB('lemma: the signature does not depend on the order of tokens', j_multiset, P('P12'), setup_s),
        JOB('SimHash::create_centroid', j_centroid, P('P11'), setup_c),
        JOB('SimHash::create_signature', j_signature, P('P12'), setup_s)]
