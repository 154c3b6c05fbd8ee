"""MinHash signature creation (P08)."""
from common import *

UU = usort('U_U')
SEED = usort('Seed')
MM = {'MinHasher64V1': (64, 64, 2**61 - 1), 'MinHasher32': (32, 32, 2**31 - 1), 'MinHasher16': (32, 16, 2**31 - 1),
      'MinHasher8': (32, 8, 2**31 - 1)}


def setup():
    return new_ctx({'T': Sh('iter', elt=sh_u('U_U')), 'U': sh_u('U_U'), 'B': sh_u('Seed')}, {})


def hash_of(cx, s, seed, x, w):
    """Hash of a token under a hash function, cut to the working width."""
    h = cx.models.h_fin(cx, cx.models.hash_value(cx, s, cx.models.h_init(seed), x))
    return h if w == 64 else h % (1 << w)


def mix(cx, h, a, b, w, p):
    return ((cx.models.wmul(cx, h, a) % (1 << w) + b) % (1 << w)) % p


class Hasher:
    """Fields of a hasher struct by name."""

    def __init__(self, v, sh):
        g = lambda n: v.f[field_index(sh, n)]
        self.bh, self.a, self.b, self.n = g('build_hasher'), g('a'), g('b'), g('num_hashes')

    def inv(self):
        return And(self.a.n == self.n, self.b.n == self.n)


def is_min(n, m, cut, v):
    """v is cut(the minimum of m over 0..n)."""
    t, u = gensym('t', I), gensym('u', I)
    return z3.Exists([t], And(t >= 0, t < n, v == cut(m(t)),
                              z3.ForAll([u], Implies(And(u >= 0, u < n), m(t) <= m(u)))))


def is_signature(cx, s, H, it, res, key, i):
    """Position i of res is the minimum over the items of it."""
    w, out, p = MM[key]
    n, at = it.src[1], it.src[2]
    m = lambda j: mix(cx, hash_of(cx, s, H.bh, at(j), w), H.a.at(i), H.b.at(i), w, p)
    cut = (lambda x: x) if out == w else (lambda x: x % (1 << out))
    return is_min(n, m, cut, res.at(i))


def j_sig(key):
    def run(cx):
        r = Run(cx, '<%s as MinHasher>::create_signature' % key, ['self', 'it'])
        H = Hasher(r.args[0], cx.shape(r.fn.args[0][1]))
        r.st.fact(H.inv())
        it = r.args[1]
        n = it.src[1]
        for s, v in r.body():
            i = gensym('i', I)
            ii = [i >= 0, i < H.n]
            cx.oblige(s, 'one position per hash function', v.n == H.n, 'post')
            cx.oblige(s, 'every position is the minimum over the tokens', is_signature(cx, s, H, it, v, key, i), 'post', ii + [n > 0])
            cx.oblige(s, 'zeros for an empty stream', v.at(i) == 0, 'post', ii + [n == 0])
    return run


def j_set(cx):
    """Consequence of the contract: streams with the same tokens (in any order, any number of times) have one signature.
    What a token contributes to a position (mix of its hash) is a function of the token; nothing else matters."""
    st = St()
    n1, n2 = z3.Ints('n1 n2')
    f1, f2 = z3.Function('tok1', I, UU), z3.Function('tok2', I, UU)
    w12, w21 = z3.Function('w12', I, I), z3.Function('w21', I, I)
    mx, cut = z3.Function('mixed', UU, I), z3.Function('cut', I, I)
    i = z3.Int('i')
    st.fact(And(n1 > 0, n2 > 0))
    st.fact(z3.ForAll([i], Implies(And(i >= 0, i < n1), And(w12(i) >= 0, w12(i) < n2, f2(w12(i)) == f1(i))), patterns=[f1(i)]))
    st.fact(z3.ForAll([i], Implies(And(i >= 0, i < n2), And(w21(i) >= 0, w21(i) < n1, f1(w21(i)) == f2(i))), patterns=[f2(i)]))
    r1, r2 = z3.Ints('r1 r2')
    for n, f, r in ((n1, f1, r1), (n2, f2, r2)):
        st.fact(is_min(n, lambda j, f=f: mx(f(j)), cut, r))
    cx.oblige(st, 'the signature depends only on the set of tokens', r1 == r2, 'lemma')
    cx.oblige(st, 'the hypotheses are satisfiable', FALSE, 'vacuity')
    cx.obls[-1].expect = False


def j_num(key):
    def run(cx):
        r = Run(cx, '%s::num_hashes' % key, ['self'])
        H = Hasher(r.args[0], cx.shape(r.fn.args[0][1]))
        for s, v in r.body():
            cx.oblige(s, 'the configured number', v == H.n, 'post')
    return run


# ---- constructors
CN = {'new': ['n'], 'new_with_hasher': ['n', 'bh'], 'new_with_hasher_and_seed': ['n', 'bh', 'seed']}


def setup_new():
    cx = new_ctx({'B': sh_u('Seed'), 'StdRng': Sh('scalar', sort=usort('Rng'), rng=None),
                  'BuildHasherDefault': sh_u('Seed')}, {})
    cx.rec_ok = True
    return cx


def j_new(key, m):
    def run(cx):
        name = '%s::%s' % (key, m)
        r = Run(cx, name, CN[m])
        sh = cx.shape(r.fn.ret)
        outs = r.body()
        p = MM[key][2]
        st2 = r.st.copy()
        for s, v in outs:
            H = Hasher(v, sh)
            cx.oblige(s, 'one pair of coefficients per hash function', H.inv(), 'post')
            cx.oblige(s, 'the configured number of hash functions', H.n == r.args[0], 'post')
            i = gensym('i', I)
            ii = [i >= 0, i < H.n]
            cx.oblige(s, 'multipliers lie between 1 and the prime', And(H.a.at(i) >= 1, H.a.at(i) < p), 'post', ii)
            cx.oblige(s, 'increments lie below the prime', And(H.b.at(i) >= 0, H.b.at(i) < p), 'post', ii)
            if len(r.args) > 1:
                cx.oblige(s, 'the given hash function is used', H.bh == r.args[1], 'post')
        # the same arguments give the same hasher
        outs2 = run_again(cx, r)
        for s, v in outs:
            for s2, v2 in outs2:
                H, G = Hasher(v, sh), Hasher(v2, sh)
                i = gensym('i', I)
                t = s.copy()
                t.path = t.path + s2.path
                ii = [i >= 0, i < H.n]
                cx.oblige(t, 'equal arguments give equal multipliers', H.a.at(i) == G.a.at(i), 'post', ii)
                cx.oblige(t, 'equal arguments give equal increments', H.b.at(i) == G.b.at(i), 'post', ii)
                cx.oblige(t, 'equal arguments give equal hash functions', H.bh == G.bh, 'post', ii)
    return run


# ---- default methods of the trait, over the contract of create_signature
VV = usort('U_V')
HH = usort('U_Hasher')


def sig_funs():
    ks = seqkey_funs(UU)[0]
    return z3.Function('SIGLEN', HH, I), z3.Function('SIGAT', HH, ks, I, VV)


def c_signature(cx, st, args):
    """The signature is a function of the hasher and the sequence of tokens, its length of the hasher alone."""
    h = cx.deref(st, args[0])
    it = args[1]
    q = it if isinstance(it, Seq) else cx.models.collect_seq(cx, st, cx.models.items(cx, st, it, True))
    k = cx.key(st, Seq(q.n, lambda i: cx.deref(st, q.at(i))))
    ln, at = sig_funs()
    if 'siglen' not in cx.axkeys:
        cx.axkeys.add('siglen')
        x = z3.Const('x', HH)
        cx.axioms.append((z3.ForAll([x], And(ln(x) >= 0, ln(x) < 2**63), patterns=[ln(x)]), frozenset(['SIGLEN'])))
    return Spec(result=Seq(ln(h), lambda i: at(h, k, i)))


def setup_abs():
    cx = new_ctx({'T': Sh('iter', elt=sh_u('U_U')), 'U': sh_u('U_U'), 'Self': sh_u('U_Hasher'), 'V': sh_u('U_V'),
                  '<Self as MinHasher>::V': sh_u('U_V'), 'Self::V': sh_u('U_V')},
                 {'MinHasher::create_signature': Contract('MinHasher::create_signature', c_signature)})
    cx.known_folds.append(lib.known_eqcnt)
    cx.contracts['compute_minhash_similarity'] = __import__('minhash_index').SIM
    return cx


def j_bulk(key):
    def run(cx):
        r = Run(cx, 'MinHasher::' + key, ['self', 'batch'])
        h, batch = r.args
        for s, v in r.body():
            i, j = gensym('i', I), gensym('j', I)
            sig = c_signature(cx, s, [h, batch.at(i)]).result
            cx.oblige(s, 'one signature per document', v.n == batch.n, 'post')
            ii = [i >= 0, i < batch.n]
            cx.oblige(s, 'signature lengths equal those of single creation', v.at(i).n == sig.n, 'post', ii)
            cx.oblige(s, 'bulk creation equals single creation position by position', v.at(i).at(j) == sig.at(j), 'post',
                      ii + [j >= 0, j < sig.n])
    return run


def j_compute(cx):
    r = Run(cx, 'MinHasher::compute_similarity', ['self', 'a', 'b'])
    h = r.args[0]
    for s, v in r.body():
        x, y = [c_signature(cx, s, [h, it]).result for it in r.args[1:]]
        w = cx.contracts['compute_minhash_similarity'].spec(cx, s, [x, y]).result
        cx.oblige(s, 'the similarity of the two signatures', v == w, 'post', [x.n == y.n])


JOBS = [JOB('MinHasher::compute_similarity', j_compute, P('P09'), setup_abs)]
for key in ('bulk_create_signature', 'bulk_create_signature_refs'):
    JOBS.append(JOB('MinHasher::' + key, j_bulk(key), P('P08'), setup_abs))
for key in MM:
    JOBS.append(JOB('<%s as MinHasher>::create_signature' % key, j_sig(key), P('P08'), setup))
    for m in CN:
        JOBS.append(JOB('%s::%s' % (key, m), j_new(key, m), P('P08'), setup_new))
    JOBS.append(JOB('%s::num_hashes' % key, j_num(key), P('P08'), setup))
JOBS.append(JOB('lemma: signatures depend on the token set', j_set, P('P08'), setup))
