"""SimHashIndex: invariant and contracts (P13, P14)."""
from common import *
from exec import bitf, WIDTH
import simhash as sh_

SB, BITS, bit, W, ID = sh_.SB, sh_.BITS, sh_.bit, sh_.W, sh_.ID
OVER = {'S': BITS, 'value:Vec<Id>': Sh('bag', ksort=ID)}
HAM = z3.Function('HAM', SB, SB, I)


def need_ham(cx):
    """What the contract of hamming_distance (P15) gives on an abstract signature type."""
    if 'ham' in cx.axkeys:
        return
    cx.axkeys.add('ham')
    x, y = z3.Consts('x y', SB)
    d = frozenset(['HAM'])
    cx.models.bits_ext(cx, SB)
    cx.axioms.append((z3.ForAll([x, y], And(HAM(x, y) >= 0, HAM(x, y) <= W, HAM(x, y) == HAM(y, x)), patterns=[HAM(x, y)]), d))


def c_ham(cx, st, args):
    need_ham(cx)
    return Spec(result=HAM(cx.deref(st, args[0]), cx.deref(st, args[1])))


C_HAM = Contract('SimHashBits::hamming_distance', c_ham)


def setup():
    cx = new_ctx(OVER, {'SimHashBits::hamming_distance': C_HAM})
    need_ham(cx)
    cx.bits_atomic = True      # loops pass signatures around whole
    return cx


class View:
    def __init__(self, cx, v):
        sh = cx.shape(mir.parse_type('SimHashIndex<S, Id>'))
        f = lambda n: v.f[field_index(sh, n)]
        tsh = sh.fields[field_index(sh, 'hash_tables')].elt
        psh = tsh.fields[field_index(tsh, 'permutation')]
        self.cx = cx
        self.tables, self.sigs, self.hd = f('hash_tables'), f('id_signatures'), f('hamming_distance')
        self.n = self.tables.n
        self.mask = lambda t: self.tables.at(t).f[field_index(tsh, 'permutation')].f[field_index(psh, 'simple_mask')]
        self.table = lambda t: self.tables.at(t).f[field_index(tsh, 'table')]
        self.has = self.sigs.has

    def sig(self, x):
        v = self.sigs.get(x)
        return z3.Const('junk_sig', SB) if isinstance(v, Undef) else v

    def key(self, t, s):
        return self.cx.models.bits_op(self.cx, None, 'and', s, self.mask(t))

    def bhas(self, t, h):
        return self.table(t).has(h)

    def bag(self, t, h):
        v = self.table(t).get(h)
        return Bag(lambda x: FALSE, lambda x: FALSE) if isinstance(v, Undef) else v

    def cand(self, t, s, x):
        return And(self.bhas(t, self.key(t, s)), self.bag(t, self.key(t, s)).mem(x))

    def near(self, x, q):
        return And(self.has(x), HAM(self.sig(x), q) <= self.hd)

    def inv(self):
        t, x, h = gensym('t', I), gensym('x', ID), gensym('h', SB)
        dom = And(t >= 0, t < self.n)
        bg = self.bag(t, h)
        return [('every stored id is in its bucket of every table', [t, x],
                 Implies(And(dom, self.has(x)), self.cand(t, self.sig(x), x)), [[self.has(x), self.mask(t)]]),
                ('every id in a bucket is stored', [t, x, h], Implies(And(dom, self.bhas(t, h), bg.mem(x)), self.has(x)),
                 [[bg.mem(x)]])]

    def assume(self, invs):
        for nm, vs, f, pats in invs:
            ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats] if pats else None
            try:
                a = ForAll(vs, f, ps) if vs else f
            except z3.Z3Exception:
                a = ForAll(vs, f)
            self.cx.axioms.append((a, frozenset()))

    def assume_masks(self):
        """Signatures that differ in at most hd bits agree under the mask of some table (established by the constructor)."""
        x, y = z3.Consts('x y', SB)
        w = z3.Function('masktable', SB, SB, I)
        W_ = w(x, y)
        self.cx.axioms.append((z3.ForAll([x, y], Implies(HAM(x, y) <= self.hd,
                                                         And(W_ >= 0, W_ < self.n, self.key(W_, x) == self.key(W_, y))),
                                         patterns=[HAM(x, y)]), frozenset()))


def pre_index(cx, r):
    v = r.st.roots['self'] if isinstance(r.args[0], Ptr) else r.args[0]
    pre = View(cx, v)
    pre.assume(pre.inv())
    pre.assume_masks()
    return pre


P13, P14, BOTH = P('P13'), P('P14'), P('P13', 'P14')


def post_inv(cx, s, pre, post):
    for nm, vs, f, _ in post.inv():
        cx.oblige(s, 'invariant: ' + nm, simp(f), 'invariant', props=P13)
    t = gensym('t', I)
    cx.oblige(s, 'radius and number of tables unchanged', And(post.hd == pre.hd, post.n == pre.n), 'frame', props=BOTH)
    i = gensym('i', I)
    cx.oblige(s, 'masks unchanged', bit(post.mask(t), i) == bit(pre.mask(t), i), 'frame', [t >= 0, t < pre.n, i >= 0, i < W], props=P13)


def j_insert(cx):
    r = Run(cx, 'SimHashIndex::insert', ['self', 'id', 'sig'])
    cx.havoc_multi = True
    pre = pre_index(cx, r)
    idk, sig = r.args[1], r.args[2]
    for s, v in r.body():
        post = View(cx, s.roots['self'])
        post_inv(cx, s, pre, post)
        x, i = gensym('x', ID), gensym('i', I)
        cx.oblige(s, 'exactly the given id is added', post.has(x) == Or(pre.has(x), x == idk), 'post', props=BOTH)
        cx.oblige(s, 'ids keep or get their signature', bit(post.sig(x), i) == bit(If(x == idk, sig, pre.sig(x)), i), 'post',
                  [post.has(x), i >= 0, i < W], props=BOTH)


def bulk_args(r, pairs):
    if pairs:
        q = r.args[1]
        return q.n, (lambda k: q.at(k).f[0]), (lambda k: q.at(k).f[1])
    ids, sigs = r.args[1], r.args[2]
    return If(ids.n <= sigs.n, ids.n, sigs.n), ids.at, sigs.at


def j_bulk_insert(key, pairs):
    def run(cx):
        r = Run(cx, key, ['self', 'items'] if pairs else ['self', 'ids', 'sigs'])
        cx.havoc_multi = cx.canon_bags = True
        pre = pre_index(cx, r)
        n, idf, sigf = bulk_args(r, pairs)
        k = gensym('k', I)
        rng = lambda t: And(t >= 0, t < n)
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            post_inv(cx, s, pre, post)
            q, x, i = gensym('q', I), gensym('x', ID), gensym('i', I)
            other = z3.ForAll([k], Implies(rng(k), idf(k) != x))
            ii = [i >= 0, i < W]
            cx.oblige(s, 'every id of the list is stored', post.has(idf(q)), 'post', [rng(q)], props=BOTH)
            cx.oblige(s, 'no other id is added', post.has(x) == pre.has(x), 'post', [other], props=BOTH)
            cx.oblige(s, 'the last signature given for an id counts', bit(post.sig(idf(q)), i) == bit(sigf(q), i), 'post',
                      ii + [rng(q), z3.ForAll([k], Implies(And(k > q, k < n), idf(k) != idf(q)))], props=BOTH)
            cx.oblige(s, 'other ids keep their signature', bit(post.sig(x), i) == bit(pre.sig(x), i), 'post', ii + [pre.has(x), other],
                      props=BOTH)
    return run


def j_bulk_is_seq(key, pairs):
    def run(cx):
        r = Run(cx, key, ['self', 'items'] if pairs else ['self', 'ids', 'sigs'])
        cx.havoc_multi = True
        pre = pre_index(cx, r)
        n, idf, sigf = bulk_args(r, pairs)
        if not pairs:
            r.st.fact(r.args[1].n == r.args[2].n)
        st2 = r.st.copy()
        outs = r.body()
        ins = find(cx, 'SimHashIndex::insert')
        it = Iter(('seq', n, lambda i: Tup([idf(i), sigf(i)])))
        cx.stack.append('sequential')
        try:
            outs2 = cx.models.run_loop(cx, st2, it, lambda s, v: cx.run_fn(ins, [Ptr('self', []), v.f[0], v.f[1]], s, {}, 'one'),
                                       'sequential')
        finally:
            cx.stack.pop()
        for s, _ in outs:
            for s2, _ in outs2:
                t = s.copy()
                t.path = t.path + s2.path
                A, C = View(cx, s.roots['self']), View(cx, s2.roots['self'])
                x, i, h, j = gensym('x', ID), gensym('i', I), gensym('h', SB), gensym('j', I)
                ii = [i >= 0, i < pre.n]
                cx.oblige(t, 'same ids stored', A.has(x) == C.has(x), 'post', props=P14)
                cx.oblige(t, 'same signatures', bit(A.sig(x), j) == bit(C.sig(x), j), 'post', [A.has(x), C.has(x), j >= 0, j < W], props=P14)
                cx.oblige(t, 'same buckets', A.bhas(i, h) == C.bhas(i, h), 'post', ii, props=P14)
                cx.oblige(t, 'same ids in every bucket', A.bag(i, h).mem(x) == C.bag(i, h).mem(x), 'post',
                          ii + [A.bhas(i, h), C.bhas(i, h)], props=P14)
                cx.oblige(t, 'same radius and tables', And(A.hd == C.hd, A.n == C.n), 'post', props=P14)
    return run


# ---- queries
def set_result(cx, s, pre, q, res, extra=(), props=P13):
    x = gensym('x', ID)
    cx.oblige(s, 'a returned id is stored and within the radius', Implies(res.mem(x), pre.near(x, q)), 'post', extra, props=props)
    cx.oblige(s, 'a stored id within the radius is returned', Implies(pre.near(x, q), res.mem(x)), 'post', extra, props=props)


def list_result(cx, s, pre, q, res, extra=(), ps=(), props=P14):
    j, k, x, w = gensym('j', I), gensym('k', I), gensym('x', ID), gensym('w', I)
    (idj, dj), (idk, dk) = res.at(j).f, res.at(k).f
    rng = list(extra) + [j >= 0, j < res.n]
    hx = cx.models.hints(cx, x, ps)
    ob = lambda nm, g, hy: cx.oblige(s, nm, g, 'post', hy, props=props)
    ob('a listed id is stored and within the radius', pre.near(idj, q), rng)
    ob('a stored id within the radius is listed', z3.Exists([w], And(w >= 0, w < res.n, res.at(w).f[0] == x)),
       list(extra) + [pre.near(x, q)] + hx)
    ob('no id is listed twice', idj != idk, rng + [k > j, k < res.n])
    ob('the distance is exact', dj == HAM(pre.sig(idj), q), rng)
    ob('distances do not decrease', dj <= dk, rng + [k > j, k < res.n])


# ---- contracts of the query functions, as their callers use them
def index_arg(cx, st, a):
    return View(cx, cx.deref(st, a))


def inv_requires(V):
    out = []
    for nm, vs, f, pats in V.inv():
        ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]
        out.append((nm, z3.ForAll(vs, f, patterns=ps)))
    x, y = z3.Consts('x y', SB)
    t = gensym('t', I)
    out.append(('masks', z3.ForAll([x, y], Implies(HAM(x, y) <= V.hd, z3.Exists([t], And(t >= 0, t < V.n, V.key(t, x) == V.key(t, y)))),
                                   patterns=[HAM(x, y)])))
    return out


def c_query(cx, st, args):
    V, q = index_arg(cx, st, args[0]), cx.deref(st, args[1])
    return Spec(requires=inv_requires(V), result=SetV(lambda x: V.near(x, q)))


def c_query_list(cx, st, args):
    V, q = index_arg(cx, st, args[0]), cx.deref(st, args[1])

    def ens(res):
        j, k, x = gensym('j', I), gensym('k', I), gensym('x', ID)
        w = cx.func(st, 'listed', [ID], I)
        (idj, dj), (idk, dk) = res.at(j).f, res.at(k).f
        rng = And(j >= 0, j < res.n)
        return [('a listed id is stored and within the radius', [j], Implies(rng, And(V.near(idj, q), dj == HAM(V.sig(idj), q), w(idj) == j)), [[idj]]),
                ('length', [], res.n >= 0, None),
                ('a stored id within the radius is listed', [x],
                 Implies(V.near(x, q), And(w(x) >= 0, w(x) < res.n, res.at(w(x)).f[0] == x)), [[w(x)], [HAM(V.sig(x), q)], [V.has(x)]]),
                ('distances do not decrease', [j, k], Implies(And(rng, k > j, k < res.n), dj <= dk), [[dj, dk]])]
    return Spec(requires=inv_requires(V), result_shape=Sh('seq', elt=cx.shape(mir.parse_type('(Id, usize)'))), ensures=ens)


C_QUERY = {n: Contract(n, c_query) for n in ('SimHashIndex::query', 'SimHashIndex::query_owned')}
C_LIST = {'SimHashIndex::query_return_distance': Contract('SimHashIndex::query_return_distance', c_query_list)}


def setup_callers():
    cx = setup()
    cx.contracts.update(C_QUERY)
    cx.contracts.update(C_LIST)
    return cx


def j_query(key):
    def run(cx):
        r = Run(cx, key, ['self', 'q'])
        pre = pre_index(cx, r)
        for s, v in r.body():
            set_result(cx, s, pre, r.args[1], v, props=BOTH)
    return run


def j_query_list(cx):
    r = Run(cx, 'SimHashIndex::query_return_distance', ['self', 'q'])
    pre = pre_index(cx, r)
    for s, v in r.body():
        list_result(cx, s, pre, r.args[1], v, props=BOTH)


def j_query_one(cx):
    r = Run(cx, 'SimHashIndex::query_one', ['self', 'q'])
    pre = pre_index(cx, r)
    q = r.args[1]
    for s, v in r.body():
        x = gensym('x', ID)
        idb, db = v.alts[1][0].f
        got = [v.tag == 1]
        cx.oblige(s, 'the nearest id is stored and within the radius', pre.near(idb, q), 'post', got, props=BOTH)
        cx.oblige(s, 'its distance is exact', db == HAM(pre.sig(idb), q), 'post', got, props=P14)
        cx.oblige(s, 'no stored id within the radius is nearer', Implies(pre.near(x, q), And(v.tag == 1, db <= HAM(pre.sig(x), q))),
                  'post', props=P14)


def j_bulk_query(key, lst):
    def run(cx):
        r = Run(cx, key, ['self', 'qs'])
        pre = pre_index(cx, r)
        qs = r.args[1]
        for s, v in r.body():
            g = gensym('g', I)
            cx.oblige(s, 'one result per query', v.n == qs.n, 'post', props=BOTH)
            h = [g >= 0, g < qs.n]
            if lst:
                list_result(cx, s, pre, qs.at(g), v.at(g), h, [g], props=BOTH)
            else:
                set_result(cx, s, pre, qs.at(g), v.at(g), h, props=BOTH)
    return run


def j_size(cx):
    r = Run(cx, 'SimHashIndex::size', ['self'])
    pre = pre_index(cx, r)
    for s, v in r.body():
        cx.oblige(s, 'size is the number of stored ids', v == cx.card(s, ID, pre.has), 'post', props=P14)


K = 'SimHashIndex::'
JOBS = [JOB(K + 'insert', j_insert, BOTH, setup),
        JOB(K + 'par_bulk_insert', j_bulk_insert(K + 'par_bulk_insert', False), BOTH, setup),
        JOB(K + 'par_bulk_insert_pairs', j_bulk_insert(K + 'par_bulk_insert_pairs', True), BOTH, setup),
        JOB('SimHashIndex: par_bulk_insert equals repeated insert', j_bulk_is_seq(K + 'par_bulk_insert', False), P14, setup),
        JOB('SimHashIndex: par_bulk_insert_pairs equals repeated insert', j_bulk_is_seq(K + 'par_bulk_insert_pairs', True), P14, setup),
        JOB(K + 'query', j_query(K + 'query'), BOTH, setup),
        JOB(K + 'query_owned', j_query(K + 'query_owned'), BOTH, setup),
        JOB(K + 'query_return_distance', j_query_list, BOTH, setup_callers),
        JOB(K + 'query_one', j_query_one, BOTH, setup_callers),
        JOB(K + 'par_bulk_query', j_bulk_query(K + 'par_bulk_query', False), BOTH, setup_callers),
        JOB(K + 'par_bulk_query_return_distance', j_bulk_query(K + 'par_bulk_query_return_distance', True), BOTH, setup_callers),
        JOB(K + 'size', j_size, P14, setup)]


# ---------------------------------------------------------------- constructor
def pview(cx):
    return cx.shape(mir.parse_type('Permutation<S>'))


def setup_p():
    cx = new_ctx({'S': BITS}, {'SimHashBits::bit_length': Contract('SimHashBits::bit_length', lambda cx, st, a: Spec(result=W))})
    need_ham(cx)
    cx.sum_bounds = [(0, 2**20)]
    return cx


ANYBIT = z3.Function('anybit', SB, I)


def nonzero(x):
    return And(ANYBIT(x) >= 0, ANYBIT(x) < W, bit(x, ANYBIT(x)))


def need_anybit(cx):
    """ANYBIT chooses a set bit of every value that has one."""
    if 'anybit' not in cx.axkeys:
        cx.axkeys.add('anybit')
        x, i = z3.Const('x', SB), z3.Int('i')
        cx.axioms.append((z3.ForAll([x, i], Implies(And(i >= 0, i < W, bit(x, i)), nonzero(x)), patterns=[z3.MultiPattern(ANYBIT(x), bit(x, i))]),
                          frozenset(['anybit'])))


def perm_requires(cx, st, diff, masks):
    need_anybit(cx)
    k = gensym('k', I)
    m = masks.at(k)
    return [('enough masks', And(diff >= 0, masks.n >= diff)), ('at most one mask per bit', masks.n <= W),
            ('no mask is zero', ForAll([k], Implies(And(k >= 0, k < masks.n), nonzero(m)), [ANYBIT(m)]))]


def j_perm_new(cx):
    r = Run(cx, 'Permutation::new', ['diff', 'masks', 'choice'])
    diff, masks, choice = r.args
    for nm, f in perm_requires(cx, r.st, diff, masks):
        r.st.fact(f)
    sh = pview(cx)
    for s, v in r.body():
        i, j = gensym('i', I), gensym('j', I)
        cx.oblige(s, 'the mask is the union of the chosen blocks', bit(v.f[field_index(sh, 'simple_mask')], i) ==
                  z3.Exists([j], And(j >= 0, j < choice.n, bit(choice.at(j), i))), 'post', [i >= 0, i < W], props=P13)


JOBS += [JOB('Permutation::new', j_perm_new, P13, setup_p)]


# ---- block boundaries: BLK(i) = i * W / nb
BLK = z3.Function('BLK', I, I)
BLKOF = z3.Function('BLKOF', I, I)


def blk_axioms(nb):
    """Consequences of the definition nb*BLK(i) <= i*W < nb*BLK(i) + nb for 1 <= nb <= W (job 'lemma: block boundaries')."""
    i, p = z3.Ints('i p')
    inn = And(p >= 0, p < W)
    B_ = BLKOF(p)
    return [And(BLK(0) == 0, BLK(nb) == W),
            z3.ForAll([i], Implies(And(i >= 0, i <= nb), And(BLK(i) >= 0, BLK(i) <= W)), patterns=[BLK(i)]),
            z3.ForAll([i, p], Implies(And(i >= 0, i < p, p <= nb), BLK(i) < BLK(p)), patterns=[z3.MultiPattern(BLK(i), BLK(p))]),
            z3.ForAll([p], Implies(inn, And(B_ >= 0, B_ < nb, BLK(B_) <= p, p < BLK(B_ + 1))), patterns=[B_]),
            z3.ForAll([p, i], Implies(And(inn, i >= 0, i <= nb), And(Implies(BLK(i) <= p, i <= B_), Implies(p < BLK(i), B_ < i))),
                      patterns=[z3.MultiPattern(B_, BLK(i))])]


def j_blk(cx):
    st = St()
    nb, i, j, b, p = z3.Ints('nb i j b p')
    df = lambda t: And(nb * BLK(t) <= t * W, t * W < nb * BLK(t) + nb)
    cx.models.bits_ext(cx, SB)
    st.fact(And(nb >= 1, nb <= W))
    ob = lambda nm, g, *hy: cx.oblige(st, nm, g, 'lemma', list(hy))
    ob('starts at 0', BLK(0) == 0, df(iv(0)))
    ob('ends at the width', BLK(nb) == W, df(nb))
    ob('neighbouring boundaries differ', BLK(i) < BLK(i + 1), i >= 0, i < nb, df(i), df(i + 1), (i + 1) * W == i * W + W)
    ob('boundaries increase (induction step)', BLK(i) < BLK(j + 1), i >= 0, i <= j, j < nb, Or(i == j, BLK(i) < BLK(j)), BLK(j) < BLK(j + 1))
    ob('every position is in a block (induction step)', z3.Exists([b], And(b >= 0, b < j + 1, BLK(b) <= p, p < BLK(b + 1))),
       p >= 0, p < BLK(j + 1), j >= 0, Or(p >= BLK(j), And(i >= 0, i < j, BLK(i) <= p, p < BLK(i + 1))))
    inc = z3.ForAll([i, j], Implies(And(i >= 0, i < j, j <= nb), BLK(i) < BLK(j)))
    q = z3.Int('q')
    at = [inc, b >= 0, b < nb, BLK(b) <= p, p < BLK(b + 1), q >= 0, q <= nb]
    ob('the block of a position is unique (from below)', q <= b, *at, BLK(q) <= p)
    ob('the block of a position is unique (from above)', b < q, *at, p < BLK(q))


def is_blk(nb):
    def h(a, b):
        b = simp(b)
        if not b.eq(simp(nb)):
            return None
        a = z3.simplify(a)
        if z3.is_int_value(a) and a.as_long() == 0:
            return BLK(iv(0))
        co = {}

        def walk(e, c):
            if z3.is_add(e):
                return all([walk(x, c) for x in e.children()])
            if z3.is_mul(e):
                fs = list(e.children())
                for f in fs:
                    if z3.is_int_value(f):
                        c *= f.as_long()
                fs = [f for f in fs if not z3.is_int_value(f)]
                if len(fs) == 1 and fs[0].eq(W):
                    co[None] = co.get(None, 0) + c
                    return True
                if len(fs) == 2 and any(f.eq(W) for f in fs):
                    o = fs[1] if fs[0].eq(W) else fs[0]
                    co[o] = co.get(o, 0) + c
                    return True
                return False
            if e.eq(W):
                co[None] = co.get(None, 0) + c
                return True
            return False
        if not walk(a, 1):
            return None
        return BLK(simp(z3.Sum([iv(co.pop(None, 0))] + [o * c for o, c in co.items()])))
    return h


def c_perm_new(cx, st, args):
    diff, masks, choice = args[0], cx.deref(st, args[1]), cx.deref(st, args[2])
    sh = pview(cx)

    def ens(res):
        m = res.f[field_index(sh, 'simple_mask')]
        i, j = gensym('i', I), gensym('j', I)
        w = cx.chosen = cx.func(st, 'chosen', [I], I)
        rng = lambda t: And(t >= 0, t < choice.n)
        ii = And(i >= 0, i < W)
        return [('mask below', [i], Implies(And(ii, bit(m, i)), And(rng(w(i)), bit(choice.at(w(i)), i))), [[bit(m, i)], [w(i)]]),
                ('mask above', [i, j], Implies(And(ii, rng(j), bit(choice.at(j), i)), bit(m, i)), None)]
    req = perm_requires(cx, st, diff, masks)
    cx.perm_new = Spec(requires=req, result_shape=sh, ensures=ens)
    return cx.perm_new


def setup_create():
    cx = setup_p()
    need_anybit(cx)
    cx.contracts['Permutation::new'] = Contract('Permutation::new', c_perm_new)
    return cx


def blocks_inv(nb, count):
    """Invariant of the loop that completes a combination by the other blocks."""
    def give(cx, st0, item):
        rs = sorted({r for r, p in cx.loop_todo})
        if len(rs) != 1 or not cx.combs or not cx.params or not isinstance(st0.roots.get(rs[0]), Seq):
            return None
        src, r, M, cf, rk = cx.combs[-1]
        m = cx.params[-1]
        A0 = st0.roots[rs[0]]
        inC = lambda b: And(cb(b) < r, cf(m, cb(b)) == b)      # b is one of the chosen blocks
        q = gensym('q', I)
        # least position of the combination whose block is not below k (least-number principle)
        cb = cx.func(st0, 'below', [I], I)
        kk = gensym('k', I)
        C = cb(kk)
        cx.axiom(st0, Implies(kk >= 0, And(C >= 0, C <= r, Or(C == 0, cf(m, C - 1) < kk), Or(C == r, cf(m, C) >= kk))), [kk], [[C]],
                 [cb.decl.name()])
        def at(s, k):
            A = s.roots[rs[0]]
            j, i, b = gensym('j', I), gensym('i', I), gensym('b', I)
            jj = And(j >= 0, j < A.n)
            ai = bit(A.at(j), i)
            return [('a block holds its first position', [b],
                     Implies(And(b >= 0, b < nb), And(BLK(b) >= 0, BLK(b) < BLK(b + 1), BLK(b + 1) <= W, BLKOF(BLK(b)) == b, bit(src.at(b), BLK(b)))),
                     [[src.at(b)]]),
                    ('one more for every block not chosen', [], A.n == A0.n + k - cb(k), None),
                    ('none of the combination is dropped', [], A.n >= A0.n, None),
                    ('the combination comes first', [j, i], Implies(And(j >= 0, j < A0.n, i >= 0, i < W), And(j < A.n, ai == bit(A0.at(j), i))), [[ai]]),
                    ('the next chosen block is there', [], Implies(cb(k) < r, bit(A.at(cb(k)), BLK(cf(m, cb(k))))), None),
                    ('only chosen or visited blocks', [j, i], Implies(And(jj, i >= 0, i < W, ai), Or(BLKOF(i) < k, inC(BLKOF(i)))), [[ai]]),
                    ('no mask is zero', [j], Implies(jj, nonzero(A.at(j))), [[ANYBIT(A.at(j))]])]
        return at
    return give


def j_create(cx):
    r = Run(cx, 'Permutation::create', ['nb', 'hd'])
    nb, hd = r.args
    r.st.fact(And(nb >= 1, nb <= W, hd >= 0, hd < nb))
    cx.div_defs = [is_blk(nb)]
    for a in blk_axioms(nb):
        cx.axioms.append((a, frozenset(['BLK'])))
    cx.loop_inv = blocks_inv(nb, nb - hd)
    sh = pview(cx)
    outs = r.body()
    # that Permutation::new does not panic rests on the invariant of the loop that completes a combination; where the
    # completion is written in a form that invariant does not fit, these obligations say nothing about the code
    pre = 'post' if getattr(cx, 'inv_used', False) else 'induction'
    if pre == 'induction':
        for o in cx.obls:
            if o.kind == 'precondition':
                o.kind = 'induction'
    for s, v in outs:
        cx.oblige(s, 'at least one table', v.n >= 1, 'post', props=P13)
        x, y = z3.Consts('sx sy', SB)
        i, k, t = gensym('i', I), gensym('k', I), gensym('t', I)
        dif = lambda p: bit(x, p) != bit(y, p)
        H, _ = cx.models.spec_fold(cx, s, k, dif(k), W)
        clean = lambda b: z3.ForAll([i], Implies(And(i >= BLK(b), i < BLK(b + 1)), Not(dif(i))))
        C, sel = cx.models.spec_fold(cx, s, k, clean(k), nb)
        ob = lambda nm, g, *hy: cx.oblige(s, nm, g, 'post', list(hy), props=P13)
        def steps(nm, hy, *gs):
            hy = list(hy)
            for n_, g in gs:
                cx.oblige(s, '%s: %s' % (nm, n_), g, pre if n_.startswith('precondition') else 'post', hy, props=P13)
                hy.append(g)
        ob('blocks with a difference are at most the differences (start)', 0 - C(iv(0)) <= H(BLK(0)))
        q = gensym('q', I)
        inq = [k >= 0, k < nb, q >= BLK(k), q < BLK(k + 1), dif(q)]
        steps('a block with a difference has one at least', inq,
              ('range', And(q >= 0, BLK(k + 1) <= W)), ('counted', H(q + 1) == H(q) + 1), ('before', H(BLK(k)) <= H(q)),
              ('after', H(q + 1) <= H(BLK(k + 1))))
        hk = [k >= 0, k < nb, k - C(k) <= H(BLK(k))]
        ob('blocks with a difference are at most the differences (step, difference)', k + 1 - C(k + 1) <= H(BLK(k + 1)), *hk,
           H(BLK(k)) + 1 <= H(BLK(k + 1)))
        steps('blocks with a difference are at most the differences (step, no difference)', hk + [clean(k)],
              ('counted', C(k + 1) == C(k) + 1), ('order', And(BLK(k) >= 0, BLK(k) <= BLK(k + 1), BLK(k + 1) <= W)),
              ('more differences later', H(BLK(k)) <= H(BLK(k + 1))), ('bound', k + 1 - C(k + 1) <= H(BLK(k + 1))))
        near = [nb - C(nb) <= H(BLK(nb)), H(W) <= hd]      # the induction's conclusion; the Hamming distance is H(W)
        ob('enough blocks without a difference', C(nb) >= nb - hd, *near)
        a = gensym('a', z3.ArraySort(I, I))
        arr = [z3.ForAll([k], a[k] == sel(k), patterns=[a[k]])]
        hy = near + arr + [C(nb) >= nb - hd]
        rk = [rk_(a) for *_, rk_ in cx.combs]
        mask = lambda t_: v.at(t_).f[field_index(sh, 'simple_mask')]
        if len(rk) == 1:
            w = rk[0]
            ob('some combination avoids the differences', And(w >= 0, w < v.n), *hy)
            c = gensym('c', I)
            inb = And(c >= 0, c < nb - hd, BLK(a[c]) <= i, i < BLK(a[c] + 1))
            src, _, _, cf, _ = cx.combs[0]
            c0 = cx.chosen.decl(w, i)
            steps('a position under the mask is in a chosen block', [w >= 0, w < v.n, i >= 0, i < W, bit(mask(w), i)],
                  *[('precondition %d' % n_, z3.substitute(f, *[(m_, w) for m_ in cx.perm_new.held[1]])) for n_, f in enumerate(cx.perm_new.held[0])],
                  ('chosen', And(c0 >= 0, c0 < nb - hd)), ('under a block', bit(src.at(cf(w, c0)), i)))
            steps('the block of the combination is the clean one', arr + [C(nb) >= nb - hd, c >= 0, c < nb - hd, i >= 0, i < W, bit(src.at(cf(w, c)), i)],
                  ('within', And(BLK(cf(w, c)) <= i, i < BLK(cf(w, c) + 1))), ('same block', cf(w, c) == a[c]), ('in', inb))
            ob('signatures within the radius agree under the mask', Not(dif(i)), *arr, C(nb) >= nb - hd, i >= 0, i < W, inb)
        else:
            raise Unsupported('the blocks are combined in a way this contract does not know')


JOBS += [JOB('lemma: block boundaries', j_blk, P13, setup_p), JOB('Permutation::create', j_create, P13, setup_create)]


def c_create(cx, st, args):
    nb, hd = args
    sh = pview(cx)

    def ens(res):
        x, y = z3.Consts('sx sy', SB)
        i = gensym('i', I)
        w = cx.func(st, 'agreeing', [SB, SB], I)
        t = w(x, y)
        m = res.at(t).f[field_index(sh, 'simple_mask')]
        return [('at least one table', [], res.n >= 1, None),
                ('a table for signatures within the radius', [x, y], Implies(HAM(x, y) <= hd, And(t >= 0, t < res.n)), [[HAM(x, y)]]),
                ('they agree under its mask', [x, y, i],
                 Implies(And(HAM(x, y) <= hd, i >= 0, i < W, bit(m, i)), bit(x, i) == bit(y, i)), [[HAM(x, y), bit(x, i)]])]
    return Spec(requires=[('blocks', And(nb >= 1, nb <= W, hd >= 0, hd < nb))], result_shape=Sh('seq', elt=sh), ensures=ens)


def setup_index_new():
    cx = setup()
    cx.contracts['Permutation::create'] = Contract('Permutation::create', c_create)
    return cx


def j_index_new(cx):
    r = Run(cx, 'SimHashIndex::new', ['nb', 'hd'])
    nb, hd = r.args
    r.st.fact(And(nb >= 1, nb <= W, hd >= 0, hd < nb))
    for s, v in r.body():
        V = View(cx, v)
        x, y = z3.Consts('sx sy', SB)
        i, idx = gensym('i', I), gensym('x', ID)
        cx.oblige(s, 'the new index is empty', Not(V.has(idx)), 'post', props=BOTH)
        for nm, vs, f, _ in V.inv():
            cx.oblige(s, 'invariant: ' + nm, simp(f), 'invariant', props=P13)
        cx.oblige(s, 'the radius is the one asked for', V.hd == hd, 'post', props=BOTH)
        t = gensym('t', I)
        kx, ky = V.key(t, x), V.key(t, y)
        ext = z3.ForAll([t], Or(kx == ky, z3.Exists([i], And(i >= 0, i < W, bit(kx, i) != bit(ky, i)))), patterns=[V.mask(t)])
        cx.oblige(s, 'signatures within the radius share a bucket of some table',
                  z3.Exists([t], And(t >= 0, t < V.n, kx == ky)), 'post', [HAM(x, y) <= hd, ext], props=P13)


JOBS += [JOB(K + 'new', j_index_new, BOTH, setup_index_new)]
