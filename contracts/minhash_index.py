"""MinHashIndex: representation invariant and contracts (P01-P06)."""
import z3
from vals import *
import exec as ex
import lib
from verify import *

OVER = {'C': Sh('bag', ksort=ID), 'HashSetContainer': Sh('bag', ksort=ID)}


class View:
    """Accessors on a symbolic MinHashIndex value."""

    def __init__(self, cx, v):
        sh = cx.shape(mir.parse_type('MinHashIndex<T, Id, C>'))
        f = lambda n: v.f[field_index(sh, n)]
        bsh = sh.fields[field_index(sh, 'bands')].elt
        self.cx, self.v, self.sh = cx, v, sh
        self.bands, self.sigs = f('bands'), f('id_signatures')
        self.thr, self.r, self.b, self.nh = f('threshold'), f('r'), f('b'), f('num_hashes')
        g = lambda i, n: self.bands.at(i).f[field_index(bsh, n)]
        self.table = lambda i: g(i, 'hash_table')
        self.start, self.end = lambda i: g(i, 'band_start'), lambda i: g(i, 'band_end')
        self.seed = lambda i: g(i, 'build_ahash')
        self.has = self.sigs.has
        self.junk = None

    def sig(self, x):
        v = self.sigs.get(x)
        if isinstance(v, Undef):       # a map that never held anything
            v = Seq.of_arr(z3.Int('junk_n'), z3.Const('junk_arr', z3.ArraySort(I, T)))
        return v

    def bhas(self, i, h):
        return self.table(i).has(h)

    def bag(self, i, h):
        v = self.table(i).get(h)
        if isinstance(v, Undef):       # a table that never held anything
            v = Bag(*[(lambda x, m=m: z3.Function('junk_' + m, x.sort(), B)(x)) for m in ('mem', 'multi')])
        return v

    def H(self, i, s):
        """Hash of band i of a signature."""
        m = self.cx.models
        return m.h_fin(self.cx, m.h_slice(self.cx, m.h_init(self.seed(i)), s.arr, simp(s.off + self.start(i)),
                                          simp(self.end(i) - self.start(i))))

    def cand(self, i, q, x):
        h = self.H(i, q)
        return And(self.bhas(i, h), self.bag(i, h).mem(x))

    def is_cand(self, q, x):
        i = gensym('i', I)
        return z3.Exists([i], And(i >= 0, i < self.b, self.cand(i, q, x)))

    def share(self, i, s, t):
        j = gensym('j', I)
        return ForAll([j], Implies(And(j >= self.start(i), j < self.end(i)), s.at(j) == t.at(j)))

    def sim(self, x, q):
        return lib.sim(self.cx, self.sig(x), q)

    # ---- invariants: (name, binders, formula, patterns, properties)
    def shape_inv(self):
        i = gensym('i', I)
        x = gensym('x', ID)
        out = [('at least one band and one row', [], And(self.b >= 1, self.r >= 1), None),
               ('one table per band', [], self.bands.n == self.b, None),
               ('num_hashes is bands times rows', [], And(self.nh == self.b * self.r, self.nh >= 1), None),
               ('band i covers i*r..(i+1)*r', [i],
                Implies(And(i >= 0, i < self.b), And(self.start(i) == i * self.r, self.end(i) == i * self.r + self.r,
                                                     self.start(i) >= 0, self.end(i) <= self.nh)), [[self.start(i)], [self.end(i)]]),
               ('stored signatures have num_hashes positions', [x],
                Implies(self.has(x), self.sig(x).n == self.nh), [[self.has(x)]])]
        return out

    def complete_inv(self):
        i, x = gensym('i', I), gensym('x', ID)
        h = self.H(i, self.sig(x))
        return [('every stored id is in its bucket of every band', [i, x],
                 Implies(And(i >= 0, i < self.b, self.has(x)), self.cand(i, self.sig(x), x)),
                 [[self.has(x), self.start(i)], [self.bhas(i, h)]])]

    def exact_inv(self):
        i, h, x = gensym('i', I), gensym('h', I), gensym('x', ID)
        dom = And(i >= 0, i < self.b, self.bhas(i, h))
        bg = self.bag(i, h)
        w = z3.Function('bucketwit', I, I, ID)
        return [('a bucket holds only stored ids with that band hash', [i, h, x],
                 Implies(And(dom, bg.mem(x)), And(self.has(x), self.H(i, self.sig(x)) == h)), [[bg.mem(x)]]),
                ('no id twice in a bucket', [i, h, x], Implies(dom, Not(And(bg.mem(x), bg.multi(x)))), [[bg.multi(x)]])]

    def nonempty(self, i, h):
        x = gensym('x', ID)
        return z3.Exists([x], self.bag(i, h).mem(x))

    def nonempty_inv(self):
        i, h = gensym('i', I), gensym('h', I)
        return [('no empty bucket', [i, h], Implies(And(i >= 0, i < self.b, self.bhas(i, h)), self.nonempty(i, h)),
                 [[self.bhas(i, h)]])]

    def assume(self, invs):
        for nm, vs, f, pats in invs:
            ps = None
            if pats:
                ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats]
            try:
                a = ForAll(vs, f, ps) if vs else f
            except z3.Z3Exception:
                a = ForAll(vs, f)
            self.cx.axioms.append((a, frozenset()))

    def goals(self, invs):
        """Invariants as goals (binders are already fresh constants)."""
        return [(nm, f) for nm, vs, f, _ in invs]


# ---- callee contracts
def c_similarity(cx, st, args):
    a, b = cx.deref(st, args[0]), cx.deref(st, args[1])
    aa, ao = cx.arr_of(st, a)
    ba, bo = cx.arr_of(st, b)
    A, C = Seq.of_arr(a.n, aa, ao), Seq.of_arr(b.n, ba, bo)
    return Spec(panics=a.n != b.n, result=lib.sim(cx, A, C))


SIM = Contract('compute_minhash_similarity', c_similarity)


def setup(contracts=None):
    cx = new_ctx(OVER, contracts if contracts is not None else {'compute_minhash_similarity': SIM})
    cx.known_folds.append(lib.known_eqcnt)
    return cx


P = lambda *xs: frozenset(xs)
ALL6 = P('P01', 'P02', 'P03', 'P04', 'P05', 'P06')


class Run:
    """One function under contract: symbolic pre-state, body execution, post obligations."""

    def __init__(self, cx, key, names, inv='weak', n=None, module=None):
        self.cx = cx
        self.fn = find(cx, key, n, module)
        self.st = St()
        self.args = [arg_value(cx, self.st, ty, nm) for (_, ty), nm in zip(self.fn.args, names)]
        self.name = key

    def body(self):
        self.outs = run_body(self.cx, self.fn, self.args, self.st)
        for n, (s, _) in enumerate(self.outs):
            # vacuity guard: the path must not be contradictory
            self.cx.oblige(s, 'a normal return is reachable (%s)' % self.name, FALSE, 'vacuity', props=self.cx.props)
            self.cx.obls[-1].expect = False
        return self.outs


def pre_index(cx, r, exact=False):
    v = r.st.roots['self'] if isinstance(r.args[0], Ptr) else r.args[0]
    pre = View(cx, v)
    pre.assume(pre.shape_inv() + pre.complete_inv())
    if exact:
        pre.assume(pre.exact_inv() + pre.nonempty_inv())
    return pre


def post_inv(cx, s, post, exact=False):
    for nm, g in post.goals(post.shape_inv()):
        cx.oblige(s, 'invariant: ' + nm, simp(g), 'invariant', props=P('P01', 'P02', 'P03', 'P04', 'P06'))
    for nm, g in post.goals(post.complete_inv()):
        cx.oblige(s, 'invariant: ' + nm, simp(g), 'invariant', props=P('P02'))
    if exact:
        for nm, g in post.goals(post.exact_inv()):
            cx.oblige(s, 'invariant: ' + nm, simp(g), 'invariant', props=P('P06'))
        for nm, g in post.goals(post.nonempty_inv()):
            cx.oblige(s, 'invariant: ' + nm, simp(g), 'invariant', props=P('P06'))


def frame(cx, s, pre, post):
    """Parameters of the index never change."""
    cx.oblige(s, 'threshold, bands and rows unchanged',
              And(post.thr == pre.thr, post.b == pre.b, post.r == pre.r, post.nh == pre.nh), 'frame',
              props=P('P01', 'P02', 'P03', 'P04', 'P05', 'P06'))
    i = gensym('i', I)
    cx.oblige(s, 'hash seeds unchanged', Implies(And(i >= 0, i < pre.b), post.seed(i) == pre.seed(i)), 'frame',
              props=P('P02', 'P05', 'P06'))


SEQT = sh_seq(sh_u('U_T'))


def map_effect(cx, s, post, has, get, props=P('P01', 'P02', 'P04', 'P05')):
    x = gensym('x', ID)
    cx.oblige(s, 'id is bound iff it should be', post.has(x) == has(x), 'post', props=props)
    for nm, hy, g in cx.equal(s, SEQT, post.sig(x), get(x)):
        cx.oblige(s, 'id is bound to its signature' + nm, g, 'post', hy + [post.has(x), has(x)], props=props)


# ---------------------------------------------------------------- constructors
def j_new(key, names):
    def run(cx):
        r = Run(cx, key, names)
        nb, rw = r.args[0], r.args[1]
        r.st.fact(And(nb >= 1, rw >= 1, nb * rw < 2**63, nb < 2**63, rw < 2**63))
        for s, v in r.body():
            post = View(cx, v)
            post_inv(cx, s, post, True)
            x, i, h = gensym('x', ID), gensym('i', I), gensym('h', I)
            cx.oblige(s, 'new index holds no id', Not(post.has(x)), 'post', props=P('P01', 'P04', 'P06'))
            cx.oblige(s, 'new index has no bucket', Implies(And(i >= 0, i < post.b), Not(post.bhas(i, h))), 'post',
                      props=P('P06'))
            cx.oblige(s, 'parameters are stored', And(post.thr == r.args[2], post.b == nb, post.r == rw), 'post',
                      props=P('P01', 'P02', 'P03'))
    return run


# ---------------------------------------------------------------- mutators
def j_insert(exact):
    def run(cx):
        r = Run(cx, 'MinHashIndex::insert', ['self', 'id', 'sig'])
        pre = pre_index(cx, r, exact)
        idk, sig = r.args[1], r.args[2]
        if exact:
            r.st.fact(Not(pre.has(idk)))
        cx.panic_ok = sig.n != pre.nh
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            if exact:
                post_exact(cx, s, post)
                continue
            post_inv(cx, s, post)
            frame(cx, s, pre, post)
            cx.oblige(s, 'a signature of the wrong length is rejected', sig.n == pre.nh, 'post', props=P('P04'))
            map_effect(cx, s, post, lambda x: Or(pre.has(x), x == idk), lambda x: ite(x == idk, sig, pre.sig(x)))
    return run


def post_exact(cx, s, post, pre=None, pushed=None):
    '''pushed = (number, id of the k-th, signature of the k-th) names where a new bucket's first id comes from.'''
    for nm, g in post.goals(post.exact_inv() + (post.nonempty_inv() if pushed is None else [])):
        cx.oblige(s, 'invariant: ' + nm, simp(g), 'invariant', props=P('P06'))
    if pushed is not None:
        n, idf, sigf = pushed
        i, h, x, j = gensym('i', I), gensym('h', I), gensym('x', ID), gensym('j', I)
        ii = [i >= 0, i < pre.b]
        isj = lambda t: And(t >= 0, t < n, pre.H(i, sigf(t)) == h)
        cx.oblige(s, 'invariant: no empty bucket (old buckets keep their ids)', And(post.bhas(i, h), post.bag(i, h).mem(x)), 'invariant',
                  ii + [pre.bhas(i, h), pre.bag(i, h).mem(x)], props=P('P06'))
        cx.oblige(s, 'invariant: no empty bucket (a new bucket has a reason)', z3.Exists([j], isj(j)), 'invariant',
                  ii + [post.bhas(i, h), Not(pre.bhas(i, h))], props=P('P06'))
        q = gensym('q', I)
        cx.oblige(s, 'invariant: no empty bucket (the reason is in it)', post.bag(i, h).mem(idf(q)), 'invariant',
                  ii + [post.bhas(i, h), isj(q)], props=P('P06'))


def j_remove(exact):
    def run(cx):
        r = Run(cx, 'MinHashIndex::remove', ['self', 'id'])
        pre = pre_index(cx, r, exact)
        idk = r.args[1]
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            if exact:
                post_exact(cx, s, post)
                continue
            post_inv(cx, s, post)
            frame(cx, s, pre, post)
            map_effect(cx, s, post, lambda x: And(pre.has(x), x != idk), lambda x: pre.sig(x))
            cx.oblige(s, 'returns something iff the id was bound', (v.tag == 1) == pre.has(idk), 'post', props=P('P04'))
            for nm, hy, g in cx.equal(s, SEQT, v.alts[1][0], pre.sig(idk)):
                cx.oblige(s, 'returns the bound signature' + nm, g, 'post', hy + [v.tag == 1], props=P('P04'))
    return run


def j_simple(key, names, effect, exact):
    def run(cx):
        r = Run(cx, key, names)
        pre = pre_index(cx, r, exact)
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            if exact:
                post_exact(cx, s, post)
                continue
            post_inv(cx, s, post)
            frame(cx, s, pre, post)
            has = pre.has if effect == 'same' else (lambda x: FALSE)
            map_effect(cx, s, post, has, pre.sig)
    return run


# ---------------------------------------------------------------- bulk mutators
def bulk_args(r, pairs):
    """(number of items, id at k, signature at k)"""
    if pairs:
        q = r.args[1]
        return q.n, (lambda k: q.at(k).f[0]), (lambda k: q.at(k).f[1])
    ids, sigs = r.args[1], r.args[2]
    return If(ids.n <= sigs.n, ids.n, sigs.n), ids.at, sigs.at


def j_bulk_insert(key, pairs, exact):
    def run(cx):
        r = Run(cx, key, ['self', 'items'] if pairs else ['self', 'ids', 'sigs'])
        cx.canon_bags, cx.havoc_multi = exact, not exact
        pre = pre_index(cx, r, exact)
        n, idf, sigf = bulk_args(r, pairs)
        k, k2 = gensym('k', I), gensym('k', I)
        rng = lambda t, hi=None: And(t >= 0, t < (n if hi is None else hi))
        nsig = n if pairs else r.args[2].n
        if exact:
            # no id that is stored, and none twice in the list
            r.st.fact(z3.ForAll([k], Implies(rng(k), Not(pre.has(idf(k))))))
            r.st.fact(z3.ForAll([k, k2], Implies(And(rng(k), rng(k2), k != k2), idf(k) != idf(k2)),
                                patterns=[z3.MultiPattern(idf(k), idf(k2))]))
        cx.panic_ok = z3.Exists([k], And(rng(k, nsig), sigf(k).n != pre.nh))
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            if exact:
                post_exact(cx, s, post, pre, (n, idf, sigf))
                continue
            post_inv(cx, s, post)
            frame(cx, s, pre, post)
            q, x = gensym('q', I), gensym('x', ID)
            pp = P('P01', 'P02', 'P04', 'P05')
            cx.oblige(s, 'signatures of the wrong length are rejected', sigf(q).n == pre.nh, 'post', [rng(q, nsig)], props=P('P04'))
            cx.oblige(s, 'every id of the list is bound', post.has(idf(q)), 'post', [rng(q)], props=pp)
            cx.oblige(s, 'no other id becomes bound', post.has(x) == pre.has(x), 'post',
                      [z3.ForAll([k], Implies(rng(k), idf(k) != x))], props=pp)
            last = [rng(q), z3.ForAll([k], Implies(And(k > q, k < n), idf(k) != idf(q)))]
            for nm, hy, g in cx.equal(s, SEQT, post.sig(idf(q)), sigf(q)):
                cx.oblige(s, 'the last signature given for an id is the one bound' + nm, g, 'post', hy + last, props=pp)
            for nm, hy, g in cx.equal(s, SEQT, post.sig(x), pre.sig(x)):
                cx.oblige(s, 'other bindings are kept' + nm, g, 'post',
                          hy + [pre.has(x), z3.ForAll([k], Implies(rng(k), idf(k) != x))], props=pp)
    return run


def scalars(cx, st, v, sort):
    """Components of an item that have the given sort (None: are sequences), references followed."""
    v = cx.deref(st, v) if isinstance(v, Ptr) else v
    if isinstance(v, Tup):
        return [y for x in v.f for y in scalars(cx, st, x, sort)]
    if isinstance(v, Seq):
        return [v] if sort is None else []
    return [v] if sort is not None and z3.is_expr(v) and v.sort() == sort else []


def z3sub(e, m):
    """Innermost applications in e that have m as an argument."""
    if any(c.eq(m) for c in e.children()):
        return [e]
    return [y for c in e.children() for y in z3sub(c, m)]


def removal_inv(exact):
    """Invariant of a loop that takes listed ids out of one band."""
    def give(cx, st0, item):
        if item is None or 'self' not in st0.roots or not cx.params:
            return None
        kb = cx.params[-1]
        A = View(cx, st0.roots['self'])
        m = gensym('m', I)
        idm, sgm = scalars(cx, st0, item(m), ID), scalars(cx, st0, item(m), None)
        if len(idm) != 1 or len(sgm) != 1:
            return None
        idm, sgm = idm[0], sgm[0]

        def at(s, k):
            C = View(cx, s.roots['self'])
            h, x = gensym('h', I), gensym('x', ID)
            done = And(m >= 0, m < k, idm == x)
            a_in, c_in = And(A.bhas(kb, h), A.bag(kb, h).mem(x)), And(C.bhas(kb, h), C.bag(kb, h).mem(x))
            ci, vs = C.bag(kb, h).mem(x), [h, x]
            out = [('ids not listed so far stay in their bucket', vs, Implies(And(a_in, Not(z3.Exists([m], done))), c_in),
                    [[ci], [A.bag(kb, h).mem(x)]]),
                   ('nothing is added to a bucket', vs, Implies(c_in, a_in), [[ci]]),
                   ('no bucket is added', [h], Implies(C.bhas(kb, h), A.bhas(kb, h)), [[C.bhas(kb, h)]])]
            if exact:
                out += [('listed ids are out of their bucket', vs + [m], Implies(And(c_in, done), h != A.H(kb, sgm)),
                         [[ci, t] for t in z3sub(idm, m)[:1]] or None),
                        ('no repetition is added', vs, Implies(And(c_in, C.bag(kb, h).multi(x)), A.bag(kb, h).multi(x)),
                         [[C.bag(kb, h).multi(x)]]),
                        ('no bucket is left empty', [h], Implies(C.bhas(kb, h), C.nonempty(kb, h)), [[C.bhas(kb, h)]])]
            return out
        return at
    return give


def j_bulk_remove(exact):
    def run(cx):
        r = Run(cx, 'MinHashIndex::bulk_remove', ['self', 'ids'])
        cx.canon_bags, cx.havoc_multi = exact, not exact
        cx.loop_inv = removal_inv(exact)
        pre = pre_index(cx, r, exact)
        ids = r.args[1]
        lib.first_index(r.st, ids)
        k = gensym('k', I)
        inl = lambda x: z3.Exists([k], And(k >= 0, k < ids.n, ids.at(k) == x))
        for s, v in r.body():
            post = View(cx, s.roots['self'])
            if exact:
                post_exact(cx, s, post)
                continue
            post_inv(cx, s, post)
            frame(cx, s, pre, post)
            map_effect(cx, s, post, lambda x: And(pre.has(x), Not(inl(x))), lambda x: pre.sig(x))
            # removing one after another: position j removes something iff its id is bound and not listed before
            j, m = gensym('j', I), gensym('m', I)
            rem = lambda t: And(pre.has(ids.at(t)), z3.ForAll([j], Implies(And(j >= 0, j < t), ids.at(j) != ids.at(t))))
            S, sel = cx.models.spec_fold(cx, s, m, rem(m), ids.n)
            cx.oblige(s, 'as many signatures returned as removals that find something', v.n == S(ids.n), 'post', props=P('P04'))
            for nm, hy, g in cx.equal(s, SEQT, v.at(m), pre.sig(ids.at(sel(m)))):
                cx.oblige(s, 'the signatures are those removed, in order' + nm, g, 'post', hy + [m >= 0, m < v.n], props=P('P04'))
    return run


def j_bulk_is_seq(key, pairs):
    """The bulk form against a loop of the real single insert over the same items."""
    def run(cx):
        r = Run(cx, key, ['self', 'items'] if pairs else ['self', 'ids', 'sigs'])
        cx.havoc_multi = True
        pre = pre_index(cx, r)
        n, idf, sigf = bulk_args(r, pairs)
        k = gensym('k', I)
        nsig = n if pairs else r.args[2].n
        r.st.fact(z3.ForAll([k], Implies(And(k >= 0, k < nsig), sigf(k).n == pre.nh)))
        if not pairs:
            r.st.fact(r.args[1].n == r.args[2].n)
        st2 = r.st.copy()
        outs = r.body()
        ins = find(cx, 'MinHashIndex::insert')
        it = Iter(('seq', n, lambda i: Tup([idf(i), sigf(i)])))
        nob = len(cx.obls)

        def body(s, v):
            return cx.run_fn(ins, [Ptr('self', []), v.f[0], v.f[1]], s, {}, 'one')
        cx.stack.append('sequential')
        try:
            outs2 = cx.models.run_loop(cx, st2, it, body, 'sequential')
        finally:
            cx.stack.pop()
        for s, _ in outs:
            for s2, _ in outs2:
                t = s.copy()
                t.path = t.path + s2.path
                A, C = View(cx, s.roots['self']), View(cx, s2.roots['self'])
                pp = P('P05')
                x, i, h = gensym('x', ID), gensym('i', I), gensym('h', I)
                ii = [i >= 0, i < pre.b]
                cx.oblige(t, 'same ids bound', A.has(x) == C.has(x), 'post', props=pp)
                for nm, hy, g in cx.equal(t, SEQT, A.sig(x), C.sig(x)):
                    cx.oblige(t, 'same signatures bound' + nm, g, 'post', hy + [A.has(x), C.has(x)], props=pp)
                cx.oblige(t, 'same buckets', A.bhas(i, h) == C.bhas(i, h), 'post', ii, props=pp)
                cx.oblige(t, 'same ids in every bucket', A.bag(i, h).mem(x) == C.bag(i, h).mem(x), 'post',
                          ii + [A.bhas(i, h), C.bhas(i, h)], props=pp)
                cx.oblige(t, 'same parameters', And(A.thr == C.thr, A.b == C.b, A.r == C.r, A.nh == C.nh), 'post', props=pp)
                cx.oblige(t, 'same seeds and bounds', And(A.seed(i) == C.seed(i), A.start(i) == C.start(i), A.end(i) == C.end(i)),
                          'post', ii, props=pp)
    return run


# ---------------------------------------------------------------- queries
def spec_mem(pre, q, x):
    return And(pre.is_cand(q, x), pre.has(x), pre.sim(x, q) >= pre.thr)


def set_result(cx, s, pre, q, res, extra=()):
    """Obligations on a set-valued threshold query."""
    x, i = gensym('x', ID), gensym('i', I)
    cx.oblige(s, 'a returned id is stored and meets the threshold',
              Implies(res.mem(x), And(pre.has(x), pre.sim(x, q) >= pre.thr)), 'post', extra, props=P('P01'))
    cx.oblige(s, 'a stored id sharing a band and meeting the threshold is returned',
              Implies(And(pre.has(x), pre.sim(x, q) >= pre.thr, i >= 0, i < pre.b, pre.share(i, pre.sig(x), q)), res.mem(x)),
              'post', extra, props=P('P02'))
    cx.oblige(s, 'the result is the set of similar candidates', res.mem(x) == spec_mem(pre, q, x), 'post', extra,
              props=P('P03'))


# ---- contracts of the query functions, as their callers use them
def inv_requires(V):
    out = []
    for nm, vs, f, pats in V.shape_inv() + V.complete_inv():
        ps = [z3.MultiPattern(*p) if len(p) > 1 else p[0] for p in pats or []]
        out.append((nm, z3.ForAll(vs, f, patterns=ps) if vs else f))
    return out


def seq_arg(cx, st, a):
    q = cx.deref(st, a)
    arr, off = cx.arr_of(st, q)
    return Seq.of_arr(q.n, arr, off)


def c_query(cx, st, args):
    V, q = View(cx, cx.deref(st, args[0])), seq_arg(cx, st, args[1])
    junk = cx.func(st, 'wronglength', [ID], B)
    return Spec(requires=inv_requires(V), may_panic=q.n != V.nh,
                result=SetV(lambda x: If(q.n == V.nh, spec_mem(V, q, x), junk(x))))


def c_query_list(cx, st, args):
    V, q = View(cx, cx.deref(st, args[0])), seq_arg(cx, st, args[1])

    def ens(res):
        j, k, x = gensym('j', I), gensym('k', I), gensym('x', ID)
        w = cx.func(st, 'listed', [ID], I)
        (idj, sj), (idk, sk) = res.at(j).f, res.at(k).f
        ok = q.n == V.nh
        rng = And(ok, j >= 0, j < res.n)
        return [('length', [], res.n >= 0, None),
                ('a listed id is a similar candidate', [j],
                 Implies(rng, And(spec_mem(V, q, idj), sj == V.sim(idj, q), w(idj) == j)), [[idj]]),
                ('every similar candidate is listed', [x],
                 Implies(And(ok, spec_mem(V, q, x)), And(w(x) >= 0, w(x) < res.n, res.at(w(x)).f[0] == x)), [[w(x)], [V.has(x)]]),
                ('scores do not increase', [j, k], Implies(And(rng, k > j, k < res.n), sj >= sk), [[sj, sk]])]
    return Spec(requires=inv_requires(V), may_panic=q.n != V.nh, ensures=ens,
                result_shape=Sh('seq', elt=cx.shape(mir.parse_type('(Id, f64)'))))


C_CALLERS = {n: Contract(n, c_query) for n in ('MinHashIndex::query', 'MinHashIndex::query_owned')}
C_CALLERS['MinHashIndex::query_owned_return_similarity'] = Contract('MinHashIndex::query_owned_return_similarity', c_query_list)
C_CALLERS['compute_minhash_similarity'] = SIM


def j_query(key, names, by_id=False, module=None):
    def run(cx):
        r = Run(cx, key, names, module=module)
        pre = pre_index(cx, r)
        q = r.args[1]
        if by_id:
            for s, v in r.body():
                x = gensym('x', ID)
                set_result(cx, s, pre, pre.sig(q), v, [pre.has(q)])
                cx.oblige(s, 'an id that is not stored matches nothing', Not(v.mem(x)), 'post', [Not(pre.has(q))],
                          props=P('P01', 'P03'))
            return
        cx.panic_ok = q.n != pre.nh
        for s, v in r.body():
            set_result(cx, s, pre, q, v, [q.n == pre.nh])
    return run


def list_result(cx, s, pre, q, res, extra, ps=()):
    """Obligations on a list of (id, similarity)."""
    j, k, x, i = gensym('j', I), gensym('k', I), gensym('x', ID), gensym('i', I)
    idj, sj = res.at(j).f
    idk, sk = res.at(k).f
    rng = list(extra) + [j >= 0, j < res.n]
    hx = cx.models.hints(cx, x, ps)
    cx.oblige(s, 'a listed id is stored and meets the threshold', And(pre.has(idj), pre.sim(idj, q) >= pre.thr), 'post', rng,
              props=P('P01'))
    w = gensym('w', I)
    sh = list(extra) + [pre.has(x), pre.sim(x, q) >= pre.thr, i >= 0, i < pre.b, pre.share(i, pre.sig(x), q)]
    cx.oblige(s, 'a stored id sharing a band is a candidate', pre.cand(i, q, x), 'post', sh, props=P('P02'))
    cx.oblige(s, 'a stored id sharing a band and meeting the threshold is listed',
              z3.Exists([w], And(w >= 0, w < res.n, res.at(w).f[0] == x)), 'post',
              sh[:-1] + [pre.cand(i, q, x)] + hx, props=P('P02'))
    cx.oblige(s, 'a listed id is a candidate', pre.is_cand(q, idj), 'post', rng, props=P('P03'))
    cx.oblige(s, 'every similar candidate is listed', z3.Exists([w], And(w >= 0, w < res.n, res.at(w).f[0] == x)), 'post',
              list(extra) + [spec_mem(pre, q, x)] + hx, props=P('P03'))
    cx.oblige(s, 'no id is listed twice', idj != idk, 'post', rng + [k > j, k < res.n], props=P('P03'))
    cx.oblige(s, 'the score is the exact similarity', sj == pre.sim(idj, q), 'post', rng, props=P('P03'))
    cx.oblige(s, 'scores do not increase', sj >= sk, 'post', rng + [k > j, k < res.n], props=P('P03'))


def j_query_list(cx):
    r = Run(cx, 'MinHashIndex::query_owned_return_similarity', ['self', 'q'])
    pre = pre_index(cx, r)
    q = r.args[1]
    cx.panic_ok = q.n != pre.nh
    for s, v in r.body():
        list_result(cx, s, pre, q, v, [q.n == pre.nh])


def j_query_one(cx):
    r = Run(cx, 'MinHashIndex::query_one', ['self', 'q'])
    pre = pre_index(cx, r)
    q = r.args[1]
    cx.panic_ok = q.n != pre.nh
    for s, v in r.body():
        h = [q.n == pre.nh]
        x = gensym('x', ID)
        idb, sb = v.alts[1][0].f
        got = h + [v.tag == 1]
        cx.oblige(s, 'the best id is stored and meets the threshold', And(pre.has(idb), pre.sim(idb, q) >= pre.thr), 'post', got,
                  props=P('P01'))
        cx.oblige(s, 'the best id is a similar candidate', spec_mem(pre, q, idb), 'post', got, props=P('P03'))
        cx.oblige(s, 'its score is the exact similarity', sb == pre.sim(idb, q), 'post', got, props=P('P03'))
        cx.oblige(s, 'no similar candidate is better', Implies(spec_mem(pre, q, x), And(v.tag == 1, pre.sim(x, q) <= sb)), 'post', h,
                  props=P('P03'))


def j_top_k(cx):
    r = Run(cx, 'MinHashIndex::query_top_k', ['self', 'q', 'k'])
    pre = pre_index(cx, r)
    q, kk = r.args[1], r.args[2]
    cx.panic_ok = q.n != pre.nh
    fsub = z3.Function('fsub', R, R, R)
    dist = lambda x: fsub(z3.RealVal(1), pre.sim(x, q))
    for s, v in r.body():
        h = [q.n == pre.nh]
        j, k, x, w = gensym('j', I), gensym('k', I), gensym('x', ID), gensym('w', I)
        idj, dj = v.at(j).f
        idk, dk = v.at(k).f
        rng = h + [j >= 0, j < v.n]
        c = lambda y: And(pre.is_cand(q, y), pre.has(y))
        PR = P('P03')
        hx = cx.models.hints(cx, x)
        cx.oblige(s, 'at most k results', v.n <= kk, 'post', h, props=PR)
        cx.oblige(s, 'a listed id is a stored candidate', c(idj), 'post', rng, props=PR)
        cx.oblige(s, 'no id is listed twice', idj != idk, 'post', rng + [k > j, k < v.n], props=PR)
        cx.oblige(s, 'the distance is exact', dj == dist(idj), 'post', rng, props=PR)
        cx.oblige(s, 'distances do not decrease', dj <= dk, 'post', rng + [k > j, k < v.n], props=PR)
        inlist = z3.Exists([w], And(w >= 0, w < v.n, v.at(w).f[0] == x))
        cx.oblige(s, 'fewer than k results means every stored candidate is listed', inlist, 'post', h + [c(x), v.n < kk] + hx, props=PR)
        cx.oblige(s, 'an omitted candidate is not nearer than a listed one', Or(inlist, dj <= dist(x)), 'post', rng + [c(x)] + hx,
                  props=PR)


def j_bulk_query(key, lst):
    def run(cx):
        r = Run(cx, key, ['self', 'qs'])
        pre = pre_index(cx, r)
        qs = r.args[1]
        i = gensym('i', I)
        cx.panic_ok = z3.Exists([i], And(i >= 0, i < qs.n, qs.at(i).n != pre.nh))
        for s, v in r.body():
            g = gensym('g', I)
            cx.oblige(s, 'one result per query', v.n == qs.n, 'post', props=P('P01', 'P02', 'P03'))
            h = [g >= 0, g < qs.n, qs.at(g).n == pre.nh]
            if lst:
                list_result(cx, s, pre, qs.at(g), v.at(g), h, [g])
            else:
                set_result(cx, s, pre, qs.at(g), v.at(g), h)
    return run


def j_small(cx):
    r = Run(cx, 'MinHashIndex::size', ['self'])
    pre = pre_index(cx, r)
    for s, v in r.body():
        cx.oblige(s, 'size is the number of bound ids', v == cx.card(s, ID, pre.has), 'post', props=P('P04'))


def j_get_signature(cx):
    r = Run(cx, 'MinHashIndex::get_signature', ['self', 'id'])
    pre = pre_index(cx, r)
    x = r.args[1]
    for s, v in r.body():
        cx.oblige(s, 'finds exactly the bound ids', (v.tag == 1) == pre.has(x), 'post', props=P('P04'))
        for nm, hy, g in cx.equal(s, SEQT, v.alts[1][0], pre.sig(x)):
            cx.oblige(s, 'returns the bound signature' + nm, g, 'post', hy + [v.tag == 1], props=P('P04'))


def j_map(cx):
    r = Run(cx, 'MinHashIndex::get_id_signature_map', ['self'])
    pre = pre_index(cx, r)
    x = gensym('x', ID)
    for s, v in r.body():
        m = cx.deref(s, v)
        cx.oblige(s, 'the map has exactly the bound ids', m.has(x) == pre.has(x), 'post', props=P('P04'))
        for nm, hy, g in cx.equal(s, SEQT, cx.deref(s, m.get(x)), pre.sig(x)):
            cx.oblige(s, 'the map has the bound signatures' + nm, g, 'post', hy + [pre.has(x)], props=P('P04'))


def j_num(cx):
    r = Run(cx, 'MinHashIndex::num_hashes', ['self'])
    pre = pre_index(cx, r)
    for s, v in r.body():
        cx.oblige(s, 'signatures have as many positions as all bands together', And(v == pre.nh, v == pre.b * pre.r), 'post', props=P('P04'))


def j_band_sizes(cx):
    r = Run(cx, 'MinHashIndex::band_sizes', ['self'])
    pre = pre_index(cx, r)
    sh = cx.shape(r.fn.ret)
    i, j = gensym('i', I), gensym('j', I)
    for s, v in r.body():
        f = lambda n: v.f[field_index(sh, n)]
        q = f('sizes')
        ii = [i >= 0, i < pre.b]
        PR = P('P06')
        cx.oblige(s, 'one size per band', q.n == pre.b, 'post', props=PR)
        cx.oblige(s, 'the size of a band is the number of its buckets', q.at(i) == cx.card(s, I, lambda h: pre.bhas(i, h)), 'post', ii, props=PR)
        for nm, le in (('max_size', lambda a, b: a >= b), ('min_size', lambda a, b: a <= b)):
            cx.oblige(s, nm + ' bounds the sizes', le(f(nm), q.at(i)), 'post', ii, props=PR)
            cx.oblige(s, nm + ' is one of them', z3.Exists([j], And(j >= 0, j < q.n, q.at(j) == f(nm))), 'post', props=PR)


def JOB(name, run, props, contracts=None):
    return dict(name=name, run=run, props=props, setup=lambda: setup(contracts), group='minhash_index')


QP = P('P01', 'P02', 'P03')
MP = P('P01', 'P02', 'P03', 'P04')
JOBS = [
    JOB('MinHashIndex::new', j_new('MinHashIndex::new', ['nb', 'r', 'thr']), MP | P('P06')),
    JOB('MinHashIndex::new_index', j_new('MinHashIndex::new_index', ['nb', 'r', 'thr']), MP | P('P06')),
    JOB('MinHashIndex::new_with_capacity', j_new('MinHashIndex::new_with_capacity', ['nb', 'r', 'thr', 'cap', 'ratio']), MP | P('P06')),
    JOB('MinHashIndex::insert', j_insert(False), MP),
    JOB('MinHashIndex::insert (new id)', j_insert(True), P('P06')),
    JOB('MinHashIndex::remove', j_remove(False), MP),
    JOB('MinHashIndex::remove (exact)', j_remove(True), P('P06')),
    JOB('MinHashIndex::clear', j_simple('MinHashIndex::clear', ['self'], 'empty', False), MP),
    JOB('MinHashIndex::clear (exact)', j_simple('MinHashIndex::clear', ['self'], 'empty', True), P('P06')),
    JOB('MinHashIndex::shrink_to_fit', j_simple('MinHashIndex::shrink_to_fit', ['self'], 'same', False), MP),
    JOB('MinHashIndex::shrink_to_fit (exact)', j_simple('MinHashIndex::shrink_to_fit', ['self'], 'same', True), P('P06')),
    JOB('MinHashIndex::shrink_to', j_simple('MinHashIndex::shrink_to', ['self', 'cap'], 'same', False), MP),
    JOB('MinHashIndex::shrink_to (exact)', j_simple('MinHashIndex::shrink_to', ['self', 'cap'], 'same', True), P('P06')),
    JOB('MinHashIndex::query', j_query('MinHashIndex::query', ['self', 'q']), QP),
    JOB('MinHashIndex::query_owned', j_query('MinHashIndex::query_owned', ['self', 'q']), QP),
    JOB('MinHashIndex::query_by_id', j_query('MinHashIndex::query_by_id', ['self', 'q'], True), QP, C_CALLERS),
    JOB('MinHashIndex::query_by_id_owned', j_query('MinHashIndex::query_by_id_owned', ['self', 'q'], True), QP, C_CALLERS),
    JOB('QueryIndex::query', j_query('<MinHashIndex as QueryIndex>::query', ['self', 'q'], True), QP, C_CALLERS),
    JOB('MinHashIndex::query_owned_return_similarity', j_query_list, QP, C_CALLERS),
    JOB('MinHashIndex::query_one', j_query_one, P('P01', 'P03'), C_CALLERS),
    JOB('MinHashIndex::query_top_k', j_top_k, P('P03'), C_CALLERS),
    JOB('MinHashIndex::par_bulk_query', j_bulk_query('MinHashIndex::par_bulk_query', False), QP, C_CALLERS),
    JOB('MinHashIndex::par_bulk_query_return_similarity', j_bulk_query('MinHashIndex::par_bulk_query_return_similarity', True), QP, C_CALLERS),
    JOB('MinHashIndex::par_bulk_insert', j_bulk_insert('MinHashIndex::par_bulk_insert', False, False), MP | P('P05')),
    JOB('MinHashIndex::par_bulk_insert (new ids)', j_bulk_insert('MinHashIndex::par_bulk_insert', False, True), P('P06')),
    JOB('MinHashIndex::par_bulk_insert_pairs', j_bulk_insert('MinHashIndex::par_bulk_insert_pairs', True, False), MP | P('P05')),
    JOB('MinHashIndex::par_bulk_insert_pairs (new ids)', j_bulk_insert('MinHashIndex::par_bulk_insert_pairs', True, True), P('P06')),
    JOB('par_bulk_insert equals repeated insert', j_bulk_is_seq('MinHashIndex::par_bulk_insert', False), P('P05')),
    JOB('par_bulk_insert_pairs equals repeated insert', j_bulk_is_seq('MinHashIndex::par_bulk_insert_pairs', True), P('P05')),
    JOB('MinHashIndex::bulk_remove', j_bulk_remove(False), MP),
    JOB('MinHashIndex::bulk_remove (exact)', j_bulk_remove(True), P('P06')),
    JOB('MinHashIndex::size', j_small, P('P04')),
    JOB('MinHashIndex::get_signature', j_get_signature, P('P04')),
    JOB('MinHashIndex::get_id_signature_map', j_map, P('P04')),
    JOB('MinHashIndex::num_hashes', j_num, P('P04')),
    JOB('MinHashIndex::band_sizes', j_band_sizes, P('P06')),
]
