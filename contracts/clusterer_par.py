"""Parallel clustering (P18), by rely and guarantee. A point is a shared handle; its atomic mark is 0 or the id of the cluster
it points to (ids are issued once by an atomic counter, so among clusters ids and addresses correspond).

Guarantee of every thread, an obligation at each of its atomic writes: it turns a free mark into one of its own ids, or one
of its own ids into free. Rely: the others do so too, hence marks with ids of this thread change by this thread only. The state
kept is therefore `mine`: the points that bear an id of this thread. An atomic read sees that id, or anything that is not an
id of this thread; nothing else is assumed of the other threads, so the contracts hold for every schedule."""
from common import *
import models
from clusterer import PT, SPT, Q, c_query, inp, clusters_root, Marks, hint, hist_root

PP = P('P18')
ID32 = Sh('scalar', sort=I, rng=(0, 2**32 - 1))
MINE = Sh('map', key=SPT, ksort=PT, val=ID32)
OWNED = z3.Function('owned', I, B)          # an id issued to this thread
NAMES = ('Atomic', 'AtomicPtr', 'AtomicU8', 'AtomicU16', 'AtomicU32', 'AtomicU64', 'AtomicUsize')


def pid(cx, st, v):
    """The id of the cluster a pointer points to (0: the null pointer)."""
    if isinstance(v, Ptr):
        v = cx.deref(st, v)
    if isinstance(v, Tup):
        return v.f[field_index(cluster_shape(cx), 'cluster_id')]
    if is_scalar(v) and v.sort() == I:
        return v
    raise Unsupported('pointer %s' % type(v).__name__)


def seen(cx, st, h):
    """The mark of h at an arbitrary moment: this thread's own if it has one, anything foreign otherwise."""
    m = st.roots['mine']
    f = cx.func(st, 'seen', [PT], I)
    x = gensym('x', PT)
    cx.axiom(st, And(f(x) >= 0, Not(OWNED(f(x)))), [x], [[f(x)]], [f.decl.name()], guard=False)
    return simp(If(m.has(h), m.get(h), f(h)))


def change(cx, st, h, cond, new):
    m = st.roots['mine']
    own = simp(new != 0)
    cx.write(st, 'mine', [], MapV(lambda x: If(And(x == h, cond), own, m.has(x)), lambda x: If(And(x == h, cond, own), new, m.get(x)), m.kty))


def guarantee(cx, st, old, new, cond):
    cx.oblige(st, 'a thread claims free points and frees its own, no others', Or(And(old == 0, OWNED(new)), And(OWNED(old), new == 0), old == new),
              'post', [cond])


def addr_eq(cx):
    def f(st, a, b):
        for x, y in ((a, b), (b, a)):
            if is_scalar(x) and x.sort() == I and isinstance(y, Tup) and y.name == 'Cluster':
                return x == pid(cx, st, y)
    return f


def atomics(cx, fr, st, c, own, m, args, atys):
    if m in ('null_mut', 'null') and not args:
        return models.one(st, iv(0))
    if m == 'is_null' and len(args) == 1 and is_scalar(args[0]):
        return models.one(st, args[0] == 0)
    if own in NAMES + ('Default',) and m == 'default' and 'mine' in st.roots and not args:
        return models.one(st, iv(0))
    if own == 'Box' and m == 'new' and 'made' in st.roots and isinstance(args[0], Tup) and args[0].name == 'Cluster':
        cx.write(st, 'made', [], simp(st.roots['made'] + 1))
        return models.one(st, args[0])
    if own not in NAMES or 'mine' not in st.roots or not args:
        return None
    if m == 'new':
        return models.one(st, args[0])
    h = cx.deref(st, args[0])
    if is_scalar(h) and h.sort() == PT:
        if m == 'load':
            return models.one(st, seen(cx, st, h))
        if m in ('compare_exchange', 'compare_and_swap'):
            v, old, new = seen(cx, st, h), pid(cx, st, args[1]), pid(cx, st, args[2])
            ok = simp(v == old)
            guarantee(cx, st, old, new, ok)
            change(cx, st, h, ok, new)
            return models.one(st, Enum(If(ok, iv(0), iv(1)), {0: [v], 1: [v]}, 'Result') if m == 'compare_exchange' else v)
        if m in ('store', 'swap'):
            v, new = seen(cx, st, h), pid(cx, st, args[1])
            guarantee(cx, st, v, new, TRUE)
            change(cx, st, h, TRUE, new)
            return models.one(st, v if m == 'swap' else UNIT)
        return None
    if m == 'load' and is_scalar(h) and h.sort() == I:
        f = cx.func(st, 'counter', [], I)
        cx.axiom(st, And(f() >= st.roots['seq'], f() < 2**32), defs=[f.decl.name()], guard=False)
        return models.one(st, f())
    if m == 'fetch_add' and is_scalar(h) and h.sort() == I:
        if '<u8>' in str(c) or '<u16>' in str(c):
            return models.one(st, cx.fresh(st, 'narrow', I, (0, 255 if '<u8>' in str(c) else 65535)))     # comes round to ids in use
        f = cx.func(st, 'issued', [], I)
        old, n = f(), args[1]
        d = [f.decl.name()]
        cx.axiom(st, And(old >= st.roots['seq'], old + n < 2**32), defs=d, guard=False)
        x = gensym('c', I)
        cx.axiom(st, Implies(And(x > old, x <= old + n), OWNED(x)), [x], [[OWNED(x)]], d, guard=False)
        cx.assumed.add('fewer than 2^32 cluster ids are issued')
        cx.write(st, 'seq', [], simp(old + n))
        return models.one(st, old)
    return None


def by_address(cx, fr, st, c, own, m, args, atys):
    """Sorting by address puts the points in some order."""
    if m not in ('sort_by_key', 'sort_unstable_by_key', 'sort_by', 'sort_unstable_by', 'sort_by_cached_key') or '*const' not in str(c):
        return None
    p, s = models.target(cx, st, args[0])
    cx.write(st, p.root, p.path, permuted(cx, st, s))
    return models.one(st, UNIT)


def permuted(cx, st, s):
    pf, qf = cx.func(st, 'perm', [I], I), cx.func(st, 'perminv', [I], I)
    d = [pf.decl.name(), qf.decl.name()]
    models.note(cx, 'perm', qf.decl)
    i = gensym('i', I)
    cx.axiom(st, Implies(And(i >= 0, i < s.n), And(pf(i) >= 0, pf(i) < s.n, qf(pf(i)) == i)), [i], [[pf(i)]], d, guard=False)
    cx.axiom(st, Implies(And(i >= 0, i < s.n), And(qf(i) >= 0, qf(i) < s.n, pf(qf(i)) == i)), [i], [[qf(i)]], d, guard=False)
    return Seq(s.n, lambda k: s.at(pf(k)))


def cluster_shape(cx):
    return cx.shape(find(cx, 'Cluster::new', 2).ret)


def setup():
    cx = new_ctx({'Id': SPT, 'ClusterPointInner': SPT, 'ClusterPoint': SPT, 'Atomic': ID32, **{k: ID32 for k in NAMES[2:]}}, {'QueryIndex::query': Contract('QueryIndex::query', c_query)},
                 without='clustering_serial')
    cx.extra_models += [atomics, by_address]
    cx.addr_eq = addr_eq(cx)
    cx.scalar_fields = {'PT': lambda v, i: v}
    x = z3.Int('c')
    cx.axioms.append((z3.ForAll([x], Implies(OWNED(x), x >= 1), patterns=[OWNED(x)]), frozenset(['owned'])))
    cx.cshape = cluster_shape
    return cx


def state(cx, r):
    st = r.st
    st.types['mine'], st.types['seq'] = MINE, ID32
    m = st.roots['mine'] = cx.fresh_value(st, MINE, 'mine')
    st.roots['seq'] = cx.fresh_value(st, ID32, 'seq')
    x = gensym('x', PT)
    st.fact(ForAll([x], Implies(m.has(x), And(OWNED(m.get(x)), m.get(x) <= st.roots['seq'])), [m.has(x)]))
    return m


def known(m, seq):
    """What holds of the points of this thread."""
    x = gensym('x', PT)
    return ('marks of this thread bear its ids', [x], Implies(m.has(x), And(OWNED(m.get(x)), m.get(x) <= seq)), [[m.has(x)]])


# ---- claiming the points of a cluster
def c_try(cx, st, args):
    pp = args[1]
    pts = cx.deref(st, pp)
    m, seq = st.roots['mine'], st.roots['seq']
    sh = cluster_shape(cx)
    ok = cx.func(st, 'made', [], B)()
    sq = cx.func(st, 'seq', [], I)()
    id_ = cx.func(st, 'id', [], I)()
    ps = permuted(cx, st, pts)
    f = [None] * len(sh.fields)
    for n, k in enumerate(sh.names):
        f[n] = ps if k == 'points' else id_ if k == 'cluster_id' else cx.fresh_value(st, sh.fields[n], 'rest')
    d = [decl_name(sq), decl_name(id_)]
    cx.axiom(st, And(id_ > seq, id_ <= sq, sq < 2**32, OWNED(id_)), defs=d, guard=False)
    x, j, j2 = gensym('x', PT), gensym('j', I), gensym('j', I)
    lst = lambda j: And(j >= 0, j < pts.n)
    cx.axiom(st, Implies(And(ok, lst(j), lst(j2), j != j2), ps.at(j) != ps.at(j2)), [j, j2], [[ps.at(j), ps.at(j2)]], [decl_name(ok)])
    cx.axiom(st, Implies(And(ok, lst(j)), Not(m.has(ps.at(j)))), [j], [[ps.at(j)]], [decl_name(ok)])
    new = MapV(lambda x: Or(m.has(x), And(ok, inp(ps, x))), lambda x: If(And(ok, inp(ps, x)), id_, m.get(x)), m.kty)
    return Spec(writes=[(Ptr('mine', []), new), (Ptr('seq', []), sq), (pp, ps)], result=opt(ok, Tup(f)))


def decl_name(e):
    return e.decl().name()


def j_try(cx):
    r = Run(cx, 'Clusterer::try_create_cluster', ['self', 'points'])
    m0 = state(cx, r)
    pts0, seq0 = r.st.roots['points'], r.st.roots['seq']
    sh = cluster_shape(cx)
    fi, fp = field_index(sh, 'cluster_id'), field_index(sh, 'points')

    def give(cx, st0, item):
        cl = [k for k, v in st0.roots.items() if isinstance(v, Tup) and v.name == 'Cluster']
        if len(cl) != 1:
            return None
        pts = st0.roots['points']
        z = gensym('z', I)
        it = cx.deref(st0, item(z)) if item else None
        if it is not None and is_scalar(it) and it.sort() == PT and not it.eq(simp(cx.deref(st0, pts.at(z)))) or cx.claiming:
            return give_back(cx, st0, it, z, st0.roots[cl[0]])
        cx.claiming = True

        def at(s, kk):
            c, m = s.roots[cl[0]], s.roots['mine']
            id_, cp = st0.roots[cl[0]].f[fi], c.f[fp]
            x, j, j2 = gensym('x', PT), gensym('j', I), gensym('j', I)
            jj = And(j >= 0, j < kk)
            return [('every point so far is claimed', [], And(cp.n == kk, c.f[fi] == id_), None),
                    ('claimed in order', [j], Implies(jj, cp.at(j) == pts.at(j)), [[cp.at(j)], [pts.at(j)]]),
                    ('points claimed bear the cluster', [j], Implies(jj, And(m.has(pts.at(j)), m.get(pts.at(j)) == id_, Not(m0.has(pts.at(j))))), [[pts.at(j)]]),
                    ('only points claimed bear the cluster', [x], Implies(And(m.has(x), m.get(x) == id_), inp(Seq(kk, pts.at), x)), [[m.has(x)]]),
                    ('other marks are as before', [x], Implies(Or(m0.has(x), And(m.has(x), m.get(x) != id_)),
                                                               And(m.has(x), m0.has(x), m.get(x) == m0.get(x))), [[m.has(x)], [m0.has(x)]]),
                    ('no point is claimed twice', [j, j2], Implies(And(jj, j2 > j, j2 < kk), pts.at(j) != pts.at(j2)), [[pts.at(j), pts.at(j2)]])]
        return at

    def give_back(cx, st0, it, z, c):
        """Marks of the points passed are taken back."""
        m1, id_, cp = st0.roots['mine'], c.f[fi], c.f[fp]
        e = (lambda j: z3.substitute(it, (z, j))) if it is not None and is_scalar(it) and it.sort() == PT else cp.at

        def at(s, kk):
            m, x, j = s.roots['mine'], gensym('x', PT), gensym('j', I)
            gone = inp(Seq(kk, e), x)
            return [('marks of the points passed are taken back', [x], m.has(x) == And(m1.has(x), Not(And(m1.get(x) == id_, gone))), [[m.has(x)]]),
                    ('the other marks stay', [x], Implies(m.has(x), m.get(x) == m1.get(x)), [[m.has(x)]])]
        return at
    cx.loop_inv, cx.claiming = give, False
    r.st.types['made'], r.st.roots['made'] = ID32, iv(0)
    for s, v in r.body():
        if not s.roots['made'].eq(iv(1)):
            raise Unsupported('not one cluster: its id does not tell its address')
        m = s.roots['mine']
        x, j, j2, i = gensym('x', PT), gensym('j', I), gensym('j', I), gensym('i', I)
        post = lambda nm, g, *hy: cx.oblige(s, nm, g, 'post', list(hy))
        post('the id counter does not go back', s.roots['seq'] >= seq0)
        no, yes = v.tag == 0, v.tag == 1
        if not cx.prove(s.conds(), v.tag == 1, 1000):
            post('a cluster that is given up leaves no mark', And(m.has(x) == m0.has(x), Implies(m.has(x), m.get(x) == m0.get(x))), no)
        if 1 not in v.alts or cx.prove(s.conds(), v.tag == 0, 1000):
            continue
        c = v.alts[1][0]
        c = cx.deref(s, c)
        id_, ps = c.f[fi], c.f[fp]
        post('the id is new and of this thread', And(id_ > seq0, id_ <= s.roots['seq'], OWNED(id_)), yes)
        post('the cluster has as many points as asked for', ps.n == pts0.n, yes)
        lst = lambda j: And(j >= 0, j < pts0.n)
        post('every member was asked for', inp(pts0, ps.at(j)), yes, lst(j))
        post('every point asked for is a member', inp(ps, pts0.at(j)), yes, lst(j))
        post('no point is listed twice', ps.at(j) != ps.at(j2), yes, lst(j), lst(j2), j != j2)
        post('members were not of this thread before', Not(m0.has(ps.at(j))), yes, lst(j))
        post('members bear the cluster', And(m.has(ps.at(j)), m.get(ps.at(j)) == id_), yes, lst(j))
        post('marks of other points are kept', And(m.has(x) == m0.has(x), Implies(m.has(x), m.get(x) == m0.get(x))), yes, Not(inp(ps, x)))


# ---- one thread's share
def c_sort(cx, st, args):
    for p in args:
        s = cx.deref(st, p) if isinstance(p, Ptr) else None
        if isinstance(s, Seq):
            return Spec(writes=[(p, permuted(cx, st, s))])
    raise Unsupported('sorting what')


def j_sort(cx):
    key = 'Clusterer::sort_by_most_number_of_similar_points'
    r = Run(cx, key, ['self', 'points', 'index'][-len(find(cx, key).args):])
    state(cx, r)
    pts = r.st.roots['points']
    for s, v in r.body():
        p1, j = s.roots['points'], gensym('j', I)
        cx.oblige(s, 'as many points as before', p1.n == pts.n, 'post')
        cx.oblige(s, 'the same points in some order', And(inp(pts, p1.at(j)), inp(p1, pts.at(j))), 'post', [j >= 0, j < pts.n])


def j_slice_of(name):
    return lambda cx: j_slice(cx, name)


def j_slice(cx, name='Clusterer::cluster_slice'):
    cx.contracts['Clusterer::try_create_cluster'] = Contract('Clusterer::try_create_cluster', c_try)
    cx.contracts['Clusterer::sort_by_most_number_of_similar_points'] = Contract('Clusterer::sort_by_most_number_of_similar_points', c_sort)
    r = Run(cx, name, ['self', 'points', 'index'])
    m0 = state(cx, r)
    pts0, seq0 = r.st.roots['points'], r.st.roots['seq']
    me = cx.deref(r.st, r.args[0])
    mn = me.f[field_index(cx.shape(r.fn.args[0][1].args[0]), 'min_cluster_size')]
    cx.use_hist = True

    def facts(A, m, seq, pts, kk):
        x, i, i2, j, j2 = gensym('x', PT), gensym('i', I), gensym('i', I), gensym('j', I), gensym('j', I)
        ci, cj = And(i >= 0, i < A.n), And(j >= 0, j < A.pts(i).n)
        mem = A.pts(i).at(j)
        return [('the id counter does not go back', [], seq >= seq0, None), known(m, seq),
                ('marks from before are kept', [x], Implies(m0.has(x), And(m.has(x), m.get(x) == m0.get(x))), [[m0.has(x)]]),
                ('ids are new and of this thread', [i], Implies(ci, And(A.id(i) > seq0, A.id(i) <= seq, OWNED(A.id(i)))), [[A.id(i)]]),
                ('ids differ', [i, i2], Implies(And(ci, i2 > i, i2 < A.n), A.id(i) < A.id(i2)), [[A.id(i), A.id(i2)]]),
                ('members bear their cluster', [i, j], Implies(And(ci, cj), And(m.has(mem), m.get(mem) == A.id(i), Not(m0.has(mem)))), [[mem]]),
                ('new marks are of listed clusters', [x], Implies(And(m.has(x), Not(m0.has(x))), z3.Exists([i], And(ci, A.id(i) == m.get(x)))), [[m.has(x)]]),
                ('points with a mark are listed', [x, i], Implies(And(ci, m.has(x), m.get(x) == A.id(i)), inp(A.pts(i), x)), [[m.has(x), A.id(i)]]),
                ('no point is listed twice', [i, j, j2], Implies(And(ci, cj, j2 > j, j2 < A.pts(i).n), mem != A.pts(i).at(j2)), [[mem, A.pts(i).at(j2)]]),
                ('clusters reach the minimum size', [i], Implies(ci, A.pts(i).n >= mn), [[A.pts(i).n]])]

    def give(cx, st0, item):
        root = clusters_root(cx, st0)
        if root is None or cx.params:
            return None
        hist = cx.loop_hist
        pts = st0.roots['points']

        def at(s, kk):
            A = Marks(cx, s, root, cluster_shape(cx), 'mine')
            t, i, j = gensym('t', I), gensym('i', I), gensym('j', I)
            past = And(t >= 0, t < kk)
            B, C = [Marks(cx, hist(u), root, cluster_shape(cx), 'mine') for u in (t, t + 1)]
            return [('at most one cluster for each point', [], And(A.n >= 0, A.n <= kk), None)] + facts(A, s.roots['mine'], s.roots['seq'], pts, kk) + [
                ('clusters are made one at a time', [t], Implies(past, And(B.n <= C.n, C.n <= B.n + 1, C.n <= A.n)), [[B.n]]),
                ('every cluster has a founding visit', [i], Implies(And(i >= 0, i < A.n), z3.Exists([t], And(past, B.n == i, C.n == i + 1))), [[A.id(i)]]),
                ('members are similar to the founding point', [t, j], Implies(And(past, C.n == B.n + 1, j >= 0, j < A.pts(B.n).n),
                                                                             Q(pts.at(t), A.pts(B.n).at(j))), [[B.n, A.pts(B.n).at(j)]])]
        return at
    cx.loop_inv, cx.loop_hist = give, None
    for s, v in r.body():
        if not isinstance(v, Seq) or cx.loop_hist is None:
            raise Unsupported('no summary of the visits')
        s = s.copy()
        s.roots['result'] = v
        A = Marks(cx, s, 'result', cluster_shape(cx), 'mine')
        for nm, vs, f, pats in facts(A, s.roots['mine'], s.roots['seq'], pts0, None):
            cx.oblige(s, nm, f, 'post')
        x, i, j, t = gensym('x', PT), gensym('i', I), gensym('j', I), gensym('t', I)
        h = hist_root(cx, cx.loop_hist(t))
        B, C = [Marks(cx, cx.loop_hist(u), h, cluster_shape(cx), 'mine') for u in (t, t + 1)]
        p = s.roots['points'].at(t)
        cx.oblige(s, 'a visit of a point of the list started each cluster', z3.Exists([t], And(t >= 0, t < pts0.n, B.n == i, C.n == i + 1)), 'post',
                  [i >= 0, i < A.n, hint(A.id(i))])
        cx.oblige(s, 'the members are similar to the point that started the cluster', Q(p, A.pts(i).at(j)), 'post',
                  [i >= 0, i < A.n, t >= 0, t < pts0.n, B.n == i, C.n == i + 1, j >= 0, j < A.pts(i).n])
        cx.oblige(s, 'the points visited are those of the list', And(s.roots['points'].n == pts0.n, inp(pts0, p)), 'post', [t >= 0, t < pts0.n])


# ---- all threads together
# What a thread's contract says holds of the marks at the end too, since no other thread changes marks with its ids
# (lemma below). OWNER: the thread an id was issued to, -1 for ids from before. FIRST, FINAL: the marks before and after.
OWNER = z3.Function('owner', I, I)
FIRST, FINAL = z3.Function('first_mark', PT, I), z3.Function('final_mark', PT, I)


def c_slice(cx, st, args):
    if len(cx.params) != 1 or cx.params[0].sort() != I:
        raise Unsupported('calls that are not numbered')
    g = cx.params[0]
    pts = cx.deref(st, args[1])
    me = cx.deref(st, args[0])
    mn = me.f[field_index(me_shape(cx), 'min_cluster_size')]
    sh = cluster_shape(cx)
    v = cx.fresh_value(st, Sh('seq', elt=sh), 'found')
    s = st.copy()
    s.roots['found'] = v
    s.roots['mine'] = MapV(lambda x: FALSE, lambda x: iv(0), SPT)
    A = Marks(cx, s, 'found', sh, 'mine')
    i, i2, j, j2, x = gensym('i', I), gensym('i', I), gensym('j', I), gensym('j', I), gensym('x', PT)
    ci, cj = And(i >= 0, i < A.n), And(j >= 0, j < A.pts(i).n)
    mem = A.pts(i).at(j)
    by = cx.func(st, 'founder', [I], I)
    for vs, f, pats in [
            ([], A.n >= 0, None),
            ([i], Implies(ci, And(A.id(i) > 0, OWNER(A.id(i)) == g, A.pts(i).n >= mn, by(i) >= 0, by(i) < pts.n)), [[A.id(i)]]),
            ([i, i2], Implies(And(ci, i2 > i, i2 < A.n), A.id(i) != A.id(i2)), [[A.id(i), A.id(i2)]]),
            ([i, j], Implies(And(ci, cj), And(FINAL(mem) == A.id(i), FIRST(mem) != A.id(i), Q(pts.at(by(i)), mem))), [[mem]]),
            ([i, j, j2], Implies(And(ci, cj, j2 > j, j2 < A.pts(i).n), mem != A.pts(i).at(j2)), [[mem, A.pts(i).at(j2)]]),
            ([x], Implies(OWNER(FINAL(x)) == g, z3.Exists([i, j], And(ci, cj, mem == x, A.id(i) == FINAL(x)))), [[FINAL(x), A.n]])]:
        cx.axiom(st, f, vs, pats, [])
    cx.share_size = lambda k: z3.substitute(A.n, (g, k))
    return Spec(result=v)


def me_shape(cx):
    return cx.shape(find(cx, 'Clusterer::new', 2).ret)


def chunked(cx, fr, st, c, own, m, args, atys):
    if m not in ('par_chunks_mut', 'par_chunks', 'chunks_mut'):
        return None
    p, s = models.target(cx, st, args[0])
    it = models.s_chunks(cx, fr, st, c, [s, args[1]], atys)
    cx.chunked = s, it
    st.types['chunks'], st.roots['chunks'] = Sh('seq', elt=Sh('seq', elt=SPT)), Seq(it.src[1], it.src[2])
    it = Iter(('ptrs', it.src[1], 'chunks', []))
    if m != 'par_chunks':
        cx.write(st, p.root, p.path, permuted(cx, st, s))
    return models.one(st, it)


def j_par(cx):
    cx.extra_models.insert(0, chunked)
    cx.contracts['Clusterer::cluster_slice'] = Contract('Clusterer::cluster_slice', c_slice)
    r = Run(cx, 'Clusterer::cluster_par', ['self', 'points', 'index'])
    pts0 = r.st.roots['points']
    me = cx.deref(r.st, r.args[0])
    sh = me_shape(cx)
    mn, nt = me.f[field_index(sh, 'min_cluster_size')], me.f[field_index(sh, 'n_threads')]
    r.st.fact(nt >= 1)
    cx.chunked = cx.share_size = None
    for s, v in r.body():
        if not isinstance(v, Seq) or cx.chunked is None or cx.share_size is None:
            raise Unsupported('no summary of the threads')
        n = cx.chunked[1].src[1]
        s = s.copy()
        x, y, i, i2, j, j2, c = gensym('x', PT), gensym('y', PT), gensym('i', I), gensym('i', I), gensym('j', I), gensym('j', I), gensym('c', I)
        # by the guarantee: marks from before stay, new ones are ids issued to one of the threads
        cx.axiom(s, And(FINAL(x) >= 0, Implies(FIRST(x) != 0, FINAL(x) == FIRST(x)),
                        Or(FINAL(x) == FIRST(x), And(OWNER(FINAL(x)) >= 0, OWNER(FINAL(x)) < n))), [x], [[FINAL(x)]], [], guard=False)
        s.roots['result'] = v
        s.roots['mine'] = MapV(lambda x: FALSE, lambda x: iv(0), SPT)
        A = Marks(cx, s, 'result', cluster_shape(cx), 'mine')
        ci, cj = And(i >= 0, i < A.n), And(j >= 0, j < A.pts(i).n)
        mem = A.pts(i).at(j)
        post = lambda nm, f, *hy: cx.oblige(s, nm, f, 'post', list(hy))
        post('ids differ over all threads', A.id(i) != A.id(i2), ci, i2 > i, i2 < A.n)
        post('no point is in two clusters', A.pts(i2).at(j2) != mem, ci, cj, i2 > i, i2 < A.n, j2 >= 0, j2 < A.pts(i2).n)
        post('no point is listed twice', A.pts(i).at(j2) != mem, ci, cj, j2 > j, j2 < A.pts(i).n)
        post('members bear their cluster', FINAL(mem) == A.id(i), ci, cj)
        post('members were free before', FIRST(mem) == 0, ci, cj)
        post('points with a new mark are listed by the cluster it names', z3.Exists([i, j], And(ci, cj, mem == x, A.id(i) == FINAL(x))), FINAL(x) != FIRST(x), FINAL(x) != 0, hint(cx.share_size(OWNER(FINAL(x)))))
        post('marks from before are kept', FINAL(x) == FIRST(x), FIRST(x) != 0)
        post('clusters reach the minimum size', A.pts(i).n >= mn, ci)
        post('members are similar to one point of the list', z3.Exists([x], And(inp(pts0, x), Q(x, mem))), ci, cj)


def j_new(cx):
    r = Run(cx, 'Clusterer::new', ['min', 'threads'])
    state(cx, r)
    sh = me_shape(cx)
    for s, v in r.body():
        cx.oblige(s, 'ids start from 0', v.f[field_index(sh, 'cluster_id_sequence')] == 0, 'post')
        cx.oblige(s, 'the minimum size is kept', v.f[field_index(sh, 'min_cluster_size')] == r.args[0], 'post')
        cx.oblige(s, 'the number of threads is kept', v.f[field_index(sh, 'n_threads')] == r.args[1], 'post')


def setup_point():
    cx = new_ctx({'Id': SPT, 'Atomic': ID32, 'AtomicPtr': ID32}, {}, without='clustering_serial')
    cx.extra_models += [atomics]
    return cx


def j_point(cx):
    r = Run(cx, 'ClusterPointInner::new', ['id'], 1)
    state(cx, r)
    sh = cx.shape(r.fn.ret)
    for s, v in r.body():
        cx.oblige(s, 'a new point has no cluster', pid(cx, s, v.f[field_index(sh, 'cluster')]) == 0, 'post')
        cx.oblige(s, 'the id is kept', v.f[field_index(sh, 'id')] == r.args[0], 'post')


def j_get(cx):
    r = Run(cx, 'ClusterPointInner::get_cluster', ['self'])
    m = state(cx, r)
    h = cx.deref(r.st, r.args[0])
    for s, v in r.body():
        cx.oblige(s, 'a mark of this thread is what is read', v == m.get(h), 'post', [m.has(h)])
        cx.oblige(s, 'no mark of this thread is read otherwise', Not(OWNED(v)), 'post', [Not(m.has(h))])
        cx.oblige(s, 'reading changes nothing', s.roots['mine'].has(h) == m.has(h), 'post')


def j_compose(cx):
    """One atomic step of thread t, on point x, in the middle of a run of n threads."""
    st = St()
    M, M2 = z3.Function('mark', PT, I), z3.Function('mark_after', PT, I)
    x, y = z3.Consts('x y', PT)
    n, t, u, c = z3.Ints('n t u c')
    all_ = lambda f: z3.ForAll([y], f)
    step = And(t >= 0, t < n, all_(Implies(y != x, M2(y) == M(y))),
               Or(And(M(x) == 0, OWNER(M2(x)) == t), And(OWNER(M(x)) == t, M2(x) == 0), M2(x) == M(x)))
    ids = And(OWNER(iv(0)) == -1, all_(OWNER(FIRST(y)) == -1))
    inv = lambda m: all_(And(Implies(FIRST(y) != 0, m(y) == FIRST(y)), Or(m(y) == FIRST(y), m(y) == 0, And(OWNER(m(y)) >= 0, OWNER(m(y)) < n))))
    ob = lambda nm, g, *hy: cx.oblige(st, nm, g, 'lemma', list(hy))
    ob('at the start every mark is from before', inv(FIRST))
    ob('marks are from before or of a thread (step)', inv(M2), inv(M), step, ids)
    ob('marks of another thread stay', M2(y) == M(y), step, ids, OWNER(M(y)) == u, u != t, u >= 0)
    ob('no marks of another thread appear', OWNER(M2(y)) != u, step, ids, OWNER(M(y)) != u, u != t, u >= 0)


JOBS = [JOB('parallel Clusterer::cluster', j_slice_of('Clusterer::cluster'), PP, setup),
        JOB('parallel Clusterer::cluster_par', j_par, PP, setup),
        JOB('parallel Clusterer::new', j_new, PP, setup),
        JOB('parallel ClusterPointInner::new', j_point, PP, setup_point),
        JOB('parallel ClusterPointInner::get_cluster', j_get, PP, setup),
        JOB('lemmas: claims of threads', j_compose, PP, setup),
        JOB('parallel Clusterer::try_create_cluster', j_try, PP, setup),
        JOB('parallel Clusterer::sort_by_most_number_of_similar_points', j_sort, PP, setup),
        JOB('parallel Clusterer::cluster_slice', j_slice, PP, setup)]
