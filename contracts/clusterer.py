"""Serial clustering (P17). A point is a shared handle; the cluster marks of all points are one map from handles to ids."""
from common import *
import models

PT = usort('PT')
SPT = sh_u('PT')
USZ = None
CELLS = Sh('map', key=SPT, ksort=PT, val=Sh('scalar', sort=I, rng=(0, 2**64 - 1)))
Q = z3.Function('similar', PT, PT, B)      # x is in the answer of the query index for p
MOD = 'clustering_serial'
PP = P('P17')


def cells(cx, fr, st, c, own, m, args, atys):
    """Cell of a point: the mark of that point in the map of all marks."""
    if own != 'Cell' or m not in ('get', 'set', 'take', 'replace') or 'cells' not in st.roots:
        return None
    h, mp = cx.deref(st, args[0]), st.roots['cells']
    if not (is_scalar(h) and h.sort() == PT):
        return None
    old = opt(mp.has(h), mp.get(h))
    if m == 'get':
        return models.one(st, old)
    if m == 'take':
        some_, val = FALSE, iv(0)
    else:
        v = args[1]
        some_, val = simp(v.tag == 1), v.alts.get(1, [iv(0)])[0]
    cx.write(st, 'cells', [], MapV(lambda x: If(x == h, some_, mp.has(x)), lambda x: If(x == h, val, mp.get(x)), mp.kty))
    return models.one(st, UNIT if m == 'set' else old)


def c_query(cx, st, args):
    """Assumed of the query index: its answer is a set of points that depends on the point asked about only."""
    p = cx.deref(st, args[1])
    cx.asked = p
    return Spec(result=SetV(lambda x: Q(p, x)))


def inp(pts, x):
    j = gensym('j', I)
    return z3.Exists([j], And(j >= 0, j < pts.n, pts.at(j) == x))


def c_create(cx, st, args):
    pts, cid = cx.deref(st, args[1]), args[2]
    m = st.roots['cells']
    sh = cluster_shape(cx)
    f = [None] * len(sh.fields)
    f[field_index(sh, 'points')], f[field_index(sh, 'cluster_id')] = pts, cid
    new = MapV(lambda x: Or(m.has(x), inp(pts, x)), lambda x: If(inp(pts, x), cid, m.get(x)), m.kty)
    return Spec(writes=[(Ptr('cells', []), new)], result=Tup(f))


def cluster_shape(cx):
    fn = find(cx, 'Clusterer::create_new_cluster', 3)
    return cx.shape(fn.ret)


def setup():
    cx = new_ctx({'Id': sh_u('U_Id'), 'ClusterPointInner': SPT, 'ClusterPoint': SPT}, {'QueryIndex::query': Contract('QueryIndex::query', c_query)}, without='clusterer_parallel')
    cx.extra_models.append(cells)
    cx.scalar_fields = {'PT': lambda v, i: v}
    return cx


def state(cx, r):
    r.st.types['cells'] = CELLS
    r.st.roots['cells'] = cx.fresh_value(r.st, CELLS, 'cells')
    return r.st.roots['cells']


def j_create(cx):
    r = Run(cx, 'Clusterer::create_new_cluster', ['self', 'pts', 'cid'], n=3)
    m0 = state(cx, r)
    pts, cid = r.args[1], r.args[2]
    seq0 = r.st.roots['self']
    sh = cluster_shape(cx)
    me = [(f, seq0.f[n]) for n, f in enumerate(cx.shape(r.fn.args[0][1].args[0]).names)]
    for s, v in r.body():
        m = s.roots['cells']
        for n, (f, e) in enumerate(me):
            if is_scalar(e):
                cx.oblige(s, 'the clusterer keeps its %s' % f, s.roots['self'].f[n] == e, 'post')
        x, j = gensym('x', PT), gensym('j', I)
        ps = v.f[field_index(sh, 'points')]
        cx.oblige(s, 'the cluster carries its id', v.f[field_index(sh, 'cluster_id')] == cid, 'post')
        cx.oblige(s, 'the cluster holds the given points', And(ps.n == pts.n, Implies(And(j >= 0, j < pts.n), ps.at(j) == pts.at(j))), 'post')
        cx.oblige(s, 'exactly the given points become assigned', m.has(x) == Or(m0.has(x), inp(pts, x)), 'post')
        cx.oblige(s, 'members are marked with the cluster, others keep their mark', m.get(x) == If(inp(pts, x), cid, m0.get(x)), 'post', [m.has(x)])


def clusters_root(cx, st):
    """The local that collects the clusters."""
    out = []
    for r, v in st.roots.items():
        if isinstance(v, Seq) and r in st.types:
            sh = st.types[r] if isinstance(st.types[r], Sh) else cx.shape(st.types[r])
            if sh.kind == 'seq' and sh.elt.kind == 'tup' and sh.elt.name == 'Cluster':
                out.append(r)
    return out[0] if len(out) == 1 else None


class Marks:
    """Clusters made so far and the marks of the points."""

    def __init__(self, cx, s, root, sh=None, cells='cells'):
        self.m, self.cl = s.roots[cells], s.roots[root]
        sh = sh or cluster_shape(cx)
        self.fp, self.fi = field_index(sh, 'points'), field_index(sh, 'cluster_id')
        self.H, self.V, self.n = self.m.has, self.m.get, self.cl.n
        self.cx, self.s, self.sh = cx, s, sh

    def at(self, i):
        c = self.cl.at(i)
        return self.cx.fresh_value(self.s, self.sh, 'nocluster', [i]) if isinstance(c, Undef) else c

    def pts(self, i):
        return self.at(i).f[self.fp]

    def id(self, i):
        return self.at(i).f[self.fi]


def facts_of(A, H0, V0, seq0, pts, n, k, mn):
    """What holds after n clusters were made and the first k points were visited; (name, vars, formula, patterns)."""
    x, i, j, j2 = gensym('x', PT), gensym('i', I), gensym('j', I), gensym('j2', I)
    H, V = A.H, A.V
    ci, cj, cj2 = And(i >= 0, i < A.n), And(j >= 0, j < A.pts(i).n), And(j2 >= 0, j2 < A.pts(i).n)
    new = lambda x: And(H(x), Not(H0(x)))
    c = V(x) - seq0 - 1
    mem = A.pts(i).at(j)
    return [
        ('assigned points keep their cluster', [x], Implies(H0(x), And(H(x), V(x) == V0(x))), [[H(x)], [V(x)], [H0(x)]]),
        ('clusters have consecutive new ids', [i], Implies(ci, A.id(i) == seq0 + 1 + i), [[A.id(i)]]),
        ('new marks are ids of new clusters', [x], Implies(new(x), And(V(x) > seq0, V(x) <= seq0 + A.n)), [[H(x)], [V(x)]]),
        ('members are newly marked with their cluster', [i, j], Implies(And(ci, cj), And(new(mem), V(mem) == seq0 + 1 + i)), [[mem]]),
        ('a newly marked point is listed in its cluster', [x],
         Implies(new(x), z3.Exists([j], And(j >= 0, j < A.pts(c).n, A.pts(c).at(j) == x))), [[H(x)], [V(x)]]),
        ('no point is listed twice', [i, j, j2], Implies(And(ci, cj, cj2, j != j2), mem != A.pts(i).at(j2)), [[mem, A.pts(i).at(j2)]]),
        ('clusters reach the minimum size', [i], Implies(ci, A.pts(i).n >= mn), [[A.pts(i).n]]),
    ]


def j_cluster(cx):
    cx.contracts['Clusterer::create_new_cluster'] = Contract('Clusterer::create_new_cluster', c_create)
    r = Run(cx, 'Clusterer::cluster', ['self', 'points', 'index'], n=3)
    m0 = state(cx, r)
    sh = cx.shape(r.fn.args[0][1].args[0])
    me, pts = r.st.roots['self'], r.st.roots['points']
    seq0, mn = me.f[field_index(sh, 'cluster_id_sequence')], me.f[field_index(sh, 'min_cluster_size')]
    r.st.fact(seq0 + pts.n < 2**64)
    H0, V0 = m0.has, m0.get
    card, where = [], []
    cx.use_hist = True

    def on_enum(cx, st, mem, n, e, rank):
        """Specification of the number of unassigned points in an answer: counted over a listing of it without repetition."""
        if len(cx.params) == 1 and cx.asked is not None and e(iv(0)).sort() == PT:
            i = gensym('i', I)
            has = st.roots['cells'].has
            S, axs = models.fold_sum(cx, st, i, [], If(has(e(i)), iv(0), iv(1)), [], 'card', plain=True)
            cx.axioms.extend(axs)
            card.append((cx.params[0], cx.asked, S(n, [])))
            sel = models.select_fun(cx, st, models.fold_info(cx, S(i, []), i))
            cx.axioms.extend(sel[1])
            y = z3.Const('taken', PT)
            where.append((y, e(sel[0](S(rank(y), [])))))
    cx.on_enum, cx.asked = on_enum, None

    def give(cx, st0, item):
        root = clusters_root(cx, st0)
        if root is None or cx.params:
            return None
        info = cx.loop_info
        F, acc, k = info['exprs'], info['acc'], info['k']
        if (root, '.n') not in F:
            return None
        an = acc(root, '.n')()
        cnt = []
        for (rt, p) in cx.loop_todo:
            bs, e = F[(rt, p)]
            if not bs and e.sort() == I and (rt, p) != (root, '.n') and \
                    cx.prove(info['hyps'], e - acc(rt, p)() == F[(root, '.n')][1] - an, 1500):
                cnt.append((rt, p))
        hist = cx.loop_hist

        def at(s, kk):
            A = Marks(cx, s, root)
            out = [('as many clusters as points visited at most', [], And(A.n >= 0, A.n <= kk), None)]
            for rt, p in cnt:
                b0, e0 = info['init'][(rt, p)]
                out.append(('the id counter counts the clusters', [], cx.leaves(s, info['shapes'][rt], s.roots[rt])[p][1] == e0 + A.n, None))
            out += facts_of(A, H0, V0, seq0, pts, None, kk, mn)
            t, x, i = gensym('t', I), gensym('x', PT), gensym('i', I)
            past = And(t >= 0, t < kk)
            B, C = Marks(cx, hist(t), root), Marks(cx, hist(t + 1), root)
            out += [('clusters are made one at a time', [t], Implies(past, And(B.n <= C.n, C.n <= B.n + 1, C.n <= A.n)), [[B.n]]),
                    ('every cluster has a founding visit', [i], Implies(And(i >= 0, i < A.n), z3.Exists([t], And(past, B.n == i, C.n == i + 1))),
                     [[A.id(i)]]),
                    ('what was assigned at a visit', [t, x], Implies(past, B.H(x) == And(A.H(x), Or(H0(x), A.V(x) <= seq0 + B.n))), [[B.H(x)]]),
                    ]
            took = lambda B, C, t: Implies(C.n == B.n + 1, And(A.H(x), Not(H0(x)), A.V(x) == seq0 + 1 + B.n) == And(Q(pts.at(t), x), Not(B.H(x))))
            L, M = Marks(cx, hist(kk - 1), root), Marks(cx, hist(kk), root)
            if where:
                (kp, q, ex_), (y, w) = card[-1], where[-1]
                out.append(('a similar unassigned point is listed at its place', [x],
                            Implies(And(kk >= 1, q_at(q, kp, kk - 1) == pts.at(kk - 1), M.n == L.n + 1, Q(pts.at(kk - 1), x), Not(L.H(x))),
                                    z3.substitute(w, (kp, kk - 1), (y, x)) == x), [[L.H(x)]]))
            out += [('the latest visit took the unassigned similar points', [x], Implies(kk >= 1, took(L, M, kk - 1)), [[L.H(x)]]),
                    ('an earlier visit took the unassigned similar points', [t, x], Implies(And(t >= 0, t < kk - 1), took(B, C, t)), [[B.H(x)]]),
                    ('a visit takes the unassigned similar points', [t, x], Implies(past, took(B, C, t)), [[B.H(x)]])]
            if card:
                kp, q, ex_ = card[-1]
                sb = lambda e: z3.substitute(e, (kp, t))
                out.append(('a visit without a cluster met an assigned point or too few points', [t],
                            Implies(And(past, C.n == B.n), Or(B.H(pts.at(t)), And(sb(q) == pts.at(t), sb(ex_) <= mn))), [[B.n]]))
            return out
        return at
    cx.loop_inv, cx.loop_hist = give, None
    for s, v in r.body():
        if not isinstance(v, Seq) or cx.loop_hist is None or not card:
            raise Unsupported('no summary of the visits')
        s = s.copy()
        s.roots['result'] = v
        A = Marks(cx, s, 'result')
        x, i, j, t = gensym('x', PT), gensym('i', I), gensym('j', I), gensym('t', I)
        ci, ct = [i >= 0, i < A.n], [t >= 0, t < pts.n]
        new = lambda x: And(A.H(x), Not(H0(x)))
        lists = lambda i, x: z3.Exists([j], And(j >= 0, j < A.pts(i).n, A.pts(i).at(j) == x))
        seq = s.roots['self'].f[field_index(sh, 'cluster_id_sequence')]
        i2, j2 = gensym('i', I), gensym('j', I)
        h = hist_root(cx, cx.loop_hist(t))
        B, C = Marks(cx, cx.loop_hist(t), h), Marks(cx, cx.loop_hist(t + 1), h)
        post = lambda nm, g, hy=(): cx.oblige(s, nm, g, 'post', list(hy))
        post('a point assigned before keeps its cluster', And(A.H(x), A.V(x) == V0(x)), [H0(x)])
        post('cluster ids are new and remembered', And(A.id(i) > seq0, A.id(i) <= seq), ci)
        post('the id counter never goes back', And(seq >= seq0, Implies(A.n == 0, seq == seq0)))
        post('cluster ids differ', A.id(i) != A.id(i2), ci + [i2 >= 0, i2 < A.n, i != i2])
        post('the listed points of a cluster are newly marked with its id', And(new(A.pts(i).at(j)), A.V(A.pts(i).at(j)) == A.id(i)),
             ci + [j >= 0, j < A.pts(i).n])
        post('a newly marked point is listed in the cluster it is marked with',
             z3.Exists([i], And(i >= 0, i < A.n, A.V(x) == A.id(i), lists(i, x))), [new(x), bind(A.V(x) - seq0 - 1, A)])
        post('no point is listed twice in a cluster', A.pts(i).at(j) != A.pts(i).at(j2),
             ci + [j >= 0, j < A.pts(i).n, j2 >= 0, j2 < A.pts(i).n, j != j2])
        post('a cluster is not smaller than the minimum', A.pts(i).n >= mn, ci)
        # similar to the point that started it and not assigned then: neither before the call nor to an earlier cluster
        free = lambda i, x: And(Not(H0(x)), Not(And(A.H(x), A.V(x) < A.id(i))))
        post('a visit of a point of the list started each cluster', z3.Exists([t], And(t >= 0, t < pts.n, B.n == i, C.n == i + 1)),
             ci + [bind(i, A)])
        post('a cluster is the then-unassigned points similar to the point that started it',
             And(new(x), A.V(x) == A.id(i)) == And(Q(pts.at(t), x), free(i, x)), ci + ct + [B.n == i, C.n == i + 1, hint(B.H(x), A.H(x))])
        kp, q, ex_ = card[-1]
        sb = lambda e: z3.substitute(e, (kp, t))
        p = pts.at(t)
        left = ct + [Not(A.H(p)), Q(p, p), hint(B.n, C.n, B.H(p))]
        post('a point left unassigned was unassigned when visited', Not(B.H(p)), left)
        left.append(Not(B.H(p)))
        post('a point left unassigned started no cluster', C.n == B.n, left)
        left.append(C.n == B.n)
        post('a point left unassigned had too few unassigned similar points when visited', And(sb(q) == p, sb(ex_) <= mn), left)
        post('unassigned when visited: not before the call and not in a cluster made by then',
             B.H(x) == And(A.H(x), Or(H0(x), And(A.V(x) > seq0, A.V(x) <= seq0 + B.n))), ct)
        post('the settings are kept', s.roots['self'].f[field_index(sh, 'min_cluster_size')] == mn)
        post('the list of points is kept', And(s.roots['points'].n == pts.n, Implies(And(j >= 0, j < pts.n), s.roots['points'].at(j) == pts.at(j))))


def j_new(cx):
    r = Run(cx, 'Clusterer::new', ['min'], n=1)
    sh = cx.shape(r.fn.ret)
    for s, v in r.body():
        cx.oblige(s, 'no id issued yet', v.f[field_index(sh, 'cluster_id_sequence')] == 0, 'post')
        cx.oblige(s, 'the minimum is the given one', v.f[field_index(sh, 'min_cluster_size')] == r.args[0], 'post')


def q_at(q, kp, t):
    return z3.substitute(q, (kp, t))


def hint(*es):
    return z3.And(*[z3.Function('hint_%s' % e.sort(), e.sort(), B)(e) for e in es])


def bind(i, A):
    return hint(A.id(i))


def bindn(B_, C):
    return hint(B_.n, C.n)


def hist_root(cx, s):
    return clusters_root(cx, s)


JOBS = [JOB('Clusterer::new', j_new, PP, setup),
        JOB('Clusterer::cluster', j_cluster, PP, setup),
        JOB('Clusterer::create_new_cluster', j_create, PP, setup)]
