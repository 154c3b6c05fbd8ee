"""Loop summaries: closed forms guessed from templates, then checked by induction."""
import hashlib
import z3
from vals import *
from exec import (Ctx, St, Impure, occurs, decl_name, same_value, Skip, symbols, pattern_ok, is_zero)


def mir_loop(cx, fr, h, st):
    body = fr.info.heads[h]
    live = fr.info.live[h]
    st = st.copy()
    kill_dead(cx, fr, st, live)
    # iterators over unordered collections get an enumeration
    for r, v in list(st.roots.items()):
        if isinstance(v, Iter) and needs_order(v):
            st.roots[r] = cx.models.ordered(cx, st, v)

    def step(s, k):
        outs = cx.run(fr, h, s, (h, body))
        for o in outs:
            if o[0] == 'cont':
                kill_dead(cx, fr, o[1], live)
        return outs
    n = len(cx.obls)
    try:
        return summarise(cx, st, step, 'L%d' % h)
    except Unsupported as e:
        del cx.obls[n:]
        out = unroll(cx, st, step, 'U%d' % h)
        if out is None:
            raise e
        return out


def unroll(cx, st, step, tag, limit=16):
    """A loop with a small constant number of rounds, executed round by round (None if it is not one)."""
    n = len(cx.obls)
    todo, out = [st], []
    for r in range(limit + 1):
        nxt = []
        for s in todo:
            cx.stack.append('%s.%d' % (tag, r))
            try:
                outs = step(s.copy(), iv(r))
            except Unsupported:
                del cx.obls[n:]
                return None
            finally:
                cx.stack.pop()
            for o in outs:
                if o[0] == 'cont':
                    nxt.append(o[1])
                else:
                    out.append(o)
        if len(nxt) > 1:
            break
        if not nxt:
            return out
        todo = nxt
    del cx.obls[n:]
    return None


def needs_order(it):
    k = it.src[0]
    if k in ('set', 'mapkv'):
        return True
    return any(needs_order(x) for x in it.src[1:] if isinstance(x, Iter))


def ptr_roots(v, acc):
    if isinstance(v, Ptr):
        acc.add(v.root)
    elif isinstance(v, Tup):
        for x in v.f:
            ptr_roots(x, acc)
    elif isinstance(v, Clo):
        for x in v.caps:
            ptr_roots(x, acc)
    elif isinstance(v, Enum):
        for a in v.alts.values():
            for x in a:
                ptr_roots(x, acc)
    elif isinstance(v, Iter):
        for x in v.src[1:]:
            if isinstance(x, V):
                ptr_roots(x, acc)
            elif isinstance(x, str):
                acc.add(x)
    elif isinstance(v, Entry):
        ptr_roots(v.ptr, acc)


def kill_dead(cx, fr, st, live):
    mine = {fr.root(n): n for n in fr.fn.locals}
    keep = {r for r, n in mine.items() if n in live}
    work = [r for r in st.roots if r not in mine or r in keep]
    seen = set(work)
    while work:
        r = work.pop()
        acc = set()
        v = st.roots.get(r)
        if v is not None:
            ptr_roots(v, acc)
        for q in acc:
            if q in st.roots and q not in seen:
                seen.add(q)
                work.append(q)
    for r in mine:
        if r in st.roots and r not in seen:
            st.roots[r] = UNDEF


class Scratch:
    def __init__(self, cx):
        self.cx = cx

    def __enter__(self):
        self.n = len(self.cx.axioms)
        self.keys = set(self.cx.axkeys)
        self.folds = len(self.cx.folds)
        self.cx.scratch += 1

    def __exit__(self, *a):
        self.cx.scratch -= 1
        # library axioms (closed facts about named functions) survive, definitions of this run do not
        del self.cx.axioms[self.n:]
        self.cx.axkeys = self.keys
        for nm, ax in getattr(self.cx, 'lib_axioms', {}).items():
            if nm not in self.keys:
                self.keys.add(nm)
                self.cx.axioms.extend(ax if isinstance(ax, list) else [ax])
        del self.cx.folds[self.folds:]


def shape_of(cx, st, r, v):
    t = st.types.get(r)
    if isinstance(v, Iter):
        return Sh('iter', elt=None)
    if t is None:
        raise Unsupported('untyped root %s modified in a loop' % r)
    if isinstance(t, Sh):
        return t
    return cx.shape(t)


def summarise(cx, st0, step, tag):
    cx.stack.append(tag)
    try:
        return _summarise(cx, st0, step, tag)
    finally:
        cx.stack.pop()


def _summarise(cx, st0, step, tag):
    k = z3.Int('k!' + cx.site(st0))
    roots0 = dict(st0.roots)
    mods = {}          # root -> set of leaf paths
    shapes = {}
    init = {}          # (root, leaf) -> (binders, expr)

    def head_state(closed, kk):
        s = st0.copy()
        for r, ls in mods.items():
            sh = shapes[r]

            def leaf(p, bs, r=r):
                if (r, p) in closed:
                    return closed[(r, p)](kk, bs)
                if p in mods[r]:
                    return acc(r, p)(*bs)
                b0, e0 = init[(r, p)]
                return z3.substitute(e0, *[(x, y) for x, y in zip(b0, bs)]) if bs else e0
            s.roots[r] = cx.build(s, sh, leaf, roots0[r])
        return s

    accs = {}

    def acc(r, p):
        if (r, p) not in accs:
            bs, e = init[(r, p)]
            nm = 'acc!%s!%s%s' % (cx.site(st0), r, p)
            if bs:
                f = z3.Function(nm, *[b.sort() for b in bs], e.sort())
                accs[(r, p)] = (f, nm)
            else:
                c = z3.Const(nm, e.sort())
                accs[(r, p)] = (lambda *a, c=c: c, nm)
        return accs[(r, p)][0]

    def reg(r):
        if r in shapes:
            return
        sh = shape_of(cx, st0, r, roots0[r])
        shapes[r] = sh
        for p, (bs, e) in cx.leaves(st0, sh, roots0[r]).items():
            if isinstance(bs, str):
                init[(r, p)] = ('const', e)
            else:
                init[(r, p)] = (bs, e)

    def discover(sh_st):
        _, outs = run_step2(cx, sh_st, step, k, [])
        new = False
        for o in outs:
            if o[0] != 'cont':
                continue
            s = o[1]
            for r in roots0:
                if r not in s.roots:
                    continue
                a, b = sh_st.roots[r], s.roots[r]
                if a is b or same_value(a, b):
                    continue
                if isinstance(a, Undef) and isinstance(b, Undef):
                    continue
                reg(r)
                la = cx.leaves(s, shapes[r], a)
                lb = cx.leaves(s, shapes[r], b)
                for p in lb:
                    if la[p][0] == 'const' or lb[p][0] == 'const':
                        if not same_value(la[p][1], lb[p][1]) and not p.endswith('.src'):
                            raise Unsupported('loop changes a pointer in %s%s' % (r, p))
                        continue
                    if p in mods.get(r, ()):
                        continue
                    if not simp(la[p][1]).eq(simp(lb[p][1])):
                        mods.setdefault(r, set()).add(p)
                        new = True
        return new, sum(1 for o in outs if o[0] == 'cont')

    # ---- 1. which leaves does the body change?
    for _round in range(8):
        with Scratch(cx):
            sh_st = head_state({}, k)
            cx.params.append(k)
            try:
                new, ncont = discover(sh_st)
            finally:
                cx.params.pop()
        if not new:
            break
    else:
        raise Unsupported('modified leaves do not stabilise')
    # ---- 2. closed forms
    closed = {}
    todo = {(r, p) for r in mods for p in mods[r]}
    if getattr(cx, 'havoc_multi', False):
        # the contract at hand does not speak of repetitions: leave them unknown
        for (r, p) in list(todo):
            if p.endswith('.multi'):
                u = cx.func(st0, 'anymulti', [I] + [b.sort() for b in init[(r, p)][0]], B)
                closed[(r, p)] = lambda kk, xs, u=u: u(kk, *xs)
                todo.discard((r, p))

    def analyse():
        """Run the body on the current (partly closed) state; leaf -> (binders, expr), hyps, continuation cond."""
        s0 = head_state(closed, k)
        cx.params.append(k)
        try:
            return _analyse(s0)
        finally:
            cx.params.pop()

    def bag_facts():
        """What canonical bag leaves satisfy; only guides the guess of a closed form."""
        out = []
        for (r, p) in todo:
            if p.endswith('.multi') and (r, p) in init:
                pm = p[:-5] + 'mem'
                bs = init[(r, p)][0]
                if (r, pm) in todo:
                    out.append(Implies(acc(r, p)(*bs), acc(r, pm)(*bs)))
            if p.endswith('{}.mem') and (r, p) in init and (r, p[:-6] + '.has') in todo:
                bs = init[(r, p)][0]
                out.append(Implies(acc(r, p)(*bs), acc(r, p[:-6] + '.has')(*bs[:-1])))
        return out

    def _analyse(s0):
        base, outs = run_step2(cx, s0, step, k, [])
        nb = len(base.path)
        conts = [o[1] for o in outs if o[0] == 'cont']
        if not conts:
            return base, {}, [], FALSE, outs
        conds, facts = [], []
        for s in conts:
            c = And([x for kd, x in s.path[nb:] if kd == 'b'])
            conds.append(c)
            facts += [Implies(c, x) for kd, x in s.path[nb:] if kd == 'f']
        exprs = {}
        for r in mods:
            ls = [cx.leaves(s, shapes[r], s.roots[r]) for s in conts]
            for p in ls[0]:
                if ls[0][p][0] == 'const':
                    continue
                e = ls[-1][p][1]
                for l, c in list(zip(ls, conds))[-2::-1]:
                    e = If(c, l[p][1], e)
                e = simp(e)
                vals = dedup([l[p][1] for l in ls])
                if len(vals) == 2 and len(ls) > 2 and not ls[0][p][0]:
                    # two outcomes: told apart by what the paths of one of them have in common?
                    for v, w in (vals, vals[::-1]):
                        com = None
                        for l, s in zip(ls, conts):
                            if l[p][1].eq(v):
                                lits = {}
                                for kd, x in s.path[nb:]:
                                    if kd == 'b':
                                        for y in conjuncts(simp(x)):
                                            lits[y.get_id()] = y
                                com = lits if com is None else {i: y for i, y in com.items() if i in lits}
                        com = list(com.values())
                        same = lambda c: cx.prove(base.conds() + facts + [Or(conds)], If(And(c), v, w) == e, 1500)
                        if not same(com):
                            continue
                        for y in list(com):
                            if {z for z in symbols(y) if z.startswith('acc!')} and same([z for z in com if z is not y]):
                                com = [z for z in com if z is not y]
                        e = simp(If(And(com), v, w))
                        break
                exprs[(r, p)] = (ls[0][p][0], e)
        cc = merge_cases([[x for kd, x in s.path[nb:] if kd == 'b'] for s in conts])
        return base, exprs, facts, cc, outs

    inv, unames = [None], []

    def udef(state, kk):
        """The leaves covered by an invariant are named by what the body leaves there."""
        out = []
        for r, p, u in unames:
            bs, e = cx.leaves(state, shapes[r], state.roots[r])[p]
            q = u(kk, *bs)
            out.append(ForAll(bs, q == e, [q]) if bs else q == e)
        return out

    def inv_at(state, kk):
        return inv[0](state, kk) if inv[0] is not None else []

    def inv_facts(state, kk):
        out = []
        for nm, vs, f, pats in inv_at(state, kk):
            raw = [[bit_body(cx, t) for t in q] for q in pats or ()]
            pats = list(pats or ()) + [q for q in raw if all(t is not None for t in q)]
            ps = [z3.MultiPattern(*q) if len(q) > 1 else q[0] for q in pats or () if all(pattern_ok(t) for t in q)] or None
            try:
                out.append(ForAll(vs, f, ps) if vs else f)
            except z3.Z3Exception:
                out.append(ForAll(vs, f))
        return out

    if not mods:
        # body without effect on the state: closed form is the initial state
        pass
    for _round in range(12):
        if not todo:
            break
        progress = False
        with Scratch(cx):
            base, exprs, facts, cc, outs = analyse()
            hyps = base.conds() + facts + [cc] + bag_facts()
            unsolved_names = {accs[x][1] for x in todo if x in accs}
            found = {}
            for (r, p) in sorted(todo, key=lambda x: (len(init[x][0]), x[1])):
                if (r, p) not in exprs:
                    continue
                bs, F = exprs[(r, p)]
                a = acc(r, p)(*bs)
                nm = accs[(r, p)][1]
                others = (symbols(F) & (unsolved_names | {accs[x][1] for x in todo if x in accs})) - {nm}
                if others:
                    continue
                cx.cur_width = cx.width_of(shapes[r], p)
                cf = template(cx, base, k, bs, F, a, nm, init[(r, p)], hyps, closed, (r, p), init, mods)
                if cf is not None:
                    found[(r, p)] = cf
            if not found:
                # conditions that mention the other unsolved parts only through the way the loop goes on
                for (r, p) in sorted(todo, key=lambda x: (len(init[x][0]), x[1])):
                    if (r, p) not in exprs or exprs[(r, p)][1].sort() == B:
                        continue
                    bs, F = exprs[(r, p)]
                    nm = accs[(r, p)][1]
                    G = decide(cx, F, hyps, {accs[x][1] for x in todo if x in accs} - {nm})
                    if G is not None:
                        cx.cur_width = cx.width_of(shapes[r], p)
                        cf = template(cx, base, k, bs, G, acc(r, p)(*bs), nm, init[(r, p)], hyps, closed, (r, p), init, mods)
                        if cf is not None:
                            found[(r, p)] = cf
            if not found:
                found = joint_point(cx, k, exprs, todo, acc, accs, init, hyps)
            cc_now = cc
        # fold definitions made by templates are permanent: template returns (callable, [axioms])
        for key, (cf, axs) in found.items():
            closed[key] = cf
            todo.discard(key)
            progress = True
            cx.axioms.extend(axs)
        if not progress and inv[0] is None and getattr(cx, 'loop_inv', None):
            # no closed form: a loop invariant given with the contract stands in for it
            cx.loop_todo = sorted(todo)
            cx.loop_info = dict(exprs=exprs, acc=acc, init=init, hyps=hyps, shapes=shapes, k=k)
            cx.loop_hist = lambda t: head_state(closed, t)
            inv[0] = cx.loop_inv(cx, st0, loop_item(cx, st0, mods, roots0))
            cx.inv_used = getattr(cx, 'inv_used', False) or inv[0] is not None
            if inv[0] is not None:
                for (r, p) in sorted(todo):
                    bs, F = exprs[(r, p)]
                    at = None
                    acc(r, p)
                    with Scratch(cx):
                        # changed at one position only?
                        for i, b in enumerate(bs):
                            for e in dedup([u.arg(i) for u in apps_of(F, accs[(r, p)][1]) if not has_var(u.arg(i))] + cx.params):
                                if e.eq(b) or occurs(e, k):
                                    continue
                                if at is None and b.sort() == I and e.sort() == I and \
                                        cx.prove(hyps, Implies(b != e, F == acc(r, p)(*bs)), 1500):
                                    at = (i, e)
                    u = cx.func(st0, 'any%s%s' % (short(r), p), [I] + [b.sort() for b in bs], F.sort())
                    unames.append((r, p, u))

                    def cf(kk, xs, u=u, at=at, bs=init[(r, p)][0], e0=init[(r, p)][1]):
                        v = u(kk, *xs)
                        if at is None:
                            return v
                        return If(xs[at[0]] == at[1], v, z3.substitute(e0, *[(x, y) for x, y in zip(bs, xs)]))
                    closed[(r, p)] = cf
                todo.clear()
                progress = True
        if not progress:
            raise Unsupported('no closed form for %s' % sorted(['%s%s' % (r.split('.')[-1], p) for r, p in todo])[:4])

    # ---- 3. the number of iterations
    with Scratch(cx):
        base, exprs, facts, cc, outs = analyse()
        facts = facts + inv_facts(head_state(closed, k), k)
        N = None
        cands = []
        for r in mods:
            v = roots0[r]
            if isinstance(v, Iter):
                n = cx.models.length(cx, st0, v)
                if n is not None:
                    cands.append(simp(n - v.pos))
        cands += count_hints(cc, k)
        bounds = []
        for n in cands:
            if cx.prove(base.conds() + facts, cc == (k < n), 1500):
                N = n
                break
        Nmax = None
        if N is None:
            for n in cands:
                if cx.prove(base.conds() + facts, Implies(cc, k < n), 1500):
                    Nmax = n
                    break
        nonneg = N is not None and cx.prove(st0.conds(), N >= 0, 1500)
    if N is not None:
        Kend = N if nonneg else If(N >= 0, N, iv(0))
        reach = [k <= Kend]
    else:
        j = z3.Int('j!' + cx.site(st0))
        reach = [ForAll([j], Implies(And(j >= 0, j < k), z3.substitute(cc, (k, j))))]
        reach.append(Or(k <= 0, z3.substitute(cc, (k, k - 1))))
        if Nmax is not None:
            reach.append(Or(k <= Nmax, k == 0))

    # ---- 4. real run: obligations of the body, induction
    s0 = head_state(closed, k)
    cx.params.append(k)
    try:
        base, outs = run_step2(cx, s0, step, k, reach + inv_facts(s0, k))
    finally:
        cx.params.pop()
    # each part of the invariant may use the parts before it
    fs = inv_facts(st0, iv(0))
    for n, (nm, vs, f, _) in enumerate(inv_at(st0, iv(0))):
        cx.oblige(st0, 'loop %s: %s initially' % (tag, nm), simp(f), 'induction', fs[:n] + (udef(st0, iv(0)) if getattr(cx, 'use_hist', False) else []))
    for r in mods:
        # base case
        h0 = head_state(closed, iv(0))
        for nm, hy, g in cx.equal(st0, shapes[r], h0.roots[r], roots0[r]) if shapes[r].kind != 'iter' else \
                [('.pos', [], h0.roots[r].pos == roots0[r].pos)]:
            cx.oblige(st0, 'loop %s: summary of %s%s holds initially' % (tag, short(r), nm), simp(g), 'induction', hy + udef(st0, iv(0)))
    hn = head_state(closed, k + 1)
    for o in outs:
        if o[0] != 'cont':
            continue
        s = o[1]
        cx.params.append(k)
        try:
            ud = udef(s, k + 1)
            for r in mods:
                if shapes[r].kind == 'iter':
                    eqs = [('.pos', [], s.roots[r].pos == hn.roots[r].pos)]
                else:
                    eqs = cx.equal(s, shapes[r], s.roots[r], hn.roots[r])
                for nm, hy, g in eqs:
                    cx.oblige(s, 'loop %s: summary of %s%s is preserved' % (tag, short(r), nm), simp(g), 'induction', hy + ud)
            fs = inv_facts(s, k + 1)
            for n, (nm, vs, f, _) in enumerate(inv_at(s, k + 1)):
                cx.oblige(s, 'loop %s: %s preserved' % (tag, nm), simp(f), 'induction', fs[:n] + (ud if getattr(cx, 'use_hist', False) else []))
            if inv[0] is not None:
                cx.oblige(s, 'loop %s: an iteration is possible under the invariant' % tag, FALSE, 'vacuity', ud)
                if cx.obls and cx.obls[-1].kind == 'vacuity':
                    cx.obls[-1].expect = False
        finally:
            cx.params.pop()

    # ---- 5. exits
    res = []
    exits = [o for o in outs if o[0] != 'cont']
    nb = len(base.path)
    if N is not None:
        K = Kend
    else:
        K = cx.fresh(st0, 'K', I)
        j = z3.Int('j!' + cx.site(st0))
        ends = [And([simp(z3.substitute(c, (k, K))) for kd, c in o[1].path[nb:] if kd == 'b']) for o in exits]
        about = [K >= 0, Or(K <= 0, z3.substitute(cc, (k, K - 1))), simp(Or(ends))]
        if Nmax is not None:
            about.append(Or(K <= Nmax, K == 0))
        dk = [decl_name(K)]
        for f in about:
            cx.axiom(st0, f, pats=[[K]], defs=dk)
        cx.axiom(st0, Implies(And(j >= 0, j < K), z3.substitute(cc, (k, j))), [j], defs=dk)
        for f in about:
            st0.fact(f)
        st0.fact(ForAll([j], Implies(And(j >= 0, j < K), z3.substitute(cc, (k, j)))))
        if Nmax is None:
            cx.assumed.add('termination of a loop in %s' % (cx.curfn,))
    if inv[0] is not None:
        d = [u.decl.name() for r, p, u in unames]
        for nm, vs, f, pats in inv_at(head_state(closed, K), K):
            cx.axiom(st0, f, vs, pats, defs=d)
    for n, o in enumerate(exits):
        s = o[1]
        t = s.copy()
        t.path = list(st0.path)
        for kd, c in s.path[nb:]:
            c2 = simp(z3.substitute(c, (k, K)))
            if kd == 'b' and len(exits) == 1:
                if not z3.is_true(c2):
                    t.path.append(('f', c2))
            elif not z3.is_true(c2):
                t.path.append((kd, c2))
        t.trace = st0.trace + '%sx%d,' % (tag, n)
        for r, v in list(s.roots.items()):
            if r in st0.roots and v is st0.roots[r]:
                continue
            t.roots[r] = subst(v, [(k, K)])
        if N is not None and len(exits) > 1:
            # several exits although the count is fixed: keep only feasible ones
            if not cx.feasible(t, TRUE):
                continue
        if o[0] == 'exit':
            res.append(('exit', t, o[2]))
        else:
            res.append(('ret', t))
    return res


def merge_cases(cases):
    """The disjunction of cases, each a list of conditions; two cases that differ only in
    one condition being true or false are one case without it."""
    def key(x):
        neg = False
        while z3.is_not(x):
            x, neg = x.arg(0), not neg
        if z3.is_quantifier(x) and x.is_forall() and z3.is_not(x.body()):
            vs = [z3.Const('mc!%d' % i, x.var_sort(i)) for i in range(x.num_vars())]
            x = z3.Exists(vs, z3.substitute_vars(x.body().arg(0), *vs[::-1]))
            neg = not neg
        elif z3.is_quantifier(x):
            vs = [z3.Const('mc!%d' % i, x.var_sort(i)) for i in range(x.num_vars())]
            body = z3.substitute_vars(x.body(), *vs[::-1])
            x = z3.ForAll(vs, body) if x.is_forall() else z3.Exists(vs, body)
        return x, neg
    def flat(c):
        c = simp(c) if not has_quant(c) else c
        if z3.is_and(c):
            return [y for x in c.children() for y in flat(x)]
        return [] if z3.is_true(c) else [c]
    cs = []
    for c in cases:
        d = {}
        for x in c:
            for y in flat(x):
                kx, neg = key(y)
                d[(kx.get_id(), neg)] = (kx, neg)
        cs.append(d)
    done = False
    while not done:
        done = True
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                di, dj = set(cs[i]) - set(cs[j]), set(cs[j]) - set(cs[i])
                if len(di) <= 1 and len(dj) <= 1:
                    if di and dj:
                        (a, na), (b, nb) = next(iter(di)), next(iter(dj))
                        if a != b or na == nb:
                            continue
                    cs[i] = {q: cs[i][q] for q in set(cs[i]) & set(cs[j])}
                    del cs[j]
                    done = False
                    break
            if not done:
                break
    return simp(Or([And([Not(x) if neg else x for x, neg in d.values()]) for d in cs]))


def lift_ite(e):
    """e with the case distinctions of its sums at the top."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return If(e.arg(0), lift_ite(e.arg(1)), lift_ite(e.arg(2)))
    if z3.is_add(e) or z3.is_sub(e):
        for n, c in enumerate(e.children()):
            c = lift_ite(c)
            if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
                rep = lambda x: lift_ite(e.decl()(*[x if m == n else y for m, y in enumerate(e.children())]))
                return If(c.arg(0), rep(c.arg(1)), rep(c.arg(2)))
    return e


def bit_body(cx, t):
    """What a bit of a value built from its bits is by definition."""
    d = cx.models.BITDEF.get(t.arg(0).decl().name()) if z3.is_app(t) and t.num_args() == 2 and z3.is_app(t.arg(0)) else None
    if d is None:
        return None
    canon, i, body = d
    return z3.substitute(body, (i, t.arg(1)), *zip(canon, t.arg(0).children()))


def has_quant(e):
    if z3.is_quantifier(e):
        return True
    return any(has_quant(c) for c in e.children())


def loop_item(cx, st, mods, roots0):
    """What the loop visits in iteration k, where an iterator tells."""
    for r in mods:
        v = roots0[r]
        if isinstance(v, Iter):
            try:
                im = cx.models.items(cx, st, v, order=True)
            except (Impure, Unsupported):
                continue
            if z3.is_true(im.guard):
                return lambda kk, im=im: subst(im.val, [(im.g, kk)])
    return None


def run_step2(cx, st, step, k, facts):
    s = st.copy()
    s.trace = ''
    s.fact(k >= 0)
    for f in facts:
        s.fact(f)
    base = s.copy()
    return base, step(s, k)


def short(r):
    return r.split('.')[-1]


def count_hints(cc, k):
    """n such that cc looks like k < n."""
    out = []
    work = [cc]
    while work:
        e = work.pop()
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
            work.extend(e.children())
        elif z3.is_lt(e) or z3.is_le(e) or z3.is_gt(e) or z3.is_ge(e):
            l, r = e.children()
            for d in (simp(r - l + k), simp(l - r + k), simp(r - l + k + 1), simp(l - r + k + 1)):
                if not occurs(d, k):
                    out.append(d)
    return out


# ---------------------------------------------------------------- templates
def template(cx, st, k, bs, F, a, accname, ini, hyps, closed, key, init, mods):
    """Closed form of the recurrence x(0)=init, x(k+1)=F(x(k),k) at binders bs.
    Returns (callable(kexpr, binders) -> expr, axioms) or None."""
    b0, e0 = ini
    ie = z3.substitute(e0, *[(x, y) for x, y in zip(b0, bs)]) if bs else e0

    def mk(expr):
        def f(kk, xs):
            ps = [(k, kk)] + [(b, x) for b, x in zip(bs, xs)]
            return z3.substitute(expr, *ps)
        return f, []
    j = z3.Int('j!%s' % accname[-40:].replace('!', '_'))

    def sub(e, **kw):
        return e
    at = lambda e, kk: z3.substitute(e, (k, kk))
    with_a = lambda e, v: simp(z3.substitute(e, (a, v)))
    # applications of the accumulator elsewhere that only matter where they coincide with this point
    for u in apps_of(F, accname):
        if not u.eq(a):
            F2 = z3.substitute(F, (u, a))
            if cx.prove(hyps, F2 == F, 1000):
                F = simp(F2)
    # other applications of the accumulator (not at this point)
    F0 = z3.substitute(F, (a, gensym('probe', a.sort())))
    pointwise = accname not in symbols(F0)
    P = lambda g, ms=1500: cx.prove(hyps, g, ms)
    # unchanged
    if pointwise and P(F == a):
        return mk(ie)
    # pointwise update at an index that walks with k
    ints = [b for b in bs if b.sort() == I]
    for b in ints:
        for off in offsets(F, b, k):
            if pointwise and P(Implies(b != k + off, F == a)):
                N = at(with_a(F, ie), b - off)
                return mk(If(And(b - off >= 0, b - off < k), simp(N), ie))
    if not pointwise and key[1].endswith('.bit'):
        return shifted_bits(cx, k, bs, F, accname, ie, e0, b0, P, mk)
    if not pointwise:
        return None
    s = a.sort()
    # independent of the accumulator
    if accname not in symbols(F):
        if not occurs(F, k):
            return mk(If(k <= 0, ie, F))
        return mk(If(k <= 0, ie, simp(at(F, k - 1))))
    if s == B:
        A, Bq = with_a(F, TRUE), with_a(F, FALSE)
        rng = lambda lo, hi: And(j >= lo, j < hi)
        if P(A) or P(Implies(a, F)):
            return mk(Or(ie, ex(j, And(rng(0, k), at(Bq, j)))))
        if P(Not(Bq)):
            return mk(And(ie, fa(j, Implies(rng(0, k), at(A, j)))))
        if P(Implies(Bq, A)):
            j2 = z3.Int(str(j) + "'")
            return mk(Or(ex(j, And(rng(0, k), at(Bq, j), fa(j2, Implies(And(j2 > j, j2 < k), at(A, j2))))),
                         And(ie, fa(j, Implies(rng(0, k), at(A, j))))))
        return None
    if s in (I,):
        c = with_a(F, iv(0))
        if P(F == a + c):
            c = simp(c)
            if not occurs(c, k):
                return mk(ie + (k if z3.is_int_value(c) and c.as_long() == 1 else c * k))
            S, axs = cx.models.fold_sum(cx, st, k, bs, c, hyps, accname)
            f = lambda kk, xs: z3.substitute(ie, *[(b, x) for b, x in zip(bs, xs)]) + S(kk, xs) if bs else ie + S(kk, xs)
            return f, axs
        if z3.is_mod(F) and z3.is_int_value(F.arg(1)) and accname not in symbols(F.arg(1)):
            # a sum that wraps around
            E, m = F.arg(0), F.arg(1)
            c = with_a(E, iv(0))
            if m.as_long() > 0 and P(E == a + c):
                c = simp(c)
                if not occurs(c, k):
                    return mk((ie + c * k) % m)
                S, axs = cx.models.fold_sum(cx, st, k, bs, c, hyps, accname)
                f = lambda kk, xs: ((z3.substitute(ie, *[(b, x) for b, x in zip(bs, xs)]) if bs else ie) + S(kk, xs)) % m
                return f, axs
    # running minimum or maximum
    if s in (I, R):
        cs = dedup([v for c, v in (ite_leaves(lift_ite(F)) or []) if accname not in symbols(v)])
        if len(cs) == 1:
            c = simp(cs[0])
            for least in (True, False):
                better = (c < a) if least else (c > a)
                if P(F == If(better, c, a)):
                    M, axs = cx.models.extreme(cx, st, k, bs, c, ie, least, accname)
                    return M, axs
    # started by the first touch, then added to
    lv = ite_leaves(lift_ite(F)) if s == I else None
    if lv is not None and any(accname in symbols(v) and not v.eq(a) for c, v in lv):
        lv = [(c, simp(v)) for c, v in lv if not P(Not(c), 500)]
    if lv is not None and all(accname not in symbols(c) for c, v in lv):
        inc = {simp(v - a).as_long() for c, v in lv if z3.is_int_value(simp(v - a))} - {0}
        start = dedup([v for c, v in lv if accname not in symbols(v)])
        if len(inc) == 1 and len(start) == 1 and not occurs(start[0], k) and \
                all(accname not in symbols(v) or z3.is_int_value(simp(v - a)) for c, v in lv):
            inc, d = inc.pop(), start[0]
            touch = merge_cases([[c] for c, v in lv if not v.eq(a)])
            S, axs = cx.models.fold_sum(cx, st, k, bs, simp(If(touch, iv(1), iv(0))), hyps, accname)
            info = cx.models.fold_info(cx, S(k, bs), k)
            if info is not None:
                axs = axs + cx.models.select_fun(cx, st, info)[1] + cx.models.count_facts(cx, st, info)
            val = lambda kk, xs: If(S(kk, xs) > 0, d + inc * (S(kk, xs) - 1), z3.substitute(ie, *zip(bs, xs)) if bs else ie)
            fresh = simp(Or([c for c, v in lv if v.eq(d)]))
            n0 = len(cx.axioms)
            cx.axioms.extend(axs)
            if cx.prove(hyps + [touch], fresh == (S(k, bs) == 0), 3000):
                return val, axs
            del cx.axioms[n0:]
    # last write wins
    lv = ite_leaves(F)
    if lv is not None and all(v.eq(a) or accname not in symbols(v) for c, v in lv) and \
            all(accname not in symbols(c) for c, v in lv):
        G = simp(Or([c for c, v in lv if not v.eq(a)]))
        vs = [(c, v) for c, v in lv if not v.eq(a)]
        val = vs[-1][1]
        for c, v in vs[-2::-1]:
            val = If(c, v, val)
        # guarded push: index = current length
        r, p = key
        if p.endswith('[]') or '[]' in p:
            gp = guarded_push(cx, st, k, bs, F, a, ie, G, val, hyps, closed, key, init, mods, mk)
            if gp is not None:
                return gp
            cc = concat(cx, st, k, bs, F, a, ie, G, val, hyps, closed, key, init)
            if cc is not None:
                return cc
        if not occurs(val, k):
            return mk(If(ex(j, And(j >= 0, j < k, at(G, j))), val, ie))
        L, axs = cx.models.last_index(cx, st, k, bs, G, accname)

        def f(kk, xs):
            ps = [(b, x) for b, x in zip(bs, xs)]
            Lk = L(kk, xs)
            v = z3.substitute(val, *([(k, Lk)] + ps))
            i2 = z3.substitute(ie, *ps) if ps else ie
            return If(Lk >= 0, v, i2)
        return f, axs
    r = cx.models.special_fold(cx, st, k, bs, F, a, ie, hyps, mk, accname)
    if r is None and getattr(cx, 'rec_ok', False) and not bs:
        r = recursion(cx, k, F, a, ie)
    return r


def recursion(cx, k, F, a, ie):
    """No closed form: the defining equations x(0)=init, x(k+1)=F(x(k),k) themselves. The function is named by its
    equations, so that two runs of the same recurrence give the same function."""
    A, K = z3.Const('rec_A', a.sort()), z3.Int('rec_K')
    G = z3.substitute(F, (a, A), (k, K))
    ps = []

    def consts(e, seen):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            raise Unsupported('recurrence with a quantifier')
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.eq(A) and not e.eq(K):
            ps.append(e)
        for c in e.children():
            consts(c, seen)
    consts(G, set())
    vs = [z3.Const('rec_p%d' % n, p.sort()) for n, p in enumerate(ps)]
    G = z3.substitute(G, *zip(ps, vs)) if ps else G
    nm = 'REC_' + hashlib.sha1(G.sexpr().encode()).hexdigest()[:12]
    f = z3.Function(nm, a.sort(), *[p.sort() for p in ps], I, a.sort())
    s, m = z3.Const('rec_s', a.sort()), z3.Int('rec_m')
    X = lambda t: f(s, *vs, t)
    axs = []
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        d = frozenset([nm])
        axs = [(z3.ForAll([s] + vs, X(iv(0)) == s, patterns=[X(iv(0))]), d),
               (z3.ForAll([s] + vs + [K, m], Implies(And(K >= 0, m == K + 1), X(m) == z3.substitute(G, (A, X(K)))),
                          patterns=[z3.MultiPattern(X(K), X(m))]), d)]
    return (lambda kk, xs: f(ie, *ps, kk)), axs


def joint_point(cx, k, exprs, todo, acc, accs, init, hyps):
    """Several parts of the elements of one sequence that depend on each other, each written only at the index
    that walks with k: the value at b is the body's effect at iteration b on the initial parts."""
    groups = {}
    for (r, p) in todo:
        if '[]' in p and (r, p) in exprs and exprs[(r, p)][0]:
            groups.setdefault((r, p[:p.index('[]')]), []).append((r, p))
    found = {}
    for g, keys in groups.items():
        names = {accs[x][1] for x in keys if x in accs}
        if any((symbols(exprs[x][1]) & {accs[y][1] for y in todo if y in accs}) - names for x in keys):
            continue
        for off in dedup(o for x in keys for o in offsets(exprs[x][1], exprs[x][0][0], k)):
            if all(cx.prove(hyps, Implies(exprs[x][0][0] != k + off, exprs[x][1] == acc(*x)(*exprs[x][0])), 1500) for x in keys):
                break
        else:
            continue
        repl = []
        for x in keys:
            b0, e0 = init[x]
            f = accs[x][0]
            repl.append((f, z3.substitute(e0, *[(b, z3.Var(n, b.sort())) for n, b in enumerate(b0)])))
        for x in keys:
            bs, F = exprs[x]
            b0, e0 = init[x]
            ie = z3.substitute(e0, *[(u, v) for u, v in zip(b0, bs)])
            b = bs[0]
            N = simp(z3.substitute(z3.substitute_funs(F, *repl), (k, b - off)))
            e = If(And(b - off >= 0, b - off < k), N, ie)
            found[x] = ((lambda kk, xs, e=e, bs=bs: z3.substitute(e, *([(k, kk)] + list(zip(bs, xs))))), [])
    return found


def decide(cx, F, hyps, away, depth=7):
    """F without the symbols `away`, as a decision tree over the other atoms of its conditions, or None."""
    lv = ite_leaves(lift_ite(F))
    if lv is None:
        return None
    vals = dedup([v for c, v in lv])
    if len(vals) > 4 or any(symbols(v) & away for v in vals):
        return None
    atoms, seen, work = [], set(), [c for c, v in lv]
    while work:
        e = work.pop()
        if e.get_id() in seen or z3.is_true(e) or z3.is_false(e):
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if e.sort() == B and e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or \
                e.decl().kind() == z3.Z3_OP_ITE or (z3.is_eq(e) and e.arg(0).sort() == B):
            work.extend(c for c in e.children() if c.sort() == B)
        elif e.sort() == B and not symbols(e) & away:
            atoms.append(e)
    atoms = sorted(dedup(atoms), key=lambda e: e.get_id())
    if len(atoms) > 10:
        return None
    budget = [60]

    def go(path, rest):
        for v in vals:
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if cx.prove(hyps + path, F == v, 500):
                return v
        for n, t in enumerate(rest):
            if cx.prove(hyps + path, t, 200) or cx.prove(hyps + path, Not(t), 200):
                continue
            x = go(path + [t], rest[n + 1:])
            y = go(path + [Not(t)], rest[n + 1:]) if x is not None else None
            return If(t, x, y) if y is not None else None
        return None
    return go([], atoms)


def dedup(xs):
    out = []
    for x in xs:
        if not any(x.eq(y) for y in out):
            out.append(x)
    return out


def apps_of(e, name):
    out, seen, work = [], set(), [e]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == name and not has_var(x):
            out.append(x)
        work.extend(x.children())
    return out


def has_var(e):
    work, seen = [e], set()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        work.extend(x.children())
    return False


def shifted_bits(cx, k, bs, F, accname, ie, e0, b0, P, mk):
    """A word shifted by a constant in every round, zeros or (from below) ones coming in."""
    b = bs[-1]
    us = dedup(apps_of(F, accname))
    if len(us) != 1:
        return None
    u = us[0]
    c = simp(u.arg(u.num_args() - 1) - b)
    if not z3.is_int_value(c) or any(not x.eq(y) for x, y in zip(u.children()[:-1], bs[:-1])):
        return None
    c = c.as_long()
    sh = cx.cur_width
    inr = lambda t: And(t >= 0, t < sh)
    at = lambda t: z3.substitute(e0, *[(x, y) for x, y in zip(b0, list(bs[:-1]) + [t])])
    far = b + c * k
    for G, GG in ((FALSE, FALSE), (b < -c, b < -c * k)) if c < 0 else ((FALSE, FALSE),):
        if P(Implies(inr(b), F == Or(G, And(inr(b + c), u)))):
            return mk(simp(Or(GG, And(inr(far), at(far)))))
    return None


def guarded_push(cx, st, k, bs, F, a, ie, G, val, hyps, closed, key, init, mods, mk):
    """at(i) = ite(g(k) && i == n_k, v(k), at(i)) where n_k = n_0 + CNT_g(k)."""
    r, p = key
    base = p[:p.index('[]')]
    nk = (r, base + '.n')
    if nk not in closed or nk not in init or init[nk][0]:
        return None
    b = bs[0]
    n = closed[nk](k, [])
    n1 = closed[nk](k + 1, [])
    n0 = init[nk][1]
    g = simp(z3.substitute(G, (b, n)))
    if occurs(g, b):
        return None
    if not cx.prove(hyps, G == And(g, b == n), 1500):
        return None
    info = cx.models.fold_info(cx, simp(n - n0), k)
    if info is None:
        return None
    sel, axs = cx.models.select_fun(cx, st, info)
    v2 = z3.substitute(val, (b, n))
    if is_zero(n0):     # positions below zero do not exist
        return (lambda kk, xs: z3.substitute(v2, *([(k, sel(xs[0]))] + [(x, y) for x, y in zip(bs[1:], xs[1:])]))), axs
    e = lambda kk, xs: If(xs[0] < n0, z3.substitute(ie, *[(x, y) for x, y in zip(bs, xs)]),
                          z3.substitute(v2, *([(k, sel(xs[0] - n0))] + [(x, y) for x, y in zip(bs[1:], xs[1:])])))
    return e, axs


def concat(cx, st, k, bs, F, a, ie, G, val, hyps, closed, key, init):
    """at(i) = ite(n_k <= i, v(k, i), at(i)): iteration k appends the piece of positions n_k .. n_{k+1}."""
    r, p = key
    nk = (r, p[:p.index('[]')] + '.n')
    if nk not in closed or nk not in init or init[nk][0]:
        return None
    b = bs[0]
    n, n1, n0 = closed[nk](k, []), closed[nk](k + 1, []), init[nk][1]
    if not z3.is_app(simp(n)) or simp(n).decl().kind() != z3.Z3_OP_UNINTERPRETED or not is_zero(n0):
        return None
    if not cx.prove(hyps, And(n1 >= n, Implies(b < n, Not(G)), Implies(And(b >= n, b < n1), G)), 1500):
        return None
    ps = [q for q in cx.params if not q.eq(k)]
    ch = z3.Function('PIECE!' + simp(n).decl().name(), *[q.sort() for q in ps], I, I)
    c = ch(*ps, b)
    N = lambda kk: simp(z3.substitute(n, (k, kk)))
    d = frozenset([ch.name()])
    # the piece that position b lies in (the lengths start at 0 and do not decrease, so there is exactly one)
    axs = [(ForAll(ps + [b, k], Implies(And(b >= 0, k >= 0, b < N(k)), And(c >= 0, c < k, N(c) <= b, b < N(c + 1))),
                   [z3.MultiPattern(c, N(k))]), d),
           (ForAll(ps + [b, k], Implies(And(k >= 0, N(k) <= b, b < N(k + 1)), c == k), [z3.MultiPattern(c, N(k))]), d)]

    def f(kk, xs):
        return z3.substitute(val, (k, ch(*ps, xs[0])), *[(x, y) for x, y in zip(bs, xs)])
    return f, axs


def ite_leaves(e, cond=None, out=None, depth=0):
    if out is None:
        out, cond = [], TRUE
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and depth < 12:
        ite_leaves(e.arg(1), And(cond, e.arg(0)), out, depth + 1)
        ite_leaves(e.arg(2), And(cond, Not(e.arg(0))), out, depth + 1)
    else:
        out.append((cond, e))
    return out


def ex(j, body):
    """exists j. body, with the one-point rule j == t."""
    t = one_point(body, j)
    if t is not None:
        return simp(z3.substitute(body, (j, t)))
    return z3.Exists([j], body)


def fa(j, body):
    if z3.is_true(body):
        return body
    return z3.ForAll([j], body)


def conjuncts(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += conjuncts(c)
        return out
    return [e]


def one_point(body, j):
    for c in conjuncts(body):
        if z3.is_eq(c) and c.arg(0).sort() == I:
            l, r = c.children()
            for d in (simp(j - (l - r)), simp(j + (l - r))):
                if not occurs(d, j):
                    return d
    return None


def offsets(F, b, k):
    """off such that an equality in F says b == k + off."""
    out = [iv(0)]
    seen = set()
    work = [F]
    while work:
        e = work.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_eq(e) and e.arg(0).sort() == I:
            d = simp(e.arg(0) - e.arg(1))
            if occurs(d, b) and occurs(d, k):
                for o in (simp(b - k - d), simp(b - k + d)):
                    if not occurs(o, b) and not occurs(o, k) and not any(o.eq(x) for x in out):
                        out.append(o)
        work.extend(e.children())
    return out
