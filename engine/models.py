"""Contracts assumed for library functions (std, rayon, ahash, itertools...). Everything here is trusted."""
import re
import hashlib
import z3
import mir
from mir import Ty, Callee, INTS
from vals import *
from exec import (St, Skip, Impure, Frame, occurs, decl_name, symbols, bitf, WIDTH, head, is_zero, same_value)

HS = usort('HState')


def one(st, v):
    return [(st, v)]


# ------------------------------------------------------------------ iterators
def length(cx, st, it):
    k = it.src[0]
    if k in ('seq', 'ptrs'):
        return it.src[1]
    if k in ('map', 'filter', 'fmap', 'enum', 'cloned', 'rev'):
        return length(cx, st, it.src[1])
    if k == 'zip':
        a, b = rest(cx, st, it.src[1]), rest(cx, st, it.src[2])
        return If(a <= b, a, b)
    if k == 'take':
        n = length(cx, st, it.src[1])
        return If(n <= it.src[2], n, it.src[2])
    if k == 'chain':
        return rest(cx, st, it.src[1]) + rest(cx, st, it.src[2])
    if k == 'skip':
        n = length(cx, st, it.src[1])
        return If(n >= it.src[2], n - it.src[2], iv(0))
    return None


def rest(cx, st, it):
    n = length(cx, st, it)
    return n if is_zero(it.pos) else n - it.pos


def shift(it, k):
    return k if is_zero(it.pos) else it.pos + k


def filtered(it):
    k = it.src[0]
    if k in ('filter', 'fmap'):
        return True
    return any(filtered(x) for x in it.src[1:] if isinstance(x, Iter))


def ordered(cx, st, it):
    """Replace unordered sources by an (arbitrary) enumeration."""
    k = it.src[0]
    if k == 'set' and len(it.src) > 3:
        n, e = enumerate_bag(cx, st, keysort(it.src[2]), it.src[1].mem)
        sh = it.src[2]
        return Iter(('seq', n, memo(lambda i: cx.unkey(st, sh, e(i)))), it.pos)
    if k == 'set':
        n, e = enumerate_keys(cx, st, it.src[2].ksort if hasattr(it.src[2], 'ksort') else keysort(it.src[2]),
                              it.src[1].mem)
        sh = it.src[2]
        return Iter(('seq', n, memo(lambda i: cx.unkey(st, sh, e(i)))), it.pos)
    if k == 'mapkv':
        m, kind, sh, ptr = it.src[1], it.src[2], it.src[3], it.src[4]
        n, e = enumerate_keys(cx, st, keysort(sh), m.has)

        def at(i):
            kk = e(i)
            val = Ptr(ptr.root, list(ptr.path) + [('map', kk)]) if kind in ('kvmut', 'valmut') else m.get(kk)
            if kind == 'keys':
                return cx.unkey(st, sh, kk)
            if kind in ('values', 'valmut'):
                return val
            return Tup([cx.unkey(st, sh, kk), val])
        return Iter(('seq', n, memo(at)), it.pos)
    new = [k]
    ch = False
    for x in it.src[1:]:
        if isinstance(x, Iter):
            y = ordered(cx, st, x)
            ch = ch or y is not x
            new.append(y)
        else:
            new.append(x)
    return Iter(tuple(new), it.pos) if ch else it


def enumerate_keys(cx, st, ks, mem):
    nf = cx.func(st, 'en', [], I)
    n = nf()
    e = cx.func(st, 'enum', [I], ks)
    p = cx.func(st, 'rank', [ks], I)
    i, x = gensym('i', I), gensym('x', ks)
    d = [nf.decl.name(), e.decl.name(), p.decl.name()]
    cx.axiom(st, And(n >= 0, n < 2**63), defs=d, guard=False)
    cx.axiom(st, Implies(And(i >= 0, i < n), And(mem(e(i)), p(e(i)) == i)), [i], [[e(i)]], d, guard=False)
    cx.axiom(st, Implies(mem(x), And(p(x) >= 0, p(x) < n, e(p(x)) == x)), [x], [[p(x)]], d, guard=False)
    note(cx, 'rank', p.decl, ks)
    if getattr(cx, 'on_enum', None):
        cx.on_enum(cx, st, mem, n, e, p)
    return n, e


def enumerate_bag(cx, st, ks, mem):
    """Listing of a container whose repetitions and order are not known."""
    nf = cx.func(st, 'en', [], I)
    n = nf()
    e = cx.func(st, 'enum', [I], ks)
    p = cx.func(st, 'rank', [ks], I)
    i, x = gensym('i', I), gensym('x', ks)
    d = [nf.decl.name(), e.decl.name(), p.decl.name()]
    cx.axiom(st, And(n >= 0, n < 2**63), defs=d, guard=False)
    cx.axiom(st, Implies(And(i >= 0, i < n), mem(e(i))), [i], [[e(i)]], d, guard=False)
    cx.axiom(st, Implies(mem(x), And(p(x) >= 0, p(x) < n, e(p(x)) == x)), [x], [[p(x)]], d, guard=False)
    note(cx, 'rank', p.decl, ks)
    return n, e


def note(cx, kind, decl, ks=None):
    d = cx.__dict__.setdefault('notes', {})
    d[decl.name()] = (kind, decl, ks)


def hints(cx, x, params=()):
    """Ground terms for the places where element x can appear in enumerations, selections and sorted copies.
    They are given to the solver as arguments of an otherwise unused predicate."""
    def apps(d, last):
        ps = [d.domain(i) for i in range(d.arity() - 1)]
        opts = [[p for p in params if p.sort() == s] for s in ps]
        if not all(opts):
            return []
        return [d(*[o[0] for o in opts], last)]
    ns = list(cx.__dict__.get('notes', {}).values())
    lvl = [t for k, d, ks in ns if k == 'rank' and ks == x.sort() for t in apps(d, x)]
    if x.sort() == I:
        lvl = lvl + [x]
    out = list(lvl)
    for kind in ('sum', 'perm', 'sum', 'perm'):
        new = [t for y in lvl for k, d, ks in ns if k == kind for t in apps(d, y)]
        lvl = lvl + new if len(lvl) + len(new) < 40 else lvl
        out = lvl
    H = z3.Function('HINT', I, B)
    return [H(t) for t in out]


def base_unordered(it):
    k = it.src[0]
    if k in ('set', 'mapkv'):
        return it
    if k in ('map', 'filter', 'fmap', 'cloned'):
        return base_unordered(it.src[1])
    return None


def pull(cx, st, it, k):
    """Item number k (or, for unordered sources, the item of element k): outs of (state, Option value)."""
    s = it.src
    kind = s[0]
    kk = shift(it, k)
    if kind == 'seq':
        return [(st, some(s[2](kk)))]
    if kind == 'ptrs':
        return [(st, some(Ptr(s[2], list(s[3]) + [('idx', kk)])))]
    if kind == 'set':
        return [(st, some(cx.unkey(st, s[2], k)))]
    if kind == 'mapkv':
        m, kd, sh, ptr = s[1], s[2], s[3], s[4]
        key = cx.unkey(st, sh, k)
        if kd == 'keys':
            return [(st, some(key))]
        v = Ptr(ptr.root, list(ptr.path) + [('map', k)]) if kd in ('kvmut', 'valmut') else m.get(k)
        return [(st, some(v if kd in ('values', 'valmut') else Tup([key, v])))]
    if kind in ('cloned',):
        return [(s2, map_opt(o, lambda v: cx.deref(s2, v))) for s2, o in pull(cx, st, s[1], kk)]
    if kind == 'rev':
        n = length(cx, st, s[1])
        return pull(cx, st, s[1], n - 1 - kk)
    if kind == 'take':
        return pull(cx, st, s[1], kk)
    if kind == 'skip':
        return pull(cx, st, s[1], kk + s[2])
    if kind == 'enum':
        if filtered(s[1]):
            raise Unsupported('enumerate after filter')
        return [(s2, map_opt(o, lambda v: Tup([kk, v]))) for s2, o in pull(cx, st, s[1], kk)]
    if kind == 'zip':
        if filtered(s[1]) or filtered(s[2]):
            raise Unsupported('zip of a filtered iterator')
        res = []
        for s1, a in pull(cx, st, s[1], kk):
            for s2, b in pull(cx, s1, s[2], kk):
                res.append((s2, some(Tup([a.alts[1][0], b.alts[1][0]]))))
        return res
    if kind in ('map', 'filter', 'fmap'):
        res = []
        for s1, o in pull(cx, st, s[1], kk if not base_unordered(it) else k):
            branches = split_opt(cx, s1, o)
            for s2, v in branches:
                if v is None:
                    res.append((s2, none()))
                    continue
                if kind == 'filter':
                    for s3, cnd in cx.call_closure(s2, s[2], [v]):
                        cnd = simp(cnd)
                        res.append((s3, some(v) if z3.is_true(cnd) else opt(cnd, v)))
                else:
                    for s3, w in cx.call_closure(s2, s[2], [v]):
                        res.append((s3, some(w) if kind == 'map' else w))
        return res
    raise Unsupported('iterator ' + kind)


def map_opt(o, f):
    return Enum(o.tag, {i: [f(x) for x in a] for i, a in o.alts.items()}, 'Option')


def split_opt(cx, st, o):
    """[(state, value or None)] for an Option value."""
    t = simp(o.tag)
    if z3.is_int_value(t):
        return [(st, o.alts[1][0] if t.as_long() == 1 else None)]
    out = []
    for val in (1, 0):
        c = simp(t == val)
        if cx.feasible(st, c):
            s = st.copy()
            s.branch(c)
            s.trace += 'o%d' % val
            out.append((s, o.alts[1][0] if val == 1 else None))
    if len(out) == 1:
        out[0][0].trace = st.trace
    return out


def char_iter(indices):
    """Characters of a (valid UTF-8) text: one for each byte that does not continue a character."""
    def f(cx, fr, st, c, args, atys):
        s = cx.deref(st, args[0])
        chr_ = z3.Function('char_at', s.arr.sort(), I, I)
        at = lambda i: Tup([i, chr_(s.arr, simp(s.off + i))])
        it = Iter(('filter', Iter(('seq', s.n, memo(at))), lambda p: Or(s.at(p.f[0]) < 128, s.at(p.f[0]) >= 192)))
        return it if indices else Iter(('map', it, lambda p: p.f[1]))
    return f


class Items:
    """Generic description of the items of a pure pipeline: variable, domain, guard, value."""

    def __init__(self, g, dom, guard, val, n, unordered):
        self.g, self.dom, self.guard, self.val, self.n, self.unordered = g, dom, guard, val, n, unordered

    def at(self, i):
        return subst(self.val, [(self.g, i)])

    def guard_at(self, i):
        return z3.substitute(self.guard, (self.g, i))

    def dom_at(self, i):
        return z3.substitute(self.dom, (self.g, i))


def items(cx, st, it, order=False, dups=False):
    """dups: the consumer does not depend on how often an item occurs."""
    if not order:
        b = base_unordered(it)
        if b is not None and (dups or len(b.src) != 4):
            sh = b.src[2] if b.src[0] == 'set' else b.src[3]
            mem = b.src[1].mem if b.src[0] == 'set' else b.src[1].has
            g = z3.Const('g!' + cx.symname(st, 'elt'), keysort(sh))
            dom = mem(g)
            v = cx.at_generic(st, g, [dom], lambda s: pull(cx, s, it, g))
            return Items(g, dom, simp(v.tag == 1), v.alts.get(1, [UNDEF])[0], None, True)
    it = ordered(cx, st, it)
    n = rest(cx, st, it)
    if n is None:
        raise Unsupported('iterator without length')
    g = z3.Int('g!' + cx.symname(st, 'ix'))
    dom = And(g >= 0, g < n)
    v = cx.at_generic(st, g, [dom], lambda s: pull(cx, s, it, g))
    return Items(g, dom, simp(v.tag == 1), v.alts.get(1, [UNDEF])[0], n, False)


def collect_seq(cx, st, im):
    """Ordered items as a sequence."""
    if z3.is_true(im.guard):
        return Seq(im.n, im.at)
    k = im.g
    S, axs = fold_sum(cx, st, k, [], If(im.guard, iv(1), iv(0)), st.conds(), cx.symname(st, 'collect'), plain=True)
    cx.axioms.extend(axs)
    info = fold_info(cx, S(k, []), k)
    sel, axs = select_fun(cx, st, info)
    cx.axioms.extend(axs)
    # instances at the end
    return Seq(S(im.n, []), lambda i: im.at(sel(i)))


# ------------------------------------------------------------------ folds
def app_args(cx, k, bs):
    return list(cx.params) + list(bs) + [k]


class Fold:
    pass


def fold_sum(cx, st, k, bs, c, hyps, name, plain=False):
    """S(k) = sum_{j<k} c(j). Returns callable(kexpr, binders), axioms."""
    for known in getattr(cx, 'known_folds', []) if not plain else ():
        r = known(cx, st, k, bs, c, hyps)
        if r is not None:
            return r, []
    ps = [p for p in cx.params if not p.eq(k)]
    # named by content: folds with the same step are the same fold
    vs = ps + list(bs) + [k]
    canon = tuple(z3.Const('cv%d' % i, v.sort()) for i, v in enumerate(vs))
    ckey = (tuple(str(v.sort()) for v in vs), z3.substitute(c, *zip(vs, canon)).sexpr())
    nm = 'SUM!' + hashlib.sha1(repr(ckey).encode()).hexdigest()[:12]
    reg = cx.__dict__.setdefault('fold_canon', {})
    here = z3.substitute(c, *zip(vs, canon)) if vs else c
    for (sorts, _), (nm2, c2) in list(reg.items()):
        # the same step written differently (over all parameter values, from no hypotheses but k >= 0)
        if nm2 != nm and sorts == ckey[0] and ckey not in reg and cx.prove([canon[-1] >= 0], here == c2, 500):
            nm = nm2
            break
    reg.setdefault(ckey, (nm, here))
    nm = reg[ckey][0]
    f = z3.Function(nm, *[v.sort() for v in vs], I)
    info = Fold()
    info.f, info.ps, info.bs, info.k, info.c = f, ps, list(bs), k, c
    info.guard = None
    cs = simp(c)
    if cs.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(cs.arg(1)) and z3.is_int_value(cs.arg(2)) and \
            (cs.arg(1).as_long(), cs.arg(2).as_long()) in ((1, 0), (0, 1)):
        info.guard = cs.arg(0) if cs.arg(1).as_long() == 1 else Not(cs.arg(0))
    cx.__dict__.setdefault('foldreg', {})[nm] = info
    F = lambda kk, xs: f(*ps, *xs, kk)
    if info.guard is not None:
        note(cx, 'sum', f)
    q = ps + list(bs)
    m = gensym('m', I)
    d = frozenset([nm])
    axs = [(ForAll(q, F(iv(0), bs) == 0, [F(iv(0), bs)]) if q else F(iv(0), bs) == 0, d),
           (ForAll(q + [k, m], Implies(And(k >= 0, m == k + 1), F(m, bs) == F(k, bs) + c),
                   [z3.MultiPattern(F(k, bs), F(m, bs))]), d)]
    if info.guard is not None:
        axs.append((ForAll(q + [k], Implies(k >= 0, And(F(k, bs) >= 0, F(k, bs) <= k)), [F(k, bs)]), d))
        axs.append((ForAll(q + [k, m], Implies(And(k >= 0, k <= m), And(F(k, bs) <= F(m, bs), F(m, bs) - F(k, bs) <= m - k)),
                           [z3.MultiPattern(F(k, bs), F(m, bs))]), d))
        axs.append((ForAll(q + [k, m], Implies(And(k >= 0, k < m, info.guard), F(k, bs) < F(m, bs)),
                           [z3.MultiPattern(F(k, bs), F(m, bs))]), d))
    else:
        # sums of steps within bounds (induction on the number of steps; w is a step out of bounds, if there is one)
        for n_, (lo, hi) in enumerate(getattr(cx, 'sum_bounds', [])):
            w = z3.Function('%s!out%d' % (nm, n_), *[v.sort() for v in vs], I)
            wk = w(*q, k)
            cw = z3.substitute(c, (k, wk))
            axs.append((ForAll(q + [k], Implies(k >= 0, Or(And(F(k, bs) >= lo * k, F(k, bs) <= hi * k),
                                                           And(wk >= 0, wk < k, Or(cw < lo, cw > hi)))), [F(k, bs)]), d))
    return F, axs


def spec_fold(cx, st, k, guard, n, bs=(), hyps=()):
    """Number of true guards below n (per bs) and their positions, as a specification; related to every fold of the code
    whose step agrees with it below n (induction: both start at 0 and take equal steps)."""
    bs = list(bs)
    S, axs = fold_sum(cx, st, k, bs, simp(If(guard, iv(1), iv(0))), [], 'spec', plain=True)
    info = fold_info(cx, S(k, bs), k)
    sel, axs2 = select_fun(cx, st, info)
    cx.axioms.extend(axs + axs2 + (count_facts(cx, st, info) if bs else []))
    relate_folds(cx, st, k, bs, info.c, lambda t: S(t, bs), n, hyps, skip=info.f.name(), sel=sel)
    return (lambda t, xs=bs: S(t, xs)), sel


def relate_folds(cx, st, k, bs, step, val, n, hyps=(), skip=None, sel=None, hints=()):
    """Folds of the code whose step is `step` below n have the value val(k) for k <= n, given val(0) = 0 and
    val(k+1) = val(k) + step (which is proved here as well)."""
    hs = st.conds() + list(hyps) + list(hints)
    if not skip and not (cx.prove(hs, val(iv(0)) == 0, 1500) and cx.prove(hs + [k >= 0, k < n], val(k + 1) == val(k) + step, 1500)):
        return 0
    hit = 0
    for nm, i2 in list(cx.foldreg.items()):
        if nm == skip or i2.ps or [b.sort() for b in i2.bs] != [b.sort() for b in bs]:
            continue
        c2 = z3.substitute(i2.c, (i2.k, k), *zip(i2.bs, bs))
        if cx.prove(hs + [k >= 0, k < n], c2 == step, 1500):
            hit += 1
            f2 = i2.f(*bs, k)
            cx.axiom(st, Implies(And(k >= 0, k <= n, *hyps), f2 == val(k)), bs + [k], [[f2]], [nm])
            if sel is not None and not bs and i2.guard is not None:
                sel2, _ = select_fun(cx, st, i2)
                cx.axiom(st, Implies(And(k >= 0, k < val(n), *hyps), sel2(k) == sel(k)), [k], [[sel2(k)]], [nm])
    return hit


def fold_info(cx, e, k):
    e = simp(e)
    if not z3.is_app(e):
        return None
    info = cx.__dict__.get('foldreg', {}).get(e.decl().name())
    if info is None or info.guard is None:
        return None
    if not e.arg(e.num_args() - 1).eq(k) and not z3.is_const(e.arg(e.num_args() - 1)):
        return None
    return info


def select_fun(cx, st, info):
    """sel(i): position of the i-th true guard. (Existence: counting argument, see DESIGN.)"""
    ps, bs, k = info.ps, info.bs, info.k
    nm = 'SEL' + info.f.name()[3:]
    f = z3.Function(nm, *[v.sort() for v in ps + bs], I, I)
    S = lambda kk: info.f(*ps, *bs, kk)
    sel = lambda i: f(*ps, *bs, i)
    i, m = gensym('i', I), gensym('m', I)
    q = ps + bs
    d = frozenset([nm])
    g = lambda e: z3.substitute(info.guard, (k, e))
    axs = [(ForAll(q + [i, m], Implies(And(i >= 0, m >= 0, i < S(m)),
                                       And(sel(i) >= 0, sel(i) < m, g(sel(i)), S(sel(i)) == i)),
                   [z3.MultiPattern(sel(i), S(m))]), d),
           (ForAll(q + [k], Implies(And(k >= 0, info.guard), sel(S(k)) == k), [S(k)]), d)]
    # every true guard below m has its rank below S(m)
    gp = guard_pattern(info.guard, k, q)
    axs.append((ForAll(q + [k, m], Implies(And(k >= 0, k < m, info.guard), And(S(k) >= 0, S(k) < S(m), sel(S(k)) == k)),
                       [z3.MultiPattern(S(m), *gp)] if gp else None), d))
    return sel, axs


def count_facts(cx, st, info):
    """A count is positive exactly when something was counted."""
    sel, _ = select_fun(cx, st, info)
    q, k, m = info.ps + info.bs, info.k, gensym('m', I)
    S = lambda kk: info.f(*q, kk)
    d = frozenset([info.f.name()])
    first = And(sel(iv(0)) >= 0, sel(iv(0)) < k, z3.substitute(info.guard, (k, sel(iv(0)))))
    axs = [(ForAll(q + [k], Implies(S(k) > 0, first), [S(k)]), d)]
    gp = guard_pattern(info.guard, k, q)
    axs.append((ForAll(q + [k, m], Implies(And(k >= 0, k < m, info.guard), S(m) > 0), [z3.MultiPattern(S(m), *gp)] if gp else None), d))
    return axs


def guard_pattern(g, k, q):
    """Uninterpreted applications in g that mention k, usable as a trigger."""
    out = []
    seen = set()
    work = [g]
    while work:
        e = work.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.num_args() > 0 and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and \
                any(x.eq(k) for x in e.children()):
            return [e]
        work.extend(e.children())
    return []


def last_index(cx, st, k, bs, G, name):
    """L(k) = greatest j < k with G(j), or -1."""
    ps = [p for p in cx.params if not p.eq(k)]
    # named by content: the last position of the same kind is the same position
    vs = ps + list(bs) + [k]
    canon = tuple(z3.Const('cv%d' % i, v.sort()) for i, v in enumerate(vs))
    here = simp(z3.substitute(G, *zip(vs, canon)))
    ckey = (tuple(str(v.sort()) for v in vs), here.sexpr())
    nm = 'LAST!' + hashlib.sha1(repr(ckey).encode()).hexdigest()[:12]
    same = cx.__dict__.setdefault('last_canon', {})
    for (sorts, _), (nm2, g2) in list(same.items()):
        if nm2 != nm and sorts == ckey[0] and ckey not in same and cx.prove([canon[-1] >= 0], here == g2, 500):
            nm = nm2
            break
    same.setdefault(ckey, (nm, here))
    nm = same[ckey][0]
    f = z3.Function(nm, *[v.sort() for v in ps + list(bs)], I, I)
    L = lambda kk, xs: f(*ps, *xs, kk)
    q = ps + list(bs)
    d = frozenset([nm])
    j = gensym('j', I)
    gat = lambda e: z3.substitute(G, (k, e))
    Lk = L(k, bs)
    axs = [(ForAll(q + [k], Implies(k >= 0, And(Lk >= -1, Or(Lk < k, Lk == -1), Implies(Lk >= 0, gat(Lk)))), [Lk]), d)]
    gp = guard_pattern(gat(j), j, q)
    axs.append((ForAll(q + [k, j], Implies(And(k >= 0, j > Lk, j >= 0, j < k), Not(gat(j))),
                       [z3.MultiPattern(Lk, *gp)] if gp else None), d))
    # induction helper and comparison with other last-index functions of the same type
    m = gensym('m', I)
    Lm = L(m, bs)
    axs.append((ForAll(q + [k, m], Implies(And(k >= 0, m == k + 1), Lm == If(G, k, Lk)), [z3.MultiPattern(Lk, Lm)]), d))
    reg = cx.__dict__.setdefault('lastreg', [])
    sig = [str(v.sort()) for v in q]
    for (nm2, f2, sig2, q2n, G2) in reg:
        if nm2 != nm and sig2 == sig:
            L2 = lambda kk: f2(*q, kk)
            axs.append((ForAll(q + [k, m], Implies(And(k >= 0, L2(m) > Lk, L2(m) < k, L2(m) >= 0), Not(gat(L2(m)))),
                               [z3.MultiPattern(Lk, L2(m))]), d))
            g2 = lambda e: z3.substitute(z3.substitute(G2[0], *[(a, b) for a, b in zip(G2[2], q)]) if q else G2[0],
                                         (G2[1], e))
            axs.append((ForAll(q + [k, m], Implies(And(m >= 0, Lk > L2(m), Lk < m, Lk >= 0), Not(g2(Lk))),
                               [z3.MultiPattern(Lk, L2(m))]), d))
    reg[:] = [x for x in reg if x[0] != nm]
    reg.append((nm, f, sig, len(q), (G, k, list(q))))
    return L, axs


def extreme(cx, st, k, bs, c, ie, least, name):
    """M(k) = least (or greatest) of the initial value and c(0), .., c(k-1). (Existence: induction on k.)"""
    ps = [p for p in cx.params if not p.eq(k)]
    q = ps + list(bs)
    nm = ('MIN!' if least else 'MAX!') + name.replace('acc!', '')
    f = z3.Function(nm, *[v.sort() for v in q], I, c.sort())
    w = z3.Function(nm + '!at', *[v.sort() for v in q], I, I)
    M, Wt = (lambda kk, xs: f(*ps, *xs, kk)), w(*q, k)
    le = (lambda x, y: x <= y) if least else (lambda x, y: x >= y)
    cat = lambda e: z3.substitute(c, (k, e))
    d = frozenset([nm])
    j, m = gensym('j', I), gensym('m', I)
    Mk, Mm = M(k, bs), M(m, bs)
    axs = [(ForAll(q, M(iv(0), bs) == ie, [M(iv(0), bs)]) if q else M(iv(0), bs) == ie, d),
           (ForAll(q + [k], Implies(k >= 0, And(le(Mk, ie), Or(Mk == ie, And(Wt >= 0, Wt < k, Mk == cat(Wt))))), [Mk]), d),
           (ForAll(q + [k, m], Implies(And(k >= 0, m == k + 1), Mm == If(le(Mk, c), Mk, c)), [z3.MultiPattern(Mk, Mm)]), d)]
    gp = guard_pattern(cat(j) == cat(j), j, q)
    axs.append((ForAll(q + [k, j], Implies(And(j >= 0, j < k), le(Mk, cat(j))), [z3.MultiPattern(Mk, *gp)] if gp else None), d))
    return M, axs


def special_fold(cx, st, k, bs, F, a, ie, hyps, mk, name):
    for h in getattr(cx, 'special_folds', []):
        r = h(cx, st, k, bs, F, a, ie, hyps, mk, name)
        if r is not None:
            return r
    return None


def run_loop(cx, st, it, body, tag):
    """for item in it { body } as a loop; body(state, item) -> outs of (state, _). Returns exit states."""
    root = 'it.' + cx.symname(st, 'iter')
    st = st.copy()
    st.roots[root] = ordered(cx, st, it)
    st.types[root] = Sh('iter', elt=None)

    def step(s, k):
        out = []
        for s2, o in next_item(cx, s, Ptr(root, [])):
            if o is None:
                out.append(('exit', s2, None))
                continue
            for s3, v in split_opt(cx, s2, o):
                if v is None:
                    out.append(('cont', s3))
                else:
                    for s4, r in body(s3, v):
                        if r == 'break':
                            out.append(('exit', s4, 'break'))
                        else:
                            out.append(('cont', s4))
        return out
    res = cx.loops.summarise(cx, st, step, tag)
    outs = []
    for o in res:
        o[1].roots.pop(root, None)
        outs.append((o[1], o[2] if len(o) > 2 else None))
    return outs


def next_item(cx, st, ptr):
    it = cx.deref(st, ptr)
    n = length(cx, st, it)
    if n is None:
        raise Unsupported('next on %s' % it.src[0])
    c = simp(it.pos < n)
    out = []
    if cx.feasible(st, Not(c)):
        s = st.copy()
        s.branch(simp(Not(c)))
        s.trace += 'x'
        out.append((s, None))
    if cx.feasible(st, c):
        s = st.copy()
        s.branch(c)
        s.trace += 'n'
        cx.write(s, ptr.root, ptr.path, Iter(it.src, it.pos + 1))
        for s2, o in pull(cx, s, Iter(it.src, iv(0)), it.pos):
            out.append((s2, o))
    return out


# ------------------------------------------------------------------ hashing
def h_init(seed):
    return z3.Function('hinit_' + str(seed.sort()), seed.sort(), HS)(seed)


def h_fin(cx, h):
    f = z3.Function('hfin', HS, I)
    if 'hfin' not in cx.axkeys:
        cx.axkeys.add('hfin')
        x = z3.Const('x', HS)
        cx.axioms.append((z3.ForAll([x], And(f(x) >= 0, f(x) < 2**64), patterns=[f(x)]), frozenset(['hfin'])))
    return f(h)


def h_slice(cx, h, a, o, n):
    es = a.sort().range()
    f = z3.Function('hslice_' + str(es), HS, z3.ArraySort(I, es), I, I, HS)
    nm = 'hslice:' + str(es)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x = z3.Const('x', HS)
        A, C = z3.Consts('A C', z3.ArraySort(I, es))
        p, q, m = z3.Ints('p q m')
        w = z3.Function('hsdiff_' + str(es), z3.ArraySort(I, es), I, z3.ArraySort(I, es), I, I, I)
        W = w(A, p, C, q, m)
        # the hash of a slice is a function of its content
        cx.axioms.append((z3.ForAll([x, A, C, p, q, m],
                                    Or(f(x, A, p, m) == f(x, C, q, m),
                                       And(W >= 0, W < m, z3.Select(A, p + W) != z3.Select(C, q + W))),
                                    patterns=[z3.MultiPattern(f(x, A, p, m), f(x, C, q, m))]), frozenset([f.name()])))
    return f(h, a, o, n)


def hash_value(cx, st, h, v):
    v = cx.deref(st, v)
    if is_scalar(v):
        return z3.Function('hscalar_' + str(v.sort()), HS, v.sort(), HS)(h, v)
    if isinstance(v, Seq):
        a, o = cx.arr_of(st, v)
        return h_slice(cx, h, a, o, v.n)
    if isinstance(v, Tup):
        for x in v.f:
            h = hash_value(cx, st, h, x)
        return h
    raise Unsupported('hash of %s' % type(v).__name__)


# ------------------------------------------------------------------ bit operations (abstract bit-vector sorts)
def bits_op(cx, st, name, a, b):
    s = a.sort()
    f = bitf(s)
    g = z3.Function('b%s_%s' % (name, s), s, b.sort(), s)
    nm = 'bits:%s:%s' % (name, s)
    bits_ext(cx, s)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x, i = z3.Const('x', s), z3.Int('i')
        y = z3.Const('y', b.sort())
        t = g(x, y)
        W = WIDTH(s)
        rhs = {'and': lambda: And(f(x, i), f(y, i)), 'or': lambda: Or(f(x, i), f(y, i)),
               'xor': lambda: f(x, i) != f(y, i),
               'shl': lambda: And(i >= y, f(x, i - y)), 'shr': lambda: And(i + y < W, f(x, i + y))}[name]()
        cx.axioms.append((z3.ForAll([x, y, i], Implies(And(i >= 0, i < W), f(t, i) == rhs), patterns=[f(t, i)]),
                          frozenset([g.name()])))
        if name == 'and' and getattr(cx, 'bits_atomic', False):
            cx.axioms.append((z3.ForAll([x, y], t == g(y, x), patterns=[t]), frozenset([g.name()])))
    return g(a, b)


def bits_ext(cx, s):
    nm = 'bitsext:%s' % s
    if nm in cx.axkeys:
        return
    cx.axkeys.add(nm)
    f = bitf(s)
    x, y, i = z3.Const('x', s), z3.Const('y', s), z3.Int('i')
    W = WIDTH(s)
    d = z3.Function('bitdiff_%s' % s, s, s, I)
    # the implementers of SimHashBits have 64 and 128 bits (their bit_length is under contract, P15)
    cx.axioms.append((W >= 64, frozenset([f.name(), W.decl().name()])))
    cx.axioms.append((W <= 2**20, frozenset([f.name(), W.decl().name()])))


BITDEF = {}


def bit_of(e, p):
    """Bit p (within the width) of e, with known operations unfolded."""
    s = e.sort()
    nm = e.decl().name() if z3.is_app(e) else ''
    if nm == 'bzero_%s' % s:
        return FALSE
    if nm == 'bone_%s' % s:
        return p == 0
    if nm in BITDEF:
        canon, i, body = BITDEF[nm]
        return z3.substitute(body, (i, p), *zip(canon, e.children()))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return If(e.arg(0), bit_of(e.arg(1), p), bit_of(e.arg(2), p))
    op = nm[:-len('_%s' % s)] if nm.endswith('_%s' % s) else ''
    if op == 'band':
        return And(bit_of(e.arg(0), p), bit_of(e.arg(1), p))
    if op == 'bor':
        return Or(bit_of(e.arg(0), p), bit_of(e.arg(1), p))
    if op == 'bxor':
        return bit_of(e.arg(0), p) != bit_of(e.arg(1), p)
    if op == 'bnot':
        return Not(bit_of(e.arg(0), p))
    if op == 'bshl':
        return And(p >= e.arg(1), bit_of(e.arg(0), simp(p - e.arg(1))))
    if op == 'bshr':
        q = simp(p + e.arg(1))
        return And(q < WIDTH(s), bit_of(e.arg(0), q))
    return bitf(s)(e, p)


def bit_support(e):
    """Positions outside which e surely has no bit; None if that is not evident."""
    s = e.sort()
    nm = e.decl().name() if z3.is_app(e) else ''
    if nm == 'bzero_%s' % s:
        return []
    if nm == 'bone_%s' % s:
        return [iv(0)]
    if nm == 'bshl_%s' % s:
        q = bit_support(e.arg(0))
        return None if q is None else [simp(x + e.arg(1)) for x in q]
    if nm == 'band_%s' % s:
        x, y = bit_support(e.arg(0)), bit_support(e.arg(1))
        return x if y is None or (x is not None and len(x) <= len(y)) else y
    return None


def bits_const(cx, s, name):
    """The values zero and one."""
    bits_ext(cx, s)
    c = z3.Const('b%s_%s' % (name, s), s)
    nm = 'bits:%s:%s' % (name, s)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        i = z3.Int('i')
        f = bitf(s)
        cx.axioms.append((z3.ForAll([i], Implies(And(i >= 0, i < WIDTH(s)), f(c, i) == (FALSE if name == 'zero' else i == 0)),
                                    patterns=[f(c, i)]), frozenset([c.decl().name()])))
    return c


def g_bits_const(name):
    def h(cx, fr, st, c, args, atys):
        t = mir.parse_type(str(c.self_ty))
        sh = cx.shape(t, fr.sub if fr else None)
        if sh.kind == 'bits':
            return bits_const(cx, sh.sort, name)
        if sh.kind == 'scalar' and sh.sort == I:
            return iv(0 if name == 'zero' else 1)
        if sh.kind == 'scalar':
            return z3.Const('%s_%s' % (name, sh.sort), sh.sort)
        raise Unsupported('%s of %s' % (name, t))
    return h


def bits_eq(cx, st, a, b):
    """Equality decided by the bits."""
    s = a.sort()
    bits_ext(cx, s)
    x, y = bit_support(a), bit_support(b)
    if x is not None and y is not None:
        return And([Implies(And(p >= 0, p < WIDTH(s)), bit_of(a, p) == bit_of(b, p)) for p in x + y])
    f = bitf(s)
    i = gensym('i', I)
    return ForAll([i], Implies(And(i >= 0, i < WIDTH(s)), f(a, i) == f(b, i)))


def bits_binop(cx, st, op, a, b):
    nm = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'Shl': 'shl', 'Shr': 'shr'}.get(op)
    if nm is None:
        raise Unsupported('op %s on %s' % (op, a.sort()))
    if nm in ('shl', 'shr'):
        cx.oblige(st, 'shift amount below the width', And(b >= 0, b < WIDTH(a.sort())), 'panic')
    return bits_op(cx, st, nm, a, b)


def bits_cast(cx, st, v, tn):
    raise Unsupported('cast of bits to %s' % tn)


def ibit(w):
    """Bit i of a w-bit machine integer."""
    return z3.Function('ibit_%d' % w, I, I, B)


def ibits_ext(cx, w):
    nm = 'ibits:%d' % w
    if nm in cx.axkeys:
        return
    cx.axkeys.add(nm)
    f = ibit(w)
    x, y = z3.Ints('x y')
    d = z3.Function('ibitdiff_%d' % w, I, I, I)
    k = d(x, y)
    rng = lambda t: And(t >= 0, t < 2**w)
    sym = frozenset([f.name()])
    # two integers of the type with the same bits are equal: stated for pairs that are compared bit by bit (pop of a xor)
    X = z3.Function('ixor_%d' % w, I, I, I)
    cx.axioms.append((z3.ForAll([x, y], Implies(And(rng(x), rng(y), x != y), And(k >= 0, k < w, f(x, k) != f(y, k))),
                                patterns=[X(x, y)]), sym))
    cx.axioms.append((And(*[Not(f(iv(0), iv(i))) for i in range(w)]), sym))


def low_zeros(t, w):
    """A number of low bits of t that are zero by its form (at most w; w means t is zero)."""
    if z3.is_int_value(t):
        v = t.as_long()
        return w if v == 0 else min(w, (v & -v).bit_length() - 1)
    if z3.is_mul(t):
        return min(w - 1, sum(low_zeros(c, w) for c in t.children()))
    if z3.is_add(t):
        return min(low_zeros(c, w) for c in t.children())
    if z3.is_mod(t):
        return min(low_zeros(c, w) for c in t.children())
    return 0


def int_bitop(cx, st, op, a, b, tn):
    w = mir.BITS[tn]
    if tn.startswith('i'):
        raise Unsupported('bit operation on a signed integer')
    if op in ('Shl', 'Shr'):
        b = simp(b)
        if z3.is_int_value(b):
            n = b.as_long()
            if op == 'Shl':
                return (a * (1 << n)) % (1 << w)
            return a / (1 << n)
    a, b = simp(a), simp(b)
    if op == 'BitAnd':
        for x, y in ((a, b), (b, a)):
            if z3.is_int_value(y) and y.as_long() & (y.as_long() + 1) == 0:
                return x % (y.as_long() + 1)
    if op in ('BitOr', 'BitXor'):
        for x, y in ((a, b), (b, a)):
            n = low_zeros(x, w)
            if n == w:
                return y
            if n > 0 and cx.prove(list(st.conds()), And(y >= 0, y < (1 << n)), 1000):
                return simp(x + y)                  # no bit in common
    ibits_ext(cx, w)
    f = ibit(w)
    nm = {'BitAnd': 'iand', 'BitOr': 'ior', 'BitXor': 'ixor', 'Shl': 'ishl', 'Shr': 'ishr'}[op] + '_%d' % w
    g = z3.Function(nm, I, I, I)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x, y, i = z3.Ints('x y i')
        t = g(x, y)
        rhs = {'BitAnd': lambda: And(f(x, i), f(y, i)), 'BitOr': lambda: Or(f(x, i), f(y, i)),
               'BitXor': lambda: f(x, i) != f(y, i),
               'Shl': lambda: And(i >= y, f(x, i - y)), 'Shr': lambda: And(i + y < w, f(x, i + y))}[op]()
        sym = frozenset([nm])
        cx.axioms.append((z3.ForAll([x, y, i], Implies(And(i >= 0, i < w), f(t, i) == rhs), patterns=[f(t, i)]), sym))
        cx.axioms.append((z3.ForAll([x, y], And(t >= 0, t < 2**w), patterns=[t]), sym))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            lim = {'BitAnd': lambda: And(t <= x, t <= y), 'BitOr': lambda: And(t >= x, t >= y, t <= x + y), 'BitXor': lambda: t <= x + y}[op]()
            cx.axioms.append((z3.ForAll([x, y], Implies(And(x >= 0, x < 2**w, y >= 0, y < 2**w), lim), patterns=[t]), sym))
    return g(a, b)


def int_not(cx, st, a, tn):
    w = mir.BITS[tn]
    if tn.startswith('i'):
        raise Unsupported('bit operation on a signed integer')
    ibits_ext(cx, w)
    nm = 'inot_%d' % w
    g = z3.Function(nm, I, I)
    f = ibit(w)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x, i = z3.Ints('x i')
        t = g(x)
        cx.axioms.append((z3.ForAll([x, i], Implies(And(i >= 0, i < w), f(t, i) == Not(f(x, i))), patterns=[f(t, i)]),
                          frozenset([nm])))
        cx.axioms.append((z3.ForAll([x], And(t >= 0, t < 2**w), patterns=[t]), frozenset([nm])))
    return g(simp(a))


def int_pop(cx, st, a, w):
    """Number of one bits of a w-bit integer."""
    ibits_ext(cx, w)
    nm = 'ipop_%d' % w
    g = z3.Function(nm, I, I)
    f = ibit(w)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x = z3.Int('x')
        t = g(x)
        cx.axioms.append((z3.ForAll([x], t == z3.Sum([If(f(x, iv(i)), iv(1), iv(0)) for i in range(w)]), patterns=[t]),
                          frozenset([nm])))
        # the count is a function of the bits: equal counts, or a bit that differs
        y = z3.Int('y')
        k = z3.Function('ipopdiff_%d' % w, I, I, I)(x, y)
        cx.axioms.append((z3.ForAll([x, y], Or(g(x) == g(y), And(k >= 0, k < w, f(x, k) != f(y, k))),
                                    patterns=[z3.MultiPattern(g(x), g(y))]), frozenset([nm])))
    return g(simp(a))


def scalar_type(cx, c, aty):
    """Name of the integer type a method is called on."""
    for t in (owner_of(c), str(c.self_ty or ''), head(aty) if aty is not None else ''):
        t = str(t).strip().lstrip('&').strip()
        if t in mir.BITS:
            return t
    return None


def deref_ty(t):
    while t is not None and t.k == 'ref':
        t = t.args[0]
    return t


def g_bitop(op, assign=False):
    def h(cx, fr, st, c, args, atys):
        a = cx.deref(st, args[0])
        b = cx.deref(st, args[1])
        t = deref_ty(atys[0])
        tn = scalar_type(cx, c, t)
        if a.sort() == I and tn is None:
            raise Unsupported('operator on unknown integer type ' + c.raw)
        r = cx.binop(fr, st, op, a, b, mir.parse_type(tn) if tn else t, None)
        if isinstance(r, Tup):
            cx.oblige(st, 'no overflow in ' + op, Not(r.f[1]), 'panic')
            r = r.f[0]
        if assign:
            cx.write(st, args[0].root, args[0].path, r)
            return UNIT
        return r
    return h


def g_not(cx, fr, st, c, args, atys):
    a = cx.deref(st, args[0])
    if a.sort() == B:
        return Not(a)
    tn = scalar_type(cx, c, deref_ty(atys[0]))
    return int_not(cx, st, a, tn) if a.sort() == I else bits_not(cx, st, a)


def bits_not(cx, st, a):
    s = a.sort()
    f, g = bitf(s), z3.Function('bnot_%s' % s, s, s)
    nm = 'bits:not:%s' % s
    bits_ext(cx, s)
    if nm not in cx.axkeys:
        cx.axkeys.add(nm)
        x, i = z3.Const('x', s), z3.Int('i')
        cx.axioms.append((z3.ForAll([x, i], Implies(And(i >= 0, i < WIDTH(s)), f(g(x), i) == Not(f(x, i))),
                                    patterns=[f(g(x), i)]), frozenset([g.name()])))
    return g(a)


def g_count_ones(cx, fr, st, c, args, atys):
    a = cx.deref(st, args[0])
    tn = scalar_type(cx, c, deref_ty(atys[0]))
    if tn is None or a.sort() != I:
        raise Unsupported('count_ones of ' + c.raw)
    return int_pop(cx, st, a, mir.BITS[tn])


# ------------------------------------------------------------------ dispatch
SEQ = {'Vec', 'SmallVec', 'VecDeque', 'slice', 'array'}
SET = {'HashSet', 'AHashSet', 'BTreeSet'}
MAP = {'HashMap', 'AHashMap', 'BTreeMap'}
ITER_TRAITS = {'Iterator', 'ParallelIterator', 'IndexedParallelIterator', 'Itertools', 'DoubleEndedIterator',
               'ExactSizeIterator', 'IntoIterator', 'IntoParallelIterator', 'IntoParallelRefIterator',
               'IntoParallelRefMutIterator'}


def abstract_receiver(cx, c, args):
    """Trait call on an abstract value that has its own model."""
    return bool(args) and isinstance(args[0], (Bag,)) or \
        (bool(args) and isinstance(args[0], Ptr) and c.trait == 'IdContainer' and c.self_ty == 'C') or \
        (c.trait == 'IdContainer' and c.self_ty == 'C')


def owner_of(c):
    if c.trait:
        return c.trait
    o = c.owner
    if o.startswith('<impl ['):
        return 'slice'
    if o.startswith('<impl '):
        return o[6:-1]
    return o


def panic_unless(cx, st, name, cond):
    cx.oblige(st, 'no panic: ' + name, Or(cond, cx.panic_ok), 'panic')
    st.fact(simp(cond))


def as_iter(cx, st, v, aty):
    """IntoIterator::into_iter / iter / iter_mut / par_iter."""
    if isinstance(v, Ptr):
        tgt = cx.deref(st, v)
        if isinstance(tgt, Seq):
            return Iter(('ptrs', tgt.n, v.root, v.path))
        if isinstance(tgt, MapV):
            return Iter(('mapkv', tgt, 'kvmut', key_shape(cx, tgt, aty), v))
        if isinstance(tgt, Iter):
            raise Unsupported('iterating a borrowed iterator')
        v = tgt
    if isinstance(v, Iter):
        return v
    if isinstance(v, Seq):
        return Iter(('seq', v.n, v.at))
    if isinstance(v, SetV):
        return Iter(('set', v, key_shape(cx, v, aty)))
    if isinstance(v, Bag):
        return Iter(('set', SetV(v.mem), sh_u(str(cx.bag_ksort)), 'bag'))
    if isinstance(v, MapV):
        return Iter(('mapkv', v, 'kv', key_shape(cx, v, aty), None))
    if isinstance(v, Tup) and v.name == 'Range':
        lo, hi = v.f
        n = If(hi >= lo, hi - lo, iv(0))
        if is_zero(simp(lo)):
            n = hi
        return Iter(('seq', n, memo(lambda i: simp(lo + i))))
    if isinstance(v, Tup) and v.name == 'RangeInclusive':
        lo, hi = v.f[0], v.f[1]
        n = If(hi >= lo, hi - lo + 1, iv(0))
        return Iter(('seq', n, memo(lambda i: simp(lo + i))))
    if isinstance(v, Enum) and v.name == 'Option':
        return Iter(('seq', v.tag, memo(lambda i: v.alts[1][0])))
    raise Unsupported('iterator over %s' % type(v).__name__)


def key_shape(cx, v, aty):
    if isinstance(v, MapV) and isinstance(v.kty, Sh):
        return v.kty
    if aty is not None:
        sh = cx.shape(aty)
        if sh.kind == 'ptr':
            sh = cx.shape(sh.inner)
        if sh.kind in ('set', 'map'):
            return sh.key
    raise Unsupported('unknown key type')


def ordering(a, b):
    return Enum(If(a < b, iv(-1), If(a == b, iv(0), iv(1))), {}, 'Ordering')


def ctype(c, i=0):
    return mir.parse_type(c.margs[i]) if len(c.margs) > i else None


def cmp_values(cx, st, a, b):
    a, b = cx.deref(st, a), cx.deref(st, b)
    if is_scalar(a) and a.sort() in (I, R):
        return ordering(a, b)
    if is_scalar(a):
        # total order on an opaque sort
        f = z3.Function('ord_' + str(a.sort()), a.sort(), I)
        return ordering(f(a), f(b))
    if isinstance(a, Tup) and len(a.f) > 0:
        r = cmp_values(cx, st, a.f[-1], b.f[-1])
        for x, y in list(zip(a.f, b.f))[-2::-1]:
            o = cmp_values(cx, st, x, y)
            r = Enum(If(o.tag != 0, o.tag, r.tag), {}, 'Ordering')
        return r
    raise Unsupported('ordering of %s' % type(a).__name__)


def call(cx, fr, st, c, args, atys, b=None, lim=None):
    own, m = owner_of(c), c.method
    cx.models_used.add(own + '::' + m)
    for h in getattr(cx, 'extra_models', []):
        r = h(cx, fr, st, c, own, m, args, atys)
        if r is not None:
            return r
    f = None
    if own in ITER_TRAITS:
        f = ITER.get(m)
        if f:
            return f(cx, fr, st, c, args, atys, b, lim)
    if own in SEQ or own in ('Vec', 'SmallVec'):
        f = SEQM.get(m)
        if args and isinstance(cx.deref(st, args[0]), Bag):
            f = BAGM.get(m)
            if f is None:
                raise Unsupported('%s on a container whose order is not known' % m)
    elif own in SET:
        f = SETM.get(m)
    elif own in MAP:
        f = MAPM.get(m)
    elif own == 'Option':
        f = OPTM.get(m)
    elif own == 'Result':
        f = RESM.get(m)
    if f is None:
        f = GEN.get(own + '::' + m) or GEN.get('*::' + m)
    if f is None and own in ('ParallelSlice', 'ParallelSliceMut', 'SliceRandom'):
        f = SEQM.get(m)
    if f is None:
        raise Unsupported('no model for %s' % c.raw)
    r = f(cx, fr, st, c, args, atys)
    return r if isinstance(r, list) else [(st, r)]


# ---- iterator methods
def it_arg(cx, st, v, aty=None):
    if isinstance(v, Ptr):
        t = cx.deref(st, v)
        if isinstance(t, Iter):
            return t
    return as_iter(cx, st, v, aty)


def _next(cx, fr, st, c, args, atys, b, lim):
    ptr = args[0]
    if not isinstance(ptr, Ptr):
        raise Unsupported('next on a value')
    while isinstance(cx.read(st, ptr.root, ptr.path), Ptr):
        ptr = cx.read(st, ptr.root, ptr.path)
    it = cx.deref(st, ptr)
    if not isinstance(it, Iter):
        raise Unsupported('next on %s' % type(it).__name__)
    if base_unordered(it) is not None:
        it = ordered(cx, st, it)
        cx.write(st, ptr.root, ptr.path, it)
    if filtered(it) and not (lim and b == lim[0]):
        # materialise the pure pipeline
        im = items(cx, st, it, order=True)
        s = collect_seq(cx, st, im)
        cx.write(st, ptr.root, ptr.path, Iter(('seq', s.n, s.at)))
    outs, skips = [], []
    for s, o in next_item(cx, st, ptr):
        if o is None:
            outs.append((s, none()))
            continue
        for s2, v in split_opt(cx, s, o):
            if v is None:
                skips.append(s2)
            else:
                outs.append((s2, some(v)))
    if skips:
        raise Skip(outs, skips)
    return outs


def leaves(v, vs):
    """Uninterpreted applications within a value that mention all of vs."""
    if isinstance(v, Tup):
        return [t for x in v.f for t in leaves(x, vs)]
    if isinstance(v, Enum):
        return [t for a in v.alts.values() for x in a for t in leaves(x, vs)]
    if is_scalar(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(any(c.eq(x) for c in v.children()) for x in vs):
        return [v]
    return []


def flattened(cx, st, it):
    """The items of the items, one after the other."""
    im = items(cx, st, it, order=True)
    if not z3.is_true(im.guard):
        raise Unsupported('flattening filtered items')
    v = im.val
    if isinstance(v, Iter):
        v = cx.at_generic(st, im.g, [im.dom], lambda s: [(s, collect_seq(cx, s, items(cx, s, v, order=True)))])
    else:
        v = cx.deref(st, v)
    if not isinstance(v, Seq):
        raise Unsupported('flattening %s' % type(v).__name__)
    sq = lambda k: subst(v, [(im.g, k)])
    N, out, inn, pos = cx.func(st, 'flatlen', [], I)(), cx.func(st, 'flatouter', [I], I), cx.func(st, 'flatinner', [I], I), cx.func(st, 'flatpos', [I, I], I)
    k, j, p = gensym('k', I), gensym('j', I), gensym('p', I)
    d = [out.decl.name(), inn.decl.name(), pos.decl.name(), N.decl().name()]
    cx.axiom(st, N >= 0, defs=d, guard=False)
    cx.axiom(st, Implies(And(p >= 0, p < N), And(out(p) >= 0, out(p) < im.n, inn(p) >= 0, inn(p) < sq(out(p)).n, pos(out(p), inn(p)) == p)),
             [p], [[out(p)], [inn(p)]], d)
    cx.axiom(st, Implies(And(k >= 0, k < im.n, j >= 0, j < sq(k).n), And(pos(k, j) >= 0, pos(k, j) < N, out(pos(k, j)) == k, inn(pos(k, j)) == j)),
             [k, j], [[pos(k, j)]] + [[t] for t in leaves(sq(k).at(j), (k, j))], d)
    q = gensym('q', I)
    cx.axiom(st, Implies(And(p >= 0, p < q, q < N), And(out(p) <= out(q), Implies(out(p) == out(q), inn(p) < inn(q)))), [p, q], [[out(p), out(q)]], d)
    return Seq(N, lambda i: sq(out(i)).at(inn(i))), (out, inn, pos)


def _flat(kind):
    def f(cx, fr, st, c, args, atys, b, lim):
        it = it_arg(cx, st, args[0], atys[0])
        sq, _ = flattened(cx, st, it if kind == 'flatten' else Iter(('map', it, args[1])))
        return one(st, Iter(('seq', sq.n, sq.at)))
    return f


def _stage(kind):
    def f(cx, fr, st, c, args, atys, b, lim):
        it = it_arg(cx, st, args[0], atys[0])
        if kind == 'enum':
            if filtered(it):
                sq = collect_seq(cx, st, items(cx, st, it, order=True))
                it = Iter(('seq', sq.n, sq.at))
            return one(st, Iter(('enum', it)))
        if kind == 'cloned':
            return one(st, Iter(('cloned', it)))
        if kind == 'zip':
            return one(st, Iter(('zip', it, as_iter(cx, st, args[1], atys[1]))))
        if kind in ('take', 'skip'):
            if filtered(it):
                im = items(cx, st, it, order=True)
                s = collect_seq(cx, st, im)
                it = Iter(('seq', s.n, s.at))
            return one(st, Iter((kind, ordered(cx, st, it), args[1])))
        if kind == 'rev':
            return one(st, Iter(('rev', it)))
        return one(st, Iter((kind, it, args[1])))
    return f


def _ident(cx, fr, st, c, args, atys, b, lim):
    return one(st, it_arg(cx, st, args[0], atys[0]))


def _into_iter(cx, fr, st, c, args, atys, b, lim):
    return one(st, as_iter(cx, st, args[0], atys[0]))


def _combinations(cx, fr, st, c, args, atys, b, lim):
    """Every choice of r items, in the order of the items, exactly once (itertools)."""
    im = items(cx, st, it_arg(cx, st, args[0], atys[0]), order=True)
    src = collect_seq(cx, st, im)
    r = args[1]
    M = cx.fresh(st, 'ncomb', I)
    ar = z3.ArraySort(I, I)
    cf = cx.func(st, 'comb', [I, I], I)
    rk = cx.func(st, 'combrank', [ar], I)
    w1, w2 = cx.func(st, 'combw', [ar], I), cx.func(st, 'combv', [ar], I)
    m, j, j2 = gensym('m', I), gensym('j', I), gensym('j', I)
    a = gensym('a', ar)
    d = [decl_name(M), cf.decl.name(), rk.decl.name()]
    n = src.n
    cx.axiom(st, And(M >= 0, M < 2**63, Implies(r <= n, M >= 1)), defs=d, guard=False)
    ok = lambda x, y: And(x >= 0, x < M, y >= 0, y < r)
    cx.axiom(st, Implies(ok(m, j), And(cf(m, j) >= 0, cf(m, j) < n)), [m, j], [[cf(m, j)]], d, guard=False)
    cx.axiom(st, Implies(And(ok(m, j2), j >= 0, j < j2), cf(m, j) < cf(m, j2)), [m, j, j2], [[cf(m, j), cf(m, j2)]], d, guard=False)
    R, A, C = rk(a), w1(a), w2(a)
    bad = And(A >= 0, A < r, Or(a[A] < 0, a[A] >= n, And(C > A, C < r, a[A] >= a[C])))
    cx.axiom(st, Or(bad, And(R >= 0, R < M)), [a], [[R]], d, guard=False)
    cx.axiom(st, Or(bad, Not(And(j >= 0, j < r)), cf(R, j) == a[j]), [a, j], [[cf(R, j)]], d, guard=False)
    cx.__dict__.setdefault('combs', []).append((src, r, M, cf, rk))
    return one(st, Iter(('seq', M, memo(lambda i: Seq(r, lambda t: src.at(cf(i, t)))))))


def _for_each(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    outs = run_loop(cx, st, it, lambda s, v: [(s2, None) for s2, _ in cx.call_closure(s, args[1], [v])], 'for_each')
    return [(s, UNIT) for s, _ in outs]


def target_type(cx, fr, c):
    t = ctype(c)
    return mir_head(t), t


def mir_head(t):
    return head(t) if t is not None else None


def collect_to(cx, fr, st, it, t):
    h = mir_head(t)
    if h in SET:
        return [(st, set_from(cx, st, it))]
    if h in MAP:
        return collect_map(cx, fr, st, it, t)
    try:
        im = items(cx, st, it, order=True)
        return [(st, collect_seq(cx, st, im))]
    except Impure:
        return collect_impure(cx, fr, st, it, t)


def collect_impure(cx, fr, st, it, t):
    root = 'acc.' + cx.symname(st, 'collect')
    st = st.copy()
    st.roots[root] = Seq(0, lambda i: UNDEF)
    from exec import subst_ty
    st.types[root] = subst_ty(t, fr.sub)

    def body(s, v):
        push(cx, s, Ptr(root, []), v)
        return [(s, None)]
    outs = run_loop(cx, st, it, body, 'collect')
    return [(s, s.roots.pop(root)) for s, _ in outs]


def collect_map(cx, fr, st, it, t):
    root = 'acc.' + cx.symname(st, 'collectmap')
    st = st.copy()
    from exec import subst_ty
    st.types[root] = subst_ty(t, fr.sub)
    sh = cx.shape(st.types[root])
    st.roots[root] = MapV(lambda x: FALSE, lambda x: UNDEF, sh.key)

    def body(s, v):
        map_insert(cx, s, Ptr(root, []), v.f[0], v.f[1])
        return [(s, None)]
    outs = run_loop(cx, st, it, body, 'collectmap')
    return [(s, s.roots.pop(root)) for s, _ in outs]


def set_from(cx, st, it, base=None):
    im = items(cx, st, it, dups=True)
    v = cx.key(st, cx.deref(st, im.val)) if not isinstance(im.val, Undef) else None
    g = im.g
    old = base.mem if base is not None else (lambda x: FALSE)
    if v is None:
        return base or SetV(lambda x: FALSE)
    if v.eq(g):
        return SetV(lambda x: Or(old(x), z3.substitute(And(im.dom, im.guard), (g, x))))
    q = gensym('q', g.sort())
    body = z3.substitute(And(im.dom, im.guard), (g, q))
    vq = z3.substitute(v, (g, q))
    return SetV(lambda x: Or(old(x), z3.Exists([q], And(body, vq == x))))


def _collect(cx, fr, st, c, args, atys, b, lim):
    return collect_to(cx, fr, st, it_arg(cx, st, args[0], atys[0]), ctype(c))


def _collect_vec(cx, fr, st, c, args, atys, b, lim):
    return collect_to(cx, fr, st, it_arg(cx, st, args[0], atys[0]), mir.parse_type('Vec<U>'))


def _unzip(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    ta, tb = ctype(c, 2), ctype(c, 3)
    try:
        im = items(cx, st, it, order=True)
        s = collect_seq(cx, st, im)
        return one(st, Tup([Seq(s.n, lambda i: s.at(i).f[0]), Seq(s.n, lambda i: s.at(i).f[1])]))
    except Impure:
        pass
    st = st.copy()
    ra, rb = 'acc.' + cx.symname(st, 'ua'), 'acc.' + cx.symname(st, 'ub')
    from exec import subst_ty
    for r, t in ((ra, ta), (rb, tb)):
        st.roots[r] = Seq(0, lambda i: UNDEF)
        st.types[r] = subst_ty(t, fr.sub)

    def body(s, v):
        push(cx, s, Ptr(ra, []), v.f[0])
        push(cx, s, Ptr(rb, []), v.f[1])
        return [(s, None)]
    outs = run_loop(cx, st, it, body, 'unzip')
    return [(s, Tup([s.roots.pop(ra), s.roots.pop(rb)])) for s, _ in outs]


def _sum(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    im = items(cx, st, it, order=True)
    v = cx.deref(st, im.val)
    if v.sort() != I:
        raise Unsupported('sum of %s' % v.sort())
    step = If(im.guard, v, iv(0))
    S, axs = fold_sum(cx, st, im.g, [], simp(step), st.conds() + [im.dom], cx.symname(st, 'sum'))
    cx.axioms.extend(axs)
    e = S(im.n, [])
    t = ctype(c)
    tn = mir_head(t)
    if tn in INTS:
        lo, hi = int_range(tn)
        panic_unless(cx, st, 'sum overflows', And(e >= lo, e <= hi))
    return one(st, e)


def _count(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    bu = base_unordered(it)
    im = items(cx, st, it)
    if im.unordered:
        return one(st, cx.card(st, im.g.sort(), lambda x: z3.substitute(And(im.dom, im.guard), (im.g, x))))
    if z3.is_true(im.guard):
        return one(st, im.n)
    S, axs = fold_sum(cx, st, im.g, [], If(im.guard, iv(1), iv(0)), st.conds(), cx.symname(st, 'count'))
    cx.axioms.extend(axs)
    return one(st, S(im.n, []))


def cmp_items(cx, st, im, clo, key=None):
    """cmp(g1, g2) as an expression over two copies of the generic variable; plus total-preorder obligations."""
    g = im.g
    g1, g2, g3 = (z3.Const('%s~%d' % (g, n), g.sort()) for n in (1, 2, 3))
    d1, d2 = And(im.dom_at(g1), im.guard_at(g1)), And(im.dom_at(g2), im.guard_at(g2))

    def ev(s):
        a, b2 = im.at(g1), im.at(g2)
        if clo is None:
            return [(s, cmp_values(cx, s, a, b2))]
        if key:
            outs = []
            for s1, x in cx.call_closure(s, clo, [a]):
                for s2, y in cx.call_closure(s1, clo, [b2]):
                    outs.append((s2, cmp_values(cx, s2, x, y)))
            return outs
        return cx.call_closure(s, clo, [a, b2])
    cx.params.append(g2)
    try:
        v = cx.at_generic(st, g1, [d1, d2], ev)
    finally:
        cx.params.pop()
    t = v.tag
    f = lambda x, y: z3.substitute(t, (g1, x), (g2, y))
    d3 = And(im.dom_at(g3), im.guard_at(g3))
    cx.oblige(st, 'comparator is antisymmetric', Implies(And(d1, d2), And(Implies(f(g1, g2) > 0, f(g2, g1) < 0),
                                                                       Implies(f(g1, g2) < 0, f(g2, g1) > 0))), 'order')
    cx.oblige(st, 'comparator is transitive', Implies(And(d1, d2, d3, f(g1, g2) <= 0, f(g2, g3) <= 0), f(g1, g3) <= 0),
              'order')
    return f


def _best(sign, by, key=False):
    def h(cx, fr, st, c, args, atys, b, lim):
        it = it_arg(cx, st, args[0], atys[0])
        im = items(cx, st, it)
        cmp = cmp_items(cx, st, im, args[1] if by or key else None, key)
        g = im.g
        ok = lambda x: z3.substitute(And(im.dom, im.guard), (g, x))
        w = cx.func(st, 'best', [], g.sort())
        ne = cx.func(st, 'nonempty', [], B)
        W, NE = w(), ne()
        cx.__dict__.setdefault('bests', []).append((W, list(cx.params)))
        d = [w.decl.name(), ne.decl.name()]
        q = gensym('q', g.sort())
        cx.axiom(st, Implies(NE, ok(W)), defs=d, guard=False)
        cond = cmp(q, W) <= 0 if sign > 0 else cmp(q, W) >= 0
        cx.axiom(st, Implies(ok(q), And(NE, cond)), [q], None, d, guard=False)
        for vs, c2, t in witnesses(ok(q), q):
            # the same, for the ways an element comes about
            cx.axiom(st, Implies(c2, z3.substitute(And(NE, cond), (q, t))), vs, [[t]], d, guard=False)
        return one(st, opt(NE, im.at(W)))
    return h


def witnesses(p, q):
    """Cases (variables, condition, term) such that the condition implies p at q = term."""
    if z3.is_or(p):
        return [w for e in p.children() for w in witnesses(e, q)]
    cs = loops_conjuncts(p)
    for n, e in enumerate(cs):
        if z3.is_quantifier(e) and not e.is_forall():
            vs = [gensym('w', e.var_sort(i)) for i in range(e.num_vars())]
            body = z3.substitute_vars(e.body(), *vs[::-1])
            rest = cs[:n] + cs[n + 1:]
            for x in loops_conjuncts(body):
                if z3.is_eq(x):
                    for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if a.eq(q) and not occurs(b, q):
                            return [(vs, z3.substitute(And(body, *rest), (q, b)), b)]
    return []


def loops_conjuncts(e):
    return [y for x in e.children() for y in loops_conjuncts(x)] if z3.is_and(e) else [e]


def _position(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    it = ordered(cx, st, it)
    if filtered(it):
        im0 = items(cx, st, it, order=True)
        s0 = collect_seq(cx, st, im0)
        it = Iter(('seq', s0.n, s0.at))
    im = items(cx, st, Iter(('map', it, args[1])), order=True)
    P = im.val
    w = cx.func(st, 'pos', [], I)
    fd = cx.func(st, 'found', [], B)
    W, FD = w(), fd()
    q = gensym('q', I)
    d = [w.decl.name(), fd.decl.name()]
    pq = lambda e: z3.substitute(P, (im.g, e))
    cx.axiom(st, Implies(FD, And(W >= 0, W < im.n, pq(W))), defs=d, guard=False)
    cx.axiom(st, Implies(And(q >= 0, q < im.n, pq(q)), And(FD, W <= q)), [q], None, d, guard=False)
    if isinstance(args[0], Ptr) and isinstance(cx.deref(st, args[0]), Iter):
        p = args[0]
        while isinstance(cx.read(st, p.root, p.path), Ptr):
            p = cx.read(st, p.root, p.path)
        cx.write(st, p.root, p.path, Iter(it.src, If(FD, it.pos + W + 1, it.pos + im.n)))
    return one(st, opt(FD, W))


def _find(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    im = items(cx, st, Iter(('filter', it, args[1])), order=True)
    w = cx.func(st, 'pos', [], I)
    fd = cx.func(st, 'found', [], B)
    W, FD = w(), fd()
    q = gensym('q', I)
    d = [w.decl.name(), fd.decl.name()]
    cx.axiom(st, Implies(FD, And(im.dom_at(W), im.guard_at(W))), defs=d, guard=False)
    cx.axiom(st, Implies(And(im.dom_at(q), im.guard_at(q)), And(FD, W <= q)), [q], None, d, guard=False)
    return one(st, opt(FD, im.at(W)))


def _find_map(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    im = items(cx, st, Iter(('fmap', it, args[1])), order=True)
    w = cx.func(st, 'pos', [], I)
    fd = cx.func(st, 'found', [], B)
    W, FD = w(), fd()
    q = gensym('q', I)
    d = [w.decl.name(), fd.decl.name()]
    cx.axiom(st, Implies(FD, And(im.dom_at(W), im.guard_at(W))), defs=d, guard=False)
    cx.axiom(st, Implies(And(im.dom_at(q), im.guard_at(q)), And(FD, W <= q)), [q], None, d, guard=False)
    return one(st, opt(FD, im.at(W)))


def _anyall(all_):
    def h(cx, fr, st, c, args, atys, b, lim):
        it = it_arg(cx, st, args[0], atys[0])
        im = items(cx, st, Iter(('map', it, args[1])), dups=True)
        q = gensym('q', im.g.sort())
        ok = z3.substitute(And(im.dom, im.guard), (im.g, q))
        p = z3.substitute(im.val, (im.g, q))
        return one(st, ForAll([q], Implies(ok, p)) if all_ else z3.Exists([q], And(ok, p)))
    return h


def _last(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    im = items(cx, st, it, order=True)
    s = collect_seq(cx, st, im)
    return one(st, opt(s.n > 0, s.at(s.n - 1)))


def _fold(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    root = 'acc.' + cx.symname(st, 'fold')
    st = st.copy()
    st.roots[root] = args[1]
    st.types[root] = ctype(c) or atys[1]

    def body(s, v):
        return [(wr(cx, s2, root, r), None) for s2, r in cx.call_closure(s, args[2], [s.roots[root], v])]
    outs = run_loop(cx, st, it, body, 'fold')
    return [(s, s.roots.pop(root)) for s, _ in outs]


def select_items(cx, st, im, clo):
    """better(x, w): w is at least as good as x, where the closure picks one of its two arguments by a total preorder; or None."""
    g = im.g
    g1, g2, g3 = (z3.Const('%s~%d' % (g, n), g.sort()) for n in (1, 2, 3))
    ok = lambda x: And(im.dom_at(x), im.guard_at(x))

    def ev(s):
        a, b = im.at(g1), im.at(g2)
        outs = []
        for s2, r in cx.call_closure(s, clo, [a, b]):
            if same_value(r, b):
                outs.append((s2, TRUE))
            elif same_value(r, a):
                outs.append((s2, FALSE))
            elif is_scalar(r) and cx.prove(s2.conds(), Or(r == a, r == b), 1000):
                outs.append((s2, r != a))
            else:
                raise Unsupported('not a selection')
        return outs
    cx.params.append(g2)
    try:
        c = cx.at_generic(st, g1, [ok(g1), ok(g2)], ev)
    finally:
        cx.params.pop()
    pick = lambda x, y: z3.substitute(c, (g1, x), (g2, y))     # the second is taken
    better = lambda x, w: Or(Not(pick(w, x)), pick(x, w))
    hy = st.conds() + [ok(g1), ok(g2), ok(g3)]
    for goal in (Implies(pick(g1, g2), better(g1, g2)), Implies(Not(pick(g1, g2)), better(g2, g1)),
                 Implies(And(better(g1, g2), better(g2, g3)), better(g1, g3))):
        if not cx.prove(hy, goal, 3000):
            return None
    return better


def best_of(cx, st, im, cond):
    """Some item W such that cond(q, W) for every item q, if there is any item."""
    g = im.g
    ok = lambda x: z3.substitute(And(im.dom, im.guard), (g, x))
    w = cx.func(st, 'best', [], g.sort())
    ne = cx.func(st, 'nonempty', [], B)
    W, NE = w(), ne()
    cx.__dict__.setdefault('bests', []).append((W, list(cx.params)))
    d = [w.decl.name(), ne.decl.name()]
    q = gensym('q', g.sort())
    cx.axiom(st, Implies(NE, ok(W)), defs=d, guard=False)
    c = cond(q, W)
    cx.axiom(st, Implies(ok(q), And(NE, c)), [q], None, d, guard=False)
    for vs, c2, t in witnesses(ok(q), q):
        # the same, for the ways an element comes about
        cx.axiom(st, Implies(c2, z3.substitute(And(NE, c), (q, t))), vs, [[t]], d, guard=False)
    return opt(NE, im.at(W))


def _reduce(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    try:
        im = items(cx, st, it)
        better = select_items(cx, st, im, args[1])
        if better is not None:
            return one(st, best_of(cx, st, im, better))
    except (Impure, Unsupported):
        pass
    x = mat(cx, st, it)
    outs = []
    for s, v in split_opt(cx, st, opt(simp(x.n > 0), x.at(iv(0)))):
        if v is None:
            outs.append((s, none()))
            continue
        root = 'acc.' + cx.symname(s, 'reduce')
        s = s.copy()
        s.roots[root] = v
        f = cx.deref(s, args[1])
        fns = [g for g in (cx.crate.closure_of.get(f.name) or [])] if isinstance(f, Clo) else []
        if not fns:
            raise Unsupported('reduce by a function')
        s.types[root] = fns[0].args[1][1]

        def body(s1, w, root=root):
            return [(wr(cx, s2, root, r), None) for s2, r in cx.call_closure(s1, args[1], [s1.roots[root], w])]
        for s3, _ in run_loop(cx, s, seq_iter(simp(x.n - 1), lambda i: x.at(i + 1)), body, 'reduce'):
            outs.append((s3, opt(TRUE, s3.roots.pop(root))))
    return outs


def wr(cx, s, root, v):
    s.roots[root] = v
    return s


def _inspect_none(cx, fr, st, c, args, atys, b, lim):
    return one(st, it_arg(cx, st, args[0], atys[0]))


def _len_iter(cx, fr, st, c, args, atys, b, lim):
    it = it_arg(cx, st, args[0], atys[0])
    bu = base_unordered(it)
    if bu is not None:
        it = ordered(cx, st, it)
    return one(st, rest(cx, st, it))


def mat(cx, st, it):
    """The items in the order they come, as a sequence."""
    return collect_seq(cx, st, items(cx, st, it, order=True))


def seq_iter(n, at):
    return Iter(('seq', n, memo(at)))


def _chain(cx, fr, st, c, args, atys, b, lim):
    x = mat(cx, st, it_arg(cx, st, args[0], atys[0]))
    y = mat(cx, st, as_iter(cx, st, args[1], atys[1]))
    if z3.is_int_value(simp(y.n)) and simp(y.n).as_long() == 0:
        return one(st, seq_iter(x.n, x.at))
    if z3.is_int_value(simp(x.n)) and simp(x.n).as_long() == 0:
        return one(st, seq_iter(y.n, y.at))
    return one(st, seq_iter(simp(x.n + y.n), lambda i: ite(i < x.n, x.at(i), y.at(i - x.n))))


def _step_by(cx, fr, st, c, args, atys, b, lim):
    x = mat(cx, st, it_arg(cx, st, args[0], atys[0]))
    k = args[1]
    panic_unless(cx, st, 'step is not zero', k > 0)
    if not z3.is_int_value(simp(k)):
        raise Unsupported('step_by a variable')
    return one(st, seq_iter(simp((x.n + k - 1) / k), lambda i: x.at(i * k)))


def _while(skip):
    def h(cx, fr, st, c, args, atys, b, lim):
        x = mat(cx, st, it_arg(cx, st, args[0], atys[0]))
        im = items(cx, st, Iter(('filter', seq_iter(x.n, x.at), args[1])), order=True)
        w = cx.func(st, 'stop', [], I)
        W = w()
        q = gensym('q', I)
        d = [w.decl.name()]
        cx.axiom(st, And(W >= 0, W <= x.n, Implies(W < x.n, Not(im.guard_at(W)))), defs=d, guard=False)
        cx.axiom(st, Implies(And(q >= 0, q < W), im.guard_at(q)), [q], None, d, guard=False)
        if skip:
            return one(st, seq_iter(simp(x.n - W), lambda i: x.at(i + W)))
        return one(st, seq_iter(W, x.at))
    return h


def _nth(cx, fr, st, c, args, atys, b, lim):
    p = args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('nth on a value')
    x = mat(cx, st, it_arg(cx, st, p, atys[0]))
    while isinstance(cx.read(st, p.root, p.path), Ptr):
        p = cx.read(st, p.root, p.path)
    k = args[1]
    got = k < x.n
    cx.write(st, p.root, p.path, seq_iter(simp(If(got, x.n - k - 1, iv(0))), lambda i: x.at(i + k + 1)))
    return one(st, opt(got, x.at(k)))


def _partition(cx, fr, st, c, args, atys, b, lim):
    x = mat(cx, st, it_arg(cx, st, args[0], atys[0]))
    im = items(cx, st, Iter(('filter', seq_iter(x.n, x.at), args[1])), order=True)
    t = ctype(c)
    if t is not None and mir_head(t) not in ('Vec', None):
        raise Unsupported('partition into %s' % mir_head(t))
    no = Items(im.g, im.dom, simp(Not(im.guard)), im.val, im.n, False)
    return one(st, Tup([collect_seq(cx, st, im), collect_seq(cx, st, no)]))


ITER = {
    'chain': _chain, 'step_by': _step_by, 'take_while': _while(False), 'skip_while': _while(True), 'nth': _nth,
    'partition': _partition,
    'flat_map': _flat('flat_map'), 'flat_map_iter': _flat('flat_map'), 'flatten': _flat('flatten'), 'flatten_iter': _flat('flatten'),
    'next': _next, 'map': _stage('map'), 'filter': _stage('filter'), 'filter_map': _stage('fmap'),
    'enumerate': _stage('enum'), 'cloned': _stage('cloned'), 'copied': _stage('cloned'), 'zip': _stage('zip'),
    'take': _stage('take'), 'skip': _stage('skip'), 'rev': _stage('rev'),
    'into_iter': _into_iter, 'into_par_iter': _into_iter, 'par_iter': _into_iter, 'par_iter_mut': _into_iter,
    'by_ref': _ident, 'combinations': _combinations, 'for_each': _for_each, 'collect': _collect, 'collect_vec': _collect_vec, 'unzip': _unzip,
    'sum': _sum, 'count': _count,
    'max_by': _best(1, True), 'min_by': _best(-1, True), 'max': _best(1, False), 'min': _best(-1, False),
    'max_by_key': _best(1, False, True), 'min_by_key': _best(-1, False, True),
    'position': _position, 'find': _find, 'find_map': _find_map, 'any': _anyall(False), 'all': _anyall(True),
    'last': _last, 'fold': _fold, 'reduce': _reduce, 'len': _len_iter, 'with_min_len': _inspect_none, 'with_max_len': _inspect_none,
}


# ---- sequences
def push(cx, st, ptr, v):
    s = cx.deref(st, ptr)
    n = s.n
    while isinstance(cx.read(st, ptr.root, ptr.path), Ptr):
        ptr = cx.read(st, ptr.root, ptr.path)
    cx.write(st, ptr.root, ptr.path, Seq(simp(n + 1), lambda i: ite(i == n, v, s.at(i))))


def target(cx, st, ptr):
    if not isinstance(ptr, Ptr):
        raise Unsupported('mutation of a value')
    while isinstance(cx.read(st, ptr.root, ptr.path), Ptr):
        ptr = cx.read(st, ptr.root, ptr.path)
    return ptr, cx.read(st, ptr.root, ptr.path)


def s_push(cx, fr, st, c, args, atys):
    push(cx, st, args[0], args[1])
    return UNIT


def s_pop(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    cx.write(st, p.root, p.path, Seq(If(s.n > 0, s.n - 1, iv(0)), s.at, s.arr, s.off))
    return opt(s.n > 0, s.at(s.n - 1))


def s_extend(cx, st, ptr, add):
    p, s = target(cx, st, ptr)
    n = s.n
    cx.write(st, p.root, p.path, Seq(simp(n + add.n), lambda i: ite(i < n, s.at(i), add.at(i - n))))


def s_extend_from_slice(cx, fr, st, c, args, atys):
    s_extend(cx, st, args[0], cx.deref(st, args[1]))
    return UNIT


def s_append(cx, fr, st, c, args, atys):
    q, t = target(cx, st, args[1])
    s_extend(cx, st, args[0], t)
    cx.write(st, q.root, q.path, Seq(0, lambda i: UNDEF))
    return UNIT


def s_reverse(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    n, at = s.n, s.at
    rf = cx.func(st, 'reversed', [I], I)
    i = gensym('i', I)
    cx.axiom(st, And(rf(i) == n - 1 - i, rf(rf(i)) == i), [i], [[rf(i)]], [rf.decl.name()], guard=False)
    note(cx, 'perm', rf.decl)
    cx.write(st, p.root, p.path, Seq(n, lambda i: at(rf(i))))
    return UNIT


def s_clear(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    cx.write(st, p.root, p.path, Seq(0, lambda i: UNDEF))
    return UNIT


def s_truncate(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    cx.write(st, p.root, p.path, Seq(If(s.n <= args[1], s.n, args[1]), s.at, s.arr, s.off))
    return UNIT


def s_get(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    i = args[1]
    if isinstance(i, Tup):
        lo, hi = range_bounds(i, s.n)
        return opt(And(lo <= hi, hi <= s.n), subseq(s, lo, hi))
    return opt(And(i >= 0, i < s.n), s.at(i))


def s_get_mut(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    i = args[1]
    return opt(And(i >= 0, i < s.n), Ptr(p.root, list(p.path) + [('idx', i)]))


def s_first(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    return opt(s.n > 0, s.at(iv(0)))


def s_last(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    return opt(s.n > 0, s.at(s.n - 1))


def s_contains(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    x = cx.deref(st, args[1])
    q = gensym('q', I)
    return z3.Exists([q], And(q >= 0, q < s.n, cx.value_eq(st, s.at(q), x)))


def s_swap_remove(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    i = args[1]
    panic_unless(cx, st, 'swap_remove index', And(i >= 0, i < s.n))
    n = s.n
    cx.write(st, p.root, p.path, Seq(simp(n - 1), lambda j: ite(j == i, s.at(n - 1), s.at(j))))
    return s.at(i)


def s_remove(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    i = args[1]
    panic_unless(cx, st, 'remove index', And(i >= 0, i < s.n))
    cx.write(st, p.root, p.path, Seq(simp(s.n - 1), lambda j: ite(j >= i, s.at(j + 1), s.at(j))))
    return s.at(i)


def s_swap(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    i, j = args[1], args[2]
    panic_unless(cx, st, 'swap index', And(i >= 0, i < s.n, j >= 0, j < s.n))
    cx.write(st, p.root, p.path, Seq(s.n, lambda q: ite(q == i, s.at(j), ite(q == j, s.at(i), s.at(q)))))
    return UNIT


def s_sort(by, key=False):
    def h(cx, fr, st, c, args, atys):
        p, s = target(cx, st, args[0])
        g = z3.Int('g!' + cx.symname(st, 'sort'))
        im = Items(g, And(g >= 0, g < s.n), TRUE, s.at(g), s.n, False)
        cmp = cmp_items(cx, st, im, args[1] if by or key else None, key)
        pf = cx.func(st, 'perm', [I], I)
        qf = cx.func(st, 'perminv', [I], I)
        d = [pf.decl.name(), qf.decl.name()]
        note(cx, 'perm', qf.decl)
        i, j = gensym('i', I), gensym('j', I)
        n = s.n
        cx.axiom(st, Implies(And(i >= 0, i < n), And(pf(i) >= 0, pf(i) < n, qf(pf(i)) == i)), [i], [[pf(i)]], d, guard=False)
        cx.axiom(st, Implies(And(i >= 0, i < n), And(qf(i) >= 0, qf(i) < n, pf(qf(i)) == i)), [i], [[qf(i)]], d, guard=False)
        cx.axiom(st, Implies(And(i >= 0, i <= j, j < n), cmp(pf(i), pf(j)) <= 0), [i, j], [[pf(i), pf(j)]], d, guard=False)
        ns = Seq(n, lambda k: s.at(pf(k)))
        ns.perm_of = (s, pf, qf)
        cx.write(st, p.root, p.path, ns)
        return UNIT
    return h


def s_from_elem(cx, fr, st, c, args, atys):
    v, n = args
    v = cx.deref(st, v) if isinstance(v, Ptr) else v
    return Seq(n, lambda i: v)


def s_retain(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    im = items(cx, st, Iter(('filter', Iter(('seq', s.n, s.at)), args[1])), order=True)
    cx.write(st, p.root, p.path, collect_seq(cx, st, im))
    return UNIT


def s_join(cx, fr, st, c, args, atys):
    raise Unsupported('join')


def s_binary_search(cx, fr, st, c, args, atys):
    raise Unsupported('binary_search')


def s_chunks(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    w = args[1]
    panic_unless(cx, st, 'chunk size', w > 0)
    q = simp((s.n + w - 1) / w)
    return Iter(('seq', q, memo(lambda i: Seq(If((i + 1) * w <= s.n, w, s.n - i * w), lambda j: s.at(i * w + j)))))


def s_chunks_exact(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    w = args[1]
    panic_unless(cx, st, 'chunk size', w > 0)
    return Iter(('seq', simp(s.n / w), memo(lambda i: Seq(w, lambda j: s.at(i * w + j)))))


def s_windows(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    w = args[1]
    panic_unless(cx, st, 'window size', w > 0)
    return Iter(('seq', simp(If(w <= s.n, s.n - w + 1, iv(0))), memo(lambda i: Seq(w, lambda j: s.at(i + j)))))


def s_insert(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    i, v = args[1], args[2]
    panic_unless(cx, st, 'insert index', And(i >= 0, i <= s.n))
    cx.write(st, p.root, p.path, Seq(simp(s.n + 1), lambda j: ite(j < i, s.at(j), ite(j == i, v, s.at(j - 1)))))
    return UNIT


def s_split_at(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    k = args[1]
    panic_unless(cx, st, 'split index', And(k >= 0, k <= s.n))
    return Tup([Seq(k, s.at), Seq(simp(s.n - k), lambda i: s.at(i + k))])


noop = lambda cx, fr, st, c, args, atys: UNIT
ident = lambda cx, fr, st, c, args, atys: args[0]
derefd = lambda cx, fr, st, c, args, atys: cx.deref(st, args[0])
new_seq = lambda cx, fr, st, c, args, atys: Seq(0, lambda i: UNDEF)


def s_capacity(cx, fr, st, c, args, atys):
    v = cx.deref(st, args[0])
    return cx.fresh(st, 'capacity', I, (0, 2**64 - 1))


SEQM = {
    'new': new_seq, 'with_capacity': new_seq, 'push': s_push, 'pop': s_pop, 'len': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).n,
    'is_empty': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).n == 0,
    'iter': lambda cx, fr, st, c, a, t: as_iter(cx, st, cx.deref(st, a[0]), t[0]),
    'iter_mut': lambda cx, fr, st, c, a, t: as_iter(cx, st, a[0], t[0]),
    'as_slice': derefd, 'as_mut_slice': ident, 'to_vec': derefd, 'into_vec': ident, 'into_boxed_slice': ident,
    'extend_from_slice': s_extend_from_slice, 'append': s_append, 'clear': s_clear, 'truncate': s_truncate,
    'get': s_get, 'get_mut': s_get_mut, 'first': s_first, 'last': s_last, 'contains': s_contains,
    'reverse': s_reverse, 'swap_remove': s_swap_remove, 'remove': s_remove, 'swap': s_swap,
    'sort_unstable_by': s_sort(True), 'sort_by': s_sort(True), 'sort': s_sort(False), 'sort_unstable': s_sort(False),
    'sort_by_key': s_sort(False, True), 'sort_unstable_by_key': s_sort(False, True),
    'par_sort_unstable_by': s_sort(True), 'par_sort_by': s_sort(True),
    'reserve': noop, 'shrink_to_fit': noop, 'shrink_to': noop, 'capacity': s_capacity, 'retain': s_retain,
    'chunks': s_chunks, 'chunks_exact': s_chunks_exact, 'windows': s_windows, 'from_vec': ident, 'insert': s_insert,
    'split_at': s_split_at,
}


BAGM = {
    'push': lambda *a: b_push(*a), 'is_empty': lambda *a: b_is_empty(*a), 'len': lambda *a: b_len(*a),
    'contains': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).mem(cx.key(st, a[1])),
    'iter': lambda cx, fr, st, c, a, t: as_iter(cx, st, cx.deref(st, a[0]), t[0]),
    'reserve': noop, 'shrink_to_fit': noop, 'as_slice': derefd, 'capacity': s_capacity,
    'first': lambda *a: b_any(*a), 'last': lambda *a: b_any(*a),
}


# ---- sets
def set_extend(cx, st, ptr, it):
    p, s = target(cx, st, ptr)
    cx.write(st, p.root, p.path, set_from(cx, st, it, s))


def set_insert(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    k = cx.key(st, args[1])
    had = s.mem(k)
    cx.write(st, p.root, p.path, SetV(lambda x: Or(s.mem(x), x == k)))
    return Not(had)


def set_remove(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    k = cx.key(st, args[1])
    had = s.mem(k)
    cx.write(st, p.root, p.path, SetV(lambda x: And(s.mem(x), x != k)))
    return had


def set_retain(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    sh = key_shape(cx, s, atys[0])
    it = Iter(('filter', Iter(('set', s, sh)), args[1]))
    im = items(cx, st, it)
    cx.write(st, p.root, p.path, SetV(lambda x: z3.substitute(And(im.dom, im.guard), (im.g, x))))
    return UNIT


def set_clear(cx, fr, st, c, args, atys):
    p, s = target(cx, st, args[0])
    cx.write(st, p.root, p.path, SetV(lambda x: FALSE))
    return UNIT


def set_bin(f, it=True):
    def h(cx, fr, st, c, args, atys):
        a, b2 = cx.deref(st, args[0]), cx.deref(st, args[1])
        s = SetV(lambda x: f(a.mem(x), b2.mem(x)))
        return Iter(('set', s, key_shape(cx, a, atys[0])))
    return h


def set_rel(f):
    def h(cx, fr, st, c, args, atys):
        a, b2 = cx.deref(st, args[0]), cx.deref(st, args[1])
        q = gensym('q', keysort(key_shape(cx, a, atys[0])))
        return ForAll([q], f(a.mem(q), b2.mem(q)))
    return h


def set_len(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    return cx.card(st, keysort(key_shape(cx, s, atys[0])), s.mem)


def set_is_empty(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    q = gensym('q', keysort(key_shape(cx, s, atys[0])))
    return ForAll([q], Not(s.mem(q)))


new_set = lambda cx, fr, st, c, args, atys: SetV(lambda x: FALSE)
SETM = {
    'new': new_set, 'with_capacity': new_set, 'with_hasher': new_set, 'with_capacity_and_hasher': new_set, 'default': new_set,
    'insert': set_insert, 'remove': set_remove, 'retain': set_retain, 'clear': set_clear,
    'contains': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).mem(cx.key(st, a[1])),
    'len': set_len, 'is_empty': set_is_empty,
    'iter': lambda cx, fr, st, c, a, t: as_iter(cx, st, cx.deref(st, a[0]), t[0]),
    'drain': None,
    'intersection': set_bin(lambda a, b: And(a, b)), 'union': set_bin(lambda a, b: Or(a, b)),
    'difference': set_bin(lambda a, b: And(a, Not(b))), 'symmetric_difference': set_bin(lambda a, b: a != b),
    'is_subset': set_rel(lambda a, b: Implies(a, b)), 'is_disjoint': set_rel(lambda a, b: Not(And(a, b))),
    'is_superset': set_rel(lambda a, b: Implies(b, a)),
    'reserve': noop, 'shrink_to_fit': noop, 'shrink_to': noop, 'capacity': s_capacity,
}


# ---- maps
def map_insert(cx, st, ptr, key, val):
    p, m = target(cx, st, ptr)
    k = cx.key(st, key)
    old = opt(m.has(k), m.get(k))
    val = as_bag(m, k, val)
    cx.write(st, p.root, p.path, MapV(lambda x: Or(m.has(x), x == k), lambda x: ite(x == k, val, m.get(x)), m.kty))
    return old


def m_insert(cx, fr, st, c, args, atys):
    return map_insert(cx, st, args[0], args[1], args[2])


def m_get(cx, fr, st, c, args, atys):
    m = cx.deref(st, args[0])
    k = cx.key(st, args[1])
    return opt(m.has(k), m.get(k))


def m_get_mut(cx, fr, st, c, args, atys):
    p, m = target(cx, st, args[0])
    k = cx.key(st, args[1])
    return opt(m.has(k), Ptr(p.root, list(p.path) + [('map', k)]))


def m_remove(cx, fr, st, c, args, atys):
    p, m = target(cx, st, args[0])
    k = cx.key(st, args[1])
    cx.write(st, p.root, p.path, MapV(lambda x: And(m.has(x), x != k), m.get, m.kty))
    return opt(m.has(k), m.get(k))


def m_get_kv(cx, fr, st, c, args, atys):
    m = cx.deref(st, args[0])
    k = cx.key(st, args[1])
    return opt(m.has(k), Tup([cx.deref(st, args[1]), m.get(k)]))


def m_remove_entry(cx, fr, st, c, args, atys):
    k = cx.deref(st, args[1])
    o = m_remove(cx, fr, st, c, args, atys)
    return opt(o.tag == 1, Tup([k, o.alts[1][0]]))


def m_entry(cx, fr, st, c, args, atys):
    p, m = target(cx, st, args[0])
    return Entry(p, cx.key(st, args[1]))


def as_bag(m, k, v):
    """A sequence stored where the order of the elements is not tracked."""
    if isinstance(v, Seq) and isinstance(m.get(k), Bag):
        s = v
        q, r = gensym('q', I), gensym('r', I)
        n = simp(s.n)
        if is_zero(n):
            return Bag(lambda x: FALSE, lambda x: FALSE)
        if z3.is_int_value(n):
            js = range(n.as_long())
            return Bag(lambda x: Or([s.at(iv(j)) == x for j in js]),
                       lambda x: Or([And(s.at(iv(i)) == x, s.at(iv(j)) == x) for i in js for j in js if i < j]))
        isx = lambda t, x: And(t >= 0, t < s.n, s.at(t) == x)
        return Bag(lambda x: z3.Exists([q], isx(q, x)), lambda x: z3.Exists([q, r], And(q != r, isx(q, x), isx(r, x))))
    return v


def e_or_insert(cx, fr, st, c, args, atys):
    e = args[0]
    m = cx.deref(st, e.ptr)
    k = e.key
    v = as_bag(m, k, args[1])
    has = m.has(k)
    cx.write(st, e.ptr.root, e.ptr.path,
             MapV(lambda x: Or(m.has(x), x == k), lambda x: ite(And(x == k, Not(has)), v, m.get(x)), m.kty))
    return Ptr(e.ptr.root, list(e.ptr.path) + [('map', k)])


def e_or_insert_with(cx, fr, st, c, args, atys):
    outs = []
    for s, v in cx.call_closure(st, args[1], []):
        outs.append((s, e_or_insert(cx, fr, s, c, [args[0], v], atys)))
    return outs


def e_or_default(cx, fr, st, c, args, atys):
    t = atys[0].args[-1] if atys[0] is not None and atys[0].args else None
    v = default_of(head(t)) if t is not None else None
    if v is None:
        raise Unsupported('default of ' + str(t))
    return e_or_insert(cx, fr, st, c, [args[0], v], atys)


def e_and_modify(cx, fr, st, c, args, atys):
    e = args[0]
    m = cx.deref(st, e.ptr)
    outs = []
    for s, v in split_opt(cx, st, opt(m.has(e.key), Ptr(e.ptr.root, list(e.ptr.path) + [('map', e.key)]))):
        outs += [(s, e)] if v is None else [(s2, e) for s2, _ in cx.call_closure(s, args[1], [v])]
    return outs


def m_len(cx, fr, st, c, args, atys):
    m = cx.deref(st, args[0])
    return cx.card(st, keysort(key_shape(cx, m, atys[0])), m.has)


def m_is_empty(cx, fr, st, c, args, atys):
    m = cx.deref(st, args[0])
    q = gensym('q', keysort(key_shape(cx, m, atys[0])))
    return ForAll([q], Not(m.has(q)))


def m_retain(cx, fr, st, c, args, atys):
    p, m = target(cx, st, args[0])
    sh = key_shape(cx, m, atys[0])
    g = z3.Const('g!' + cx.symname(st, 'elt'), keysort(sh))
    v = cx.at_generic(st, g, [m.has(g)], lambda s: cx.call_closure(s, args[1], [cx.unkey(s, sh, g), m.get(g)]))
    cx.write(st, p.root, p.path, MapV(lambda x: And(m.has(x), z3.substitute(v, (g, x))), m.get, m.kty))
    return UNIT


def m_clear(cx, fr, st, c, args, atys):
    p, m = target(cx, st, args[0])
    cx.write(st, p.root, p.path, MapV(lambda x: FALSE, m.get, m.kty))
    return UNIT


def m_iter(kind, mut=False):
    def h(cx, fr, st, c, args, atys):
        if mut:
            p, m = target(cx, st, args[0])
        else:
            p, m = None, cx.deref(st, args[0])
        return Iter(('mapkv', m, kind, key_shape(cx, m, atys[0]), p))
    return h


new_map = lambda cx, fr, st, c, args, atys: MapV(lambda x: FALSE, lambda x: UNDEF)
MAPM = {
    'new': new_map, 'with_capacity': new_map, 'with_hasher': new_map, 'with_capacity_and_hasher': new_map, 'default': new_map,
    'insert': m_insert, 'get': m_get, 'get_mut': m_get_mut, 'remove': m_remove, 'entry': m_entry,
    'contains_key': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).has(cx.key(st, a[1])),
    'get_key_value': m_get_kv, 'remove_entry': m_remove_entry,
    'len': m_len, 'is_empty': m_is_empty, 'clear': m_clear, 'capacity': s_capacity, 'retain': m_retain,
    'reserve': noop, 'shrink_to_fit': noop, 'shrink_to': noop,
    'iter': m_iter('kv'), 'iter_mut': m_iter('kvmut', True), 'keys': m_iter('keys'), 'values': m_iter('values'),
    'values_mut': m_iter('valmut', True), 'into_values': m_iter('values'), 'into_keys': m_iter('keys'),
}


# ---- Option / Result
def o_unwrap(cx, fr, st, c, args, atys):
    o = cx.deref(st, args[0])
    panic_unless(cx, st, 'unwrap on None in %s' % fr.fn.name, o.tag == 1)
    if 1 not in o.alts:
        raise Unsupported('unwrap of None')
    return o.alts[1][0]


def o_map(cx, fr, st, c, args, atys):
    o = cx.deref(st, args[0]) if not isinstance(args[0], Enum) else args[0]
    outs = []
    for s, v in split_opt(cx, st, o):
        if v is None:
            outs.append((s, none()))
        else:
            outs += [(s2, some(w)) for s2, w in cx.call_closure(s, args[1], [v])]
    return outs


def o_and_then(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, args[0]):
        if v is None:
            outs.append((s, none()))
        else:
            outs += cx.call_closure(s, args[1], [v])
    return outs


def o_filter(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, args[0]):
        if v is None:
            outs.append((s, none()))
        else:
            outs += [(s2, opt(w, v)) for s2, w in cx.call_closure(s, args[1], [v])]
    return outs


def o_map_or(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, args[0]):
        if v is None:
            outs.append((s, args[1]))
        else:
            outs += cx.call_closure(s, args[2], [v])
    return outs


def o_map_or_else(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, args[0]):
        outs += cx.call_closure(s, args[1], []) if v is None else cx.call_closure(s, args[2], [v])
    return outs


def o_is_some_and(cx, fr, st, c, args, atys):
    return o_map_or(cx, fr, st, c, [args[0], FALSE, args[1]], atys)


def o_unwrap_or(cx, fr, st, c, args, atys):
    o = args[0]
    return ite(o.tag == 1, o.alts.get(1, [args[1]])[0], args[1])


def o_unwrap_or_else(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, args[0]):
        outs += cx.call_closure(s, args[1], []) if v is None else [(s, v)]
    return outs


def o_unwrap_or_default(cx, fr, st, c, args, atys):
    o = args[0]
    if 1 not in o.alts or not o.alts[1]:
        t = atys[0].args[-1] if atys[0] is not None and atys[0].args else None
        v = default_of(head(t)) if t is not None else None
        if v is None:
            raise Unsupported('unwrap_or_default')
        return v
    v = o.alts[1][0]
    if isinstance(v, SetV):
        return ite(o.tag == 1, v, SetV(lambda x: FALSE))
    if isinstance(v, Seq):
        return ite(o.tag == 1, v, Seq(0, lambda i: UNDEF))
    if is_scalar(v) and v.sort() == I:
        return If(o.tag == 1, v, iv(0))
    raise Unsupported('unwrap_or_default')


def o_as_mut(cx, fr, st, c, args, atys):
    p, o = target(cx, st, args[0])
    return Enum(o.tag, {0: [], 1: [Ptr(p.root, list(p.path) + [('v', 1), ('f', 0)])]}, 'Option')


def o_take(cx, fr, st, c, args, atys):
    p, o = target(cx, st, args[0])
    cx.write(st, p.root, p.path, none())
    return o


OPTM = {
    'unwrap': o_unwrap, 'expect': o_unwrap, 'unwrap_unchecked': o_unwrap,
    'is_some': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).tag == 1,
    'is_none': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).tag == 0,
    'map': o_map, 'and_then': o_and_then, 'filter': o_filter, 'map_or': o_map_or, 'map_or_else': o_map_or_else,
    'is_some_and': o_is_some_and, 'unwrap_or': o_unwrap_or, 'unwrap_or_else': o_unwrap_or_else,
    'unwrap_or_default': o_unwrap_or_default,
    'cloned': derefd, 'copied': derefd, 'as_ref': derefd, 'as_deref': derefd, 'as_mut': o_as_mut, 'take': o_take,
    'iter': lambda cx, fr, st, c, a, t: as_iter(cx, st, cx.deref(st, a[0]), t[0]),
    'ok_or': lambda cx, fr, st, c, a, t: Enum(If(a[0].tag == 1, iv(0), iv(1)), {0: [a[0].alts[1][0]] if 1 in a[0].alts else [UNDEF], 1: [a[1]]}, 'Result'),
}


def r_unwrap(cx, fr, st, c, args, atys):
    o = cx.deref(st, args[0])
    panic_unless(cx, st, 'unwrap on Err in %s' % fr.fn.name, o.tag == 0)
    return o.alts[0][0]


RESM = {
    'unwrap': r_unwrap, 'expect': r_unwrap,
    'is_ok': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).tag == 0,
    'is_err': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).tag == 1,
    'ok': lambda cx, fr, st, c, a, t: Enum(If(a[0].tag == 0, iv(1), iv(0)), {0: [], 1: [a[0].alts[0][0]] if 0 in a[0].alts else [UNDEF]}, 'Option'),
}


# ---- everything else
def range_bounds(r, n):
    if r.name == 'Range':
        return r.f[0], r.f[1]
    if r.name == 'RangeFrom':
        return r.f[0], n
    if r.name == 'RangeTo':
        return iv(0), r.f[0]
    if r.name == 'RangeFull':
        return iv(0), n
    if r.name == 'RangeInclusive':
        return r.f[0], r.f[1] + 1
    if r.name == 'RangeToInclusive':
        return iv(0), r.f[0] + 1
    raise Unsupported('range ' + r.name)


def length_of(lo, hi):
    n = simp(hi - lo)
    m = z3.simplify(n, som=True)
    return m if len(m.sexpr()) < len(n.sexpr()) else n


def subseq(s, lo, hi):
    n = length_of(lo, hi)
    if s.arr is not None:
        return Seq.of_arr(n, s.arr, simp(s.off + lo))
    if is_zero(simp(lo)):
        return Seq(n, s.at)
    return Seq(n, lambda i: s.at(simp(lo + i)))


def g_index(cx, fr, st, c, args, atys):
    v = cx.deref(st, args[0])
    i = args[1]
    if isinstance(v, Seq):
        if isinstance(i, Tup):
            lo, hi = range_bounds(i, v.n)
            panic_unless(cx, st, 'slice range in %s' % fr.fn.name, And(lo <= hi, hi <= v.n))
            if c.self_ty == 'str':
                panic_unless(cx, st, 'character boundary in %s' % fr.fn.name, And(boundary(v, lo), boundary(v, hi)))
            return subseq(v, lo, hi)
        i = cx.deref(st, i)
        panic_unless(cx, st, 'index in %s' % fr.fn.name, And(i >= 0, i < v.n))
        return v.at(i)
    if isinstance(v, MapV):
        k = cx.key(st, i)
        panic_unless(cx, st, 'key present in %s' % fr.fn.name, m_has(v, k))
        return v.get(k)
    raise Unsupported('index of %s' % type(v).__name__)


def boundary(v, i):
    """i is a character boundary of the text with bytes v (valid UTF-8: continuation bytes are 128..191)."""
    b = v.at(i)
    return Or(i == 0, i == v.n, b < 128, b >= 192)


def m_has(v, k):
    return v.has(k)


def g_index_mut(cx, fr, st, c, args, atys):
    p, v = target(cx, st, args[0])
    i = args[1]
    if isinstance(v, Seq):
        if isinstance(i, Tup):
            lo, hi = range_bounds(i, v.n)
            panic_unless(cx, st, 'slice range in %s' % fr.fn.name, And(lo <= hi, hi <= v.n))
            return Ptr(p.root, list(p.path) + [('slice', lo, length_of(lo, hi))])
        i = cx.deref(st, i)
        panic_unless(cx, st, 'index in %s' % fr.fn.name, And(i >= 0, i < v.n))
        return Ptr(p.root, list(p.path) + [('idx', i)])
    raise Unsupported('index_mut of %s' % type(v).__name__)


def g_extend(cx, fr, st, c, args, atys):
    p, v = target(cx, st, args[0])
    it = as_iter(cx, st, args[1], atys[1])
    if isinstance(v, SetV):
        set_extend(cx, st, args[0], it)
        return UNIT
    if isinstance(v, Seq):
        im = items(cx, st, it, order=True)
        s_extend(cx, st, args[0], collect_seq(cx, st, im))
        return UNIT
    if isinstance(v, MapV):
        def body(s, x):
            map_insert(cx, s, p, x.f[0], x.f[1])
            return [(s, None)]
        return [(s, UNIT) for s, _ in run_loop(cx, st, it, body, 'extend')]
    raise Unsupported('extend of %s' % type(v).__name__)


def g_from_iter(cx, fr, st, c, args, atys):
    t = mir.parse_type(c.self_ty) if c.self_ty else None
    return collect_to(cx, fr, st, as_iter(cx, st, args[0], atys[0]), t)


def g_build_hasher(cx, fr, st, c, args, atys):
    s = cx.deref(st, args[0])
    if isinstance(s, (Opaque, Tup)):
        s = z3.Const('seed:' + str(getattr(s, 'name', 'x')), usort('SeedO'))
    return HasherV(h_init(s))


def g_hash(cx, fr, st, c, args, atys):
    p, h = target(cx, st, args[1])
    if not isinstance(h, HasherV):
        raise Unsupported('hash into %s' % type(h).__name__)
    cx.write(st, p.root, p.path, HasherV(hash_value(cx, st, h.h, args[0])))
    return UNIT


def g_finish(cx, fr, st, c, args, atys):
    h = cx.deref(st, args[0])
    if not isinstance(h, HasherV):
        raise Unsupported('finish of %s' % type(h).__name__)
    return h_fin(cx, h.h)


def g_hash_one(cx, fr, st, c, args, atys):
    h = g_build_hasher(cx, fr, st, c, args, atys)
    return h_fin(cx, hash_value(cx, st, h.h, args[1]))


def g_cmp(cx, fr, st, c, args, atys):
    return cmp_values(cx, st, args[0], args[1])


def g_partial_cmp(cx, fr, st, c, args, atys):
    return some(cmp_values(cx, st, args[0], args[1]))


def g_rel(f):
    def h(cx, fr, st, c, args, atys):
        return f(cmp_values(cx, st, args[0], args[1]).tag)
    return h


def g_eq(cx, fr, st, c, args, atys):
    return cx.value_eq(st, args[0], args[1])


def g_ne(cx, fr, st, c, args, atys):
    return Not(cx.value_eq(st, args[0], args[1]))


def g_min(cx, fr, st, c, args, atys):
    a, b = args
    return If(a <= b, a, b)


def g_max(cx, fr, st, c, args, atys):
    a, b = args
    return If(a >= b, a, b)


def g_branch(cx, fr, st, c, args, atys):
    o = args[0]
    if o.name == 'Option':
        return Enum(If(o.tag == 1, iv(0), iv(1)), {0: [o.alts[1][0]] if 1 in o.alts else [UNDEF], 1: [none()]}, 'ControlFlow')
    if o.name == 'Result':
        return Enum(o.tag, {0: o.alts.get(0, [UNDEF]), 1: [Enum(1, {1: o.alts.get(1, [UNDEF])}, 'Result')]}, 'ControlFlow')
    raise Unsupported('? on %s' % o.name)


def g_from_residual(cx, fr, st, c, args, atys):
    return args[0]


def g_call(cx, fr, st, c, args, atys):
    a = args[1]
    return cx.call_closure(st, args[0], a.f if isinstance(a, Tup) else [a])


def g_opaque(name):
    def h(cx, fr, st, c, args, atys):
        return Opaque(name)
    return h


def g_wrapping(op):
    def h(cx, fr, st, c, args, atys):
        tn = owner_of(c)
        lo, hi = int_range(tn)
        a, b = args
        if lo != 0:
            raise Unsupported('signed wrapping')
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: wmul(cx, a, b)}[op]()
        return r % (hi + 1)
    return h


def wmul(cx, a, b):
    """Product of two unknown integers, as an uninterpreted commutative function."""
    if z3.is_int_value(a) or z3.is_int_value(b):
        return a * b
    f = z3.Function('prod', I, I, I)
    if 'prod' not in cx.axkeys:
        cx.axkeys.add('prod')
        x, y = z3.Ints('x y')
        cx.axioms.append((z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]), frozenset(['prod'])))
    # terms of different form are written in one order, so that equal products are equal terms
    if a.num_args() and b.num_args() and b.decl().name() < a.decl().name():
        a, b = b, a
    return f(a, b)


def g_saturating(op):
    def h(cx, fr, st, c, args, atys):
        tn = owner_of(c)
        lo, hi = int_range(tn)
        a, b = args
        r = {'add': a + b, 'sub': a - b}[op]
        return If(r < lo, iv(lo), If(r > hi, iv(hi), r))
    return h


def g_checked(op):
    def h(cx, fr, st, c, args, atys):
        tn = owner_of(c)
        lo, hi = int_range(tn)
        a, b = args
        if op in ('div', 'rem'):
            return opt(b != 0, a / b if op == 'div' else a % b)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b}[op]()
        return opt(And(r >= lo, r <= hi), r)
    return h


def g_powf(cx, fr, st, c, args, atys):
    return z3.Function('fpow', R, R, R)(args[0], args[1])


def g_fint(f):
    """Exact on the values of f64 (NaN and infinities excluded)."""
    return lambda cx, fr, st, c, args, atys: f(cx.deref(st, args[0]))


def g_powi(cx, fr, st, c, args, atys):
    return z3.Function('fpowi', R, I, R)(args[0], args[1])


def g_size_of(cx, fr, st, c, args, atys):
    t = ctype(c)
    n = head(t)
    if n in mir.BITS:
        return iv(mir.BITS[n] // 8)
    raise Unsupported('size_of %s' % n)


def g_ord_rev(cx, fr, st, c, args, atys):
    return Enum(-args[0].tag, {}, 'Ordering')


def g_ord_then(cx, fr, st, c, args, atys):
    return Enum(If(args[0].tag != 0, args[0].tag, args[1].tag), {}, 'Ordering')


def g_ord_then_with(cx, fr, st, c, args, atys):
    return [(s, Enum(If(args[0].tag != 0, args[0].tag, v.tag), {}, 'Ordering')) for s, v in
            cx.call_closure(st, args[1], [])]


# abstract id container
def bag(cx, st, v):
    b = cx.deref(st, v)
    if not isinstance(b, Bag):
        raise Unsupported('id container %s' % type(b).__name__)
    return b


def b_new(cx, fr, st, c, args, atys):
    return Bag(lambda x: FALSE, lambda x: FALSE)


def b_push(cx, fr, st, c, args, atys):
    p, b = target(cx, st, args[0])
    bag(cx, st, b)
    k = cx.key(st, args[1])
    cx.write(st, p.root, p.path, Bag(lambda x: Or(b.mem(x), x == k), lambda x: And(b.mem(x), Or(b.multi(x), x == k))))
    return UNIT


def b_remove(cx, fr, st, c, args, atys):
    p, b = target(cx, st, args[0])
    bag(cx, st, b)
    k = cx.key(st, args[1])
    left = cx.fresh(st, 'left', B)
    leftm = cx.fresh(st, 'leftm', B)
    cx.write(st, p.root, p.path, Bag(lambda x: If(x == k, And(b.mem(x), b.multi(x), left), b.mem(x)),
                                     lambda x: If(x == k, And(b.mem(x), b.multi(x), left, leftm), b.multi(x))))
    return UNIT


def bag_sort(cx, fr, c):
    return None


def b_is_empty(cx, fr, st, c, args, atys):
    b = bag(cx, st, args[0])
    q = gensym('q', cx.bag_ksort)
    return ForAll([q], Not(b.mem(q)))


def b_len(cx, fr, st, c, args, atys):
    b = bag(cx, st, args[0])
    n = cx.fresh(st, 'baglen', I, (1, 2**63 - 1))
    q = gensym('q', cx.bag_ksort)
    return If(ForAll([q], Not(b.mem(q))), iv(0), n)


def b_any(cx, fr, st, c, args, atys):
    # first() / last(): some held id, which one is not known
    b = bag(cx, st, args[0])
    q = gensym('q', cx.bag_ksort)
    x = cx.fresh(st, 'bagel', cx.bag_ksort)
    some = z3.Exists([q], b.mem(q))
    cx.axiom(st, Implies(some, b.mem(x)), defs=[decl_name(x)], guard=False)
    return opt(some, x)


def b_copy_to(cx, fr, st, c, args, atys):
    b = bag(cx, st, args[0])
    p, s = target(cx, st, args[1])
    cx.write(st, p.root, p.path, SetV(lambda x: Or(s.mem(x), b.mem(x))))
    return UNIT


def default_of(h):
    if h in SET:
        return SetV(lambda x: FALSE)
    if h in MAP:
        return MapV(lambda x: FALSE, lambda x: UNDEF)
    if h in ('Vec', 'SmallVec'):
        return Seq(0, lambda i: UNDEF)
    if h in INTS:
        return iv(0)
    if h == 'bool':
        return FALSE
    if h == 'Option':
        return none()
    return None


def g_default(cx, fr, st, c, args, atys):
    h = head(mir.parse_type(c.self_ty)) if c.self_ty else None
    v = default_of(h)
    if v is not None:
        return v
    if h == 'BuildHasherDefault':
        return z3.Const('seed:' + str(c.self_ty), usort('Seed'))     # stateless: every default is the same hash function
    return Opaque(str(c.self_ty))


def g_contains_range(cx, fr, st, c, args, atys):
    r = cx.deref(st, args[0])
    x = cx.deref(st, args[1])
    lo, hi = range_bounds(r, None)
    return And(x >= lo, x < hi)


def g_swap_mem(cx, fr, st, c, args, atys):
    p, v = target(cx, st, args[0])
    q, w = target(cx, st, args[1])
    cx.write(st, p.root, p.path, w)
    cx.write(st, q.root, q.path, v)
    return UNIT


def g_replace(cx, fr, st, c, args, atys):
    p, v = target(cx, st, args[0])
    cx.write(st, p.root, p.path, args[1])
    return v


def g_take(cx, fr, st, c, args, atys):
    p, v = target(cx, st, args[0])
    e = {Seq: lambda: Seq(0, lambda i: UNDEF), SetV: lambda: SetV(lambda x: FALSE),
         MapV: lambda: MapV(lambda x: FALSE, lambda x: UNDEF, v.kty)}.get(type(v))
    if e is None:
        raise Unsupported('mem::take')
    cx.write(st, p.root, p.path, e())
    return v


def g_f64_minmax(sign):
    def h(cx, fr, st, c, args, atys):
        a, b = args
        return If(a <= b, a, b) if sign < 0 else If(a >= b, a, b)
    return h


RNG = usort('Rng')


def g_rng_seed(cx, fr, st, c, args, atys):
    return z3.Function('rng_seed', I, RNG)(args[0])


def g_thread_rng(cx, fr, st, c, args, atys):
    """A generator in an unknown state, another one with every call."""
    return z3.Function(gensym('entropy', I).decl().name(), *[p.sort() for p in cx.params], RNG)(*cx.params)


def sample(cx, st, rng_ptr, lo, hi):
    """A draw is a function of the range and the generator's state and lies in the range; so is the next state."""
    p, s = target(cx, st, rng_ptr)
    if not (is_scalar(s) and s.sort() == RNG):
        raise Unsupported('random generator of unknown kind')
    f = z3.Function('rng_draw', RNG, I, I, I)
    g = z3.Function('rng_next', RNG, I, I, RNG)
    if 'rng' not in cx.axkeys:
        cx.axkeys.add('rng')
        x, (l, h) = z3.Const('x', RNG), z3.Ints('l h')
        cx.axioms.append((z3.ForAll([x, l, h], Implies(l < h, And(f(x, l, h) >= l, f(x, l, h) < h)), patterns=[f(x, l, h)]),
                          frozenset(['rng_draw'])))
    cx.write(st, p.root, p.path, g(s, lo, hi))
    return f(s, lo, hi)


def bounds_of(r):
    if isinstance(r, Tup) and len(r.f) == 2:
        return r.f[0], (r.f[1] + 1 if r.name == 'RangeInclusive' else r.f[1])
    raise Unsupported('distribution of unknown kind')


def g_sample(cx, fr, st, c, args, atys):
    lo, hi = bounds_of(cx.deref(st, args[0]))
    return sample(cx, st, args[1], lo, hi)


def g_gen_range(cx, fr, st, c, args, atys):
    lo, hi = bounds_of(cx.deref(st, args[1]))
    cx.oblige(st, 'no panic: random range is not empty', lo < hi, 'panic')
    return sample(cx, st, args[0], lo, hi)


def g_uniform_new(cx, fr, st, c, args, atys):
    lo, hi = cx.deref(st, args[0]), cx.deref(st, args[1])
    cx.oblige(st, 'no panic: random range is not empty', lo < hi, 'panic')
    return Tup([lo, hi], 'Range')


def ints(cx, st, args):
    vs = [cx.deref(st, a) for a in args]
    if not all(isinstance(v, z3.ExprRef) and v.sort() == I for v in vs):
        raise Unsupported('arithmetic on other than integers')
    return vs


def g_abs_diff(cx, fr, st, c, args, atys):
    x, y = ints(cx, st, args)
    return If(x >= y, x - y, y - x)


def g_div_ceil(cx, fr, st, c, args, atys):
    x, y = ints(cx, st, args)
    panic_unless(cx, st, 'divisor is not zero', y > 0)
    return (x + y - 1) / y


def g_clamp(cx, fr, st, c, args, atys):
    x, l, h = ints(cx, st, args)
    panic_unless(cx, st, 'clamp bounds are in order', l <= h)
    return If(x < l, l, If(x > h, h, x))


def g_bool_then(cx, fr, st, c, args, atys):
    outs = []
    for s, v in split_opt(cx, st, opt(args[0], UNIT)):
        if v is None:
            outs.append((s, none()))
        else:
            outs += [(s2, opt(TRUE, r)) for s2, r in cx.call_closure(s, args[1], [])]
    return outs


def oe_get(cx, fr, st, c, args, atys):
    e = cx.deref(st, args[0])
    return cx.deref(st, e.ptr).get(e.key)


def oe_get_mut(cx, fr, st, c, args, atys):
    e = cx.deref(st, args[0])
    return Ptr(e.ptr.root, list(e.ptr.path) + [('map', e.key)])


def oe_insert(cx, fr, st, c, args, atys):
    e = cx.deref(st, args[0])
    m = cx.deref(st, e.ptr)
    v = as_bag(m, e.key, args[1])
    cx.write(st, e.ptr.root, e.ptr.path,
             MapV(lambda x: Or(m.has(x), x == e.key), lambda x: ite(x == e.key, v, m.get(x)), m.kty))
    return m.get(e.key)


def ve_insert(cx, fr, st, c, args, atys):
    e = cx.deref(st, args[0])
    oe_insert(cx, fr, st, c, args, atys)
    return Ptr(e.ptr.root, list(e.ptr.path) + [('map', e.key)])


def oe_remove(cx, fr, st, c, args, atys):
    e = cx.deref(st, args[0])
    m = cx.deref(st, e.ptr)
    cx.write(st, e.ptr.root, e.ptr.path, MapV(lambda x: And(m.has(x), x != e.key), m.get, m.kty))
    return m.get(e.key)


GEN = {
    'bool::then': g_bool_then, 'bool::then_some': lambda cx, fr, st, c, a, t: opt(a[0], a[1]),
    'OccupiedEntry::get': oe_get, 'OccupiedEntry::get_mut': oe_get_mut, 'OccupiedEntry::into_mut': oe_get_mut,
    'OccupiedEntry::insert': oe_insert, 'OccupiedEntry::remove': oe_remove, 'VacantEntry::insert': ve_insert,
    'boxed::box_assume_init_into_vec_unsafe': ident, 'box_assume_init_into_vec_unsafe': ident,
    '*::abs_diff': g_abs_diff, 'usize::div_ceil': g_div_ceil, 'u64::div_ceil': g_div_ceil, 'u32::div_ceil': g_div_ceil,
    'usize::clamp': g_clamp, 'Ord::clamp': g_clamp,
    'SeedableRng::seed_from_u64': g_rng_seed, 'SeedableRng::from_entropy': g_thread_rng, 'thread_rng': g_thread_rng, 'Distribution::sample': g_sample, 'Rng::gen_range': g_gen_range,
    'Uniform::new': g_uniform_new, 'Uniform::sample': g_sample,
    'Index::index': g_index, 'IndexMut::index_mut': g_index_mut,
    'Deref::deref': derefd, 'DerefMut::deref_mut': ident, '*::clone': derefd, 'Clone::clone': derefd,
    'ToOwned::to_owned': derefd, 'AsRef::as_ref': derefd, 'Borrow::borrow': derefd, 'Box::new': ident,
    'Into::into': ident, 'From::from': ident, 'convert::identity': ident,
    'Extend::extend': g_extend, 'FromIterator::from_iter': g_from_iter, 'ParallelExtend::par_extend': g_extend,
    'FromParallelIterator::from_par_iter': g_from_iter,
    'BuildHasher::build_hasher': g_build_hasher, 'Hash::hash': g_hash, 'Hasher::finish': g_finish,
    'BuildHasher::hash_one': g_hash_one, 'RandomState::hash_one': g_hash_one,
    'str::char_indices': char_iter(True), 'str::chars': char_iter(False), 'str::bytes': lambda cx, fr, st, c, a, t: Iter(('seq', cx.deref(st, a[0]).n, cx.deref(st, a[0]).at)),
    'str::as_bytes': derefd, 'str::len': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).n,
    'str::is_empty': lambda cx, fr, st, c, a, t: cx.deref(st, a[0]).n == 0,
    'RandomState::new': lambda cx, fr, st, c, a, t: cx.fresh(st, 'seed', usort('Seed')),
    'Ord::cmp': g_cmp, 'PartialOrd::partial_cmp': g_partial_cmp, '*::total_cmp': g_cmp,
    'PartialOrd::lt': g_rel(lambda t: t < 0), 'PartialOrd::le': g_rel(lambda t: t <= 0),
    'PartialOrd::gt': g_rel(lambda t: t > 0), 'PartialOrd::ge': g_rel(lambda t: t >= 0),
    'PartialEq::eq': g_eq, 'PartialEq::ne': g_ne, 'cmp::min': g_min, 'cmp::max': g_max, 'Ord::min': g_min, 'Ord::max': g_max,
    'f64::min': g_f64_minmax(-1), 'f64::max': g_f64_minmax(1),
    'Ordering::reverse': g_ord_rev, 'Ordering::then': g_ord_then, 'Ordering::then_with': g_ord_then_with,
    'Ordering::is_lt': lambda cx, fr, st, c, a, t: a[0].tag < 0, 'Ordering::is_gt': lambda cx, fr, st, c, a, t: a[0].tag > 0,
    'Ordering::is_le': lambda cx, fr, st, c, a, t: a[0].tag <= 0, 'Ordering::is_ge': lambda cx, fr, st, c, a, t: a[0].tag >= 0,
    'Ordering::is_eq': lambda cx, fr, st, c, a, t: a[0].tag == 0, 'Ordering::is_ne': lambda cx, fr, st, c, a, t: a[0].tag != 0,
    'Try::branch': g_branch, 'FromResidual::from_residual': g_from_residual,
    'Fn::call': g_call, 'FnMut::call_mut': g_call, 'FnOnce::call_once': g_call,
    'Entry::or_insert': e_or_insert, 'Entry::or_insert_with': e_or_insert_with, 'Entry::or_default': e_or_default, 'Entry::and_modify': e_and_modify,
    'Default::default': g_default,
    'vec::from_elem': s_from_elem, 'mem::size_of': g_size_of, 'mem::swap': g_swap_mem, 'mem::replace': g_replace,
    'mem::take': g_take, 'mem::drop': noop, 'drop': noop,
    '*::wrapping_add': g_wrapping('add'), '*::wrapping_sub': g_wrapping('sub'), '*::wrapping_mul': g_wrapping('mul'),
    '*::saturating_add': g_saturating('add'), '*::saturating_sub': g_saturating('sub'),
    '*::checked_add': g_checked('add'), '*::checked_sub': g_checked('sub'), '*::checked_mul': g_checked('mul'),
    '*::checked_div': g_checked('div'),
    'f64::powf': g_powf, 'f64::powi': g_powi,
    'f64::floor': g_fint(lambda x: z3.ToReal(z3.ToInt(x))), 'f64::ceil': g_fint(lambda x: -z3.ToReal(z3.ToInt(-x))),
    'f64::trunc': g_fint(lambda x: If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))),
    'f64::round': g_fint(lambda x: If(x >= 0, z3.ToReal(z3.ToInt(x + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-x + z3.Q(1, 2))))),
    'f64::abs': g_fint(lambda x: If(x >= 0, x, -x)), 'f64::sqrt': g_fint(lambda x: z3.Function('fsqrt', R, R)(x)),
    'f64::is_nan': g_fint(lambda x: FALSE), 'f64::is_finite': g_fint(lambda x: TRUE), 'f64::is_infinite': g_fint(lambda x: FALSE),
    'Range::contains': g_contains_range, 'RangeInclusive::contains': g_contains_range,
    'RangeInclusive::new': lambda cx, fr, st, c, a, t: Tup(a, 'RangeInclusive'),
    'IdContainer::new': b_new, 'IdContainer::push': b_push, 'IdContainer::remove': b_remove,
    'IdContainer::is_empty': b_is_empty, 'IdContainer::len': b_len, 'IdContainer::copy_to': b_copy_to,
    'IdContainer::copy_refs_to': b_copy_to,
    **{'%s::%s' % (tr, m): g_bitop(op) for op, tr, m in (
        ('BitAnd', 'BitAnd', 'bitand'), ('BitOr', 'BitOr', 'bitor'), ('BitXor', 'BitXor', 'bitxor'),
        ('Shl', 'Shl', 'shl'), ('Shr', 'Shr', 'shr'), ('AddWithOverflow', 'Add', 'add'),
        ('SubWithOverflow', 'Sub', 'sub'), ('MulWithOverflow', 'Mul', 'mul'))},
    **{'%s::%s' % (tr, m): g_bitop(op, True) for op, tr, m in (
        ('BitAnd', 'BitAndAssign', 'bitand_assign'), ('BitOr', 'BitOrAssign', 'bitor_assign'),
        ('BitXor', 'BitXorAssign', 'bitxor_assign'), ('Shl', 'ShlAssign', 'shl_assign'),
        ('Shr', 'ShrAssign', 'shr_assign'), ('AddWithOverflow', 'AddAssign', 'add_assign'),
        ('SubWithOverflow', 'SubAssign', 'sub_assign'))},
    'One::one': g_bits_const('one'), 'Zero::zero': g_bits_const('zero'),
    'Not::not': g_not, '*::count_ones': g_count_ones,
    'Arguments::from_str': g_opaque('fmt'), 'Arguments::new': g_opaque('fmt'),
    'iter::once': lambda cx, fr, st, c, a, t: seq_iter(iv(1), lambda i, v=a[0]: v),
    'once': lambda cx, fr, st, c, a, t: seq_iter(iv(1), lambda i, v=a[0]: v),
    'iter::empty': lambda cx, fr, st, c, a, t: seq_iter(iv(0), lambda i: UNDEF),
    'empty': lambda cx, fr, st, c, a, t: seq_iter(iv(0), lambda i: UNDEF),
    'iter::repeat_n': lambda cx, fr, st, c, a, t: seq_iter(a[1], lambda i, v=a[0]: v),
}
