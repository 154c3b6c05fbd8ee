"""Discharging obligations with Z3 (and cvc5 as a second opinion)."""
import subprocess, time
import z3
from vals import *
from exec import symbols, pattern_ok


def int_consts(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and (e.sort() == I or e.sort().kind() == z3.Z3_UNINTERPRETED_SORT):
        if all(not z3.eq(e, o) for o in out):
            out.append(e)
    for c in e.children():
        int_consts(c, out, seen)


def instances(f, t):
    """f with its positive universally quantified parts over one Int replaced by their instance at t (implied by f)."""
    hit = []

    def go(e):
        if z3.is_quantifier(e):
            if e.is_forall() and e.num_vars() == 1 and e.var_sort(0) == t.sort():
                hit.append(1)
                return z3.substitute_vars(e.body(), t)
            return e
        if z3.is_and(e) or z3.is_or(e):
            cs = [go(c) for c in e.children()]
            return (z3.And if z3.is_and(e) else z3.Or)(*cs)
        if z3.is_implies(e):
            return z3.Implies(e.arg(0), go(e.arg(1)))
        return e
    r = go(f)
    return r if hit else None


def products(e, out, seen):
    """The binary products of two non-numeral terms in the ground part of e."""
    if e.get_id() in seen or z3.is_quantifier(e):
        return
    seen.add(e.get_id())
    for c in e.children():
        products(c, out, seen)
    if z3.is_app(e) and (z3.is_mul(e) or e.decl().eq(NL)) and e.sort() == I:
        fs = [c for c in e.children() if not z3.is_int_value(c)]
        if len(fs) == 2 and all(not z3.eq(e, o[0]) for o in out):
            out.append((e, fs[0], fs[1]))


def product_facts(fs):
    """Monotonicity of multiplication (valid formulas) for the products that occur."""
    ps = []
    seen = set()
    for f in fs:
        products(f, ps, seen)
    ps = ps[-8:]
    out = []
    for n, (e, a, b) in enumerate(ps):
        for x, y in ((a, b), (b, a)):
            out.append(Implies(And(x >= 0, y >= 1), x * y >= x))
            out.append(Implies(And(x >= 0, y >= 0), x * y >= 0))
        for (e2, c, d) in ps[n + 1:]:
            for x, y in ((a, b), (b, a)):
                for u, v in ((c, d), (d, c)):
                    if z3.eq(y, v):
                        out.append(Implies(And(y >= 0, x <= u), x * y <= u * y))
                        out.append(Implies(And(y >= 0, u <= x), u * y <= x * y))
                        out.append(Implies(And(y >= 0, x + 1 <= u), x * y + y <= u * y))
                        out.append(Implies(And(y >= 0, u + 1 <= x), u * y + y <= x * y))
    return out


def cards(e, out, seen):
    """The sets whose number of elements is mentioned in the ground part of e."""
    if e.get_id() in seen or z3.is_quantifier(e):
        return
    seen.add(e.get_id())
    for c in e.children():
        cards(c, out, seen)
    if z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith('CARD_'):
        if all(not z3.eq(e.arg(0), o.arg(0)) for o in out):
            out.append(e)


_norm = {}


def norm(f):
    """f with its terms in the solver's normal form, in bodies and patterns alike (an equivalent formula; the solver leaves
    patterns as they are written, so that a pattern f(0 + k) would never match f(k))."""
    got = _norm.get(f.get_id())
    if got is None:
        try:
            got = (f, _norm1(f, [0], {}, {}))
        except z3.Z3Exception:
            got = (f, f)
        _norm[f.get_id()] = got
    return got[1]


def _norm1(e, n, memo, hq):
    i = e.get_id()
    if i not in memo:
        memo[i] = e, _norm2(e, n, memo, hq)
    return memo[i][1]


def _norm2(e, n, memo, hq):
    if not has_quantifier(e, hq):
        return nl(simp(e))
    if z3.is_quantifier(e) and not e.is_lambda():
        vs = []
        for i in range(e.num_vars()):
            n[0] += 1
            vs.append(z3.Const('%s~n%d' % (e.var_name(i).split('~n')[0], n[0]), e.var_sort(i)))
        back = list(reversed(vs))
        body = _norm1(z3.substitute_vars(e.body(), *back), n, memo, hq)
        ps = []
        for i in range(e.num_patterns()):
            ts = [nl(simp(z3.substitute_vars(t, *back))) for t in e.pattern(i).children()]
            if not all(pattern_ok(t) for t in ts):
                ts = [z3.substitute_vars(t, *back) for t in e.pattern(i).children()]
            ps.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
        return (z3.ForAll if e.is_forall() else z3.Exists)(vs, body, weight=e.weight(), patterns=ps)
    if z3.is_quantifier(e):
        return e
    cs = [_norm1(c, n, memo, hq) for c in e.children()]
    return z3.And(*cs) if z3.is_and(e) else z3.Or(*cs) if z3.is_or(e) else e.decl()(*cs)


NL = z3.Function('NL', I, I, I)
_a, _b = z3.Ints('a~nl b~nl')
# a product of two terms as an application the solver can match on
NL_AX = [z3.ForAll([_a, _b], And(NL(_a, _b) == _a * _b, NL(_a, _b) == NL(_b, _a)), patterns=[NL(_a, _b)])]


def nl(e, memo=None):
    """e (without quantifiers) with its products written with NL."""
    memo = {} if memo is None else memo
    i = e.get_id()
    if i not in memo:
        if z3.is_quantifier(e) or not z3.is_app(e) or e.num_args() == 0:
            memo[i] = e
        else:
            cs = [nl(c, memo) for c in e.children()]
            if z3.is_mul(e) and e.sort() == I:
                num = [c for c in cs if z3.is_int_value(c)]
                ts = [c for c in cs if not z3.is_int_value(c)]
                while len(ts) > 1:
                    ts = [NL(ts[0], ts[1])] + ts[2:]
                r = ts[0] if ts else num.pop()
                for c in num:
                    r = c * r
                memo[i] = r
            elif any(not a.eq(c) for a, c in zip(cs, e.children())):
                memo[i] = z3.And(*cs) if z3.is_and(e) else z3.Or(*cs) if z3.is_or(e) else e.decl()(*cs)
            else:
                memo[i] = e
    return memo[i]


def has_quantifier(e, seen):
    i = e.get_id()
    if i not in seen:
        seen[i] = e, z3.is_quantifier(e) or any(has_quantifier(c, seen) for c in e.children())
    return seen[i][1]


def has_product(fs):
    """A product of two terms that are not numbers occurs (quantified parts included)."""
    seen, work = set(), list(fs)
    while work:
        e = work.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            work.append(e.body())
            continue
        if z3.is_mul(e) and e.sort() == I and sum(1 for c in e.children() if not z3.is_int_value(c)) > 1:
            return True
        work.extend(e.children())
    return False


class Prover:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.cache = {}
        self.nqueries = 0
        self.time = 0.0

    def relevant(self, cx, fs, upto=None):
        """Axioms whose defined symbols are reachable from fs."""
        syms = set()
        for f in fs:
            syms |= symbols(f)
        out, pend = [], list(cx.axioms[:upto])
        changed = True
        while changed:
            changed = False
            rest = []
            for a, d in pend:
                if not d or (d & syms):
                    out.append(a)
                    n = symbols(a)
                    if not n <= syms:
                        syms |= n
                        changed = True
                else:
                    rest.append((a, d))
            pend = rest
        return out

    def solver(self, ms, mbqi, simple=True):
        s = z3.SimpleSolver() if simple else z3.Solver()
        s.set('timeout', int(ms))
        s.set('mbqi', mbqi)
        s.set('auto_config', False)
        s.set('random_seed', 1)
        return s

    def valid(self, cx, hyps, goal, ms=2000):
        g = simp(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g) and not hyps:
            return False
        t = time.time()
        self.nqueries += 1
        ax = self.relevant(cx, list(hyps) + [g])
        key = hash(tuple(sorted(x.hash() for x in ax + list(hyps)))) ^ g.hash()
        if key in self.cache:
            return self.cache[key]
        s = self.solver(ms, False)
        s.add(*ax)
        s.add(*hyps)
        s.add(Not(g))
        r = s.check()
        if r != z3.unsat:
            if has_product(list(ax) + list(hyps) + [g]):
                nx, ng = self.normal(list(ax) + list(hyps), Not(g))
                s = self.solver(ms, False)
                s.add(*nx)
                s.add(ng)
                r = s.check()
        self.time += time.time() - t
        self.cache[key] = r == z3.unsat
        return r == z3.unsat

    def feasible(self, cx, conds):
        s = self.solver(300, False)
        qf = [a for a in self.relevant(cx, conds)]
        s.add(*[a for a in qf if not z3.is_quantifier(a)])
        s.add(*conds)
        return s.check() != z3.unsat

    def discharge(self, cx, o, axioms=None):
        """Sets o.status to proved / refuted / unknown."""
        if o.status == 'trivial':
            return
        t = time.time()
        ax = self.relevant(cx, list(o.hyps) + [o.goal], o.nax)
        o.status = 'unknown'
        T = self.timeout
        ax = list(ax) + self.set_facts(cx, o, ax)
        nx = None
        for ms, mbqi, seed, text, simple in ((T // 40, False, 1, False, True), (T // 12, False, 1, 'norm', True), (T // 10, False, 1, False, True), (T // 12, False, 0, False, True), (T // 12, False, 0, 'norm', True), (T // 8, False, 1, False, True),
                                             (T // 8, False, 1, False, False), (T // 10, True, 1, False, True),
                                             (T // 2, False, 1, 'cvc5', True),
                                             (T // 3, False, 2, True, True), (T // 3, False, 3, True, False),
                                             (T // 2, True, 1, False, True), (T // 2, False, 5, True, False)):
            if text == 'cvc5':
                if self.second(cx, o, max(1, ms / 1000)) == 'unsat':
                    o.status, o.detail = 'proved', 'cvc5'
                    break
                continue
            if text == 'norm':
                if nx is None:
                    fs = list(ax) + list(o.hyps)
                    nx, ng = self.normal(fs, Not(o.goal)) if has_product(fs + [o.goal]) else (False, None)
                if nx is False:
                    continue
            if text == 'norm' and seed:
                s = self.solver(ms, mbqi, simple)
                s.add(*nx)
                s.add(ng)
            elif text and text != 'norm':
                c2 = z3.Context()
                s = z3.SimpleSolver(ctx=c2) if simple else z3.Solver(ctx=c2)
                s.set('timeout', int(ms))
                s.set('mbqi', mbqi)
                s.set('auto_config', False)
                s.set('random_seed', seed)
                s.from_string(self.smt2(cx, o))
            else:
                use, neg = (nx, ng) if text else (list(ax) + list(o.hyps), Not(o.goal))
                if seed == 0:
                    extra, rest, prods = self.hints(use, o, norm if text else simp)
                    # the quantified originals left out: they can send the solver into a matching loop
                    won = False
                    for fs in ([rest + extra] if extra else []) + ([rest + extra + prods, use + prods] if prods else []):
                        s = self.solver(ms, mbqi, simple)
                        s.add(*fs)
                        s.add(neg)
                        if s.check() == z3.unsat:
                            won = True
                            break
                    if won:
                        o.status, o.detail = 'proved', ''
                        break
                    if not extra:
                        continue
                    use = use + extra
                s = self.solver(ms, mbqi, simple)
                s.add(*use)
                s.add(neg)
            r = s.check()
            if r == z3.unsat:
                o.status, o.detail = 'proved', ''
                break
            o.detail = '%s (%s)' % (r, s.reason_unknown() if r == z3.unknown else 'counterexample')
            if r == z3.sat:
                o.status = 'refuted'
                try:
                    o.model = str(s.model())[:4000]
                except z3.Z3Exception:
                    pass
                break
        o.time = time.time() - t
        self.time += o.time

    def normal(self, fs, neg):
        return NL_AX + [norm(f) for f in fs], norm(neg)

    def set_facts(self, cx, o, ax):
        """Equations between the cardinalities an obligation mentions, each from a proved set equality:
        equal sets have equally many elements; |A| + |B| = |A and B| + |A or B| (finite sets; mathematical facts)."""
        cs = []
        seen = set()
        cards(o.goal, cs, seen)
        if not cs or len(cs) > 6:
            return []
        S = z3.Select
        out = []

        base = [f for f in list(ax) + list(o.hyps) if not any(n.startswith('CARD_') for n in symbols(f))]

        def same(*eqs):
            for p, q in eqs:
                for l, r in ((p, q), (q, p)):
                    s = self.solver(1000, False)
                    s.add(*base)
                    s.add(l, Not(r))
                    if s.check() != z3.unsat:
                        return False
            return True
        dup = set()
        for i, a in enumerate(cs):
            for j in range(i):
                b = cs[j]
                if j in dup or a.arg(0).sort() != b.arg(0).sort():
                    continue
                x = z3.FreshConst(a.arg(0).sort().domain(), 'sx')
                if same((S(a.arg(0), x), S(b.arg(0), x))):
                    out.append(a == b)
                    dup.add(i)
                    break
        rep = [c for i, c in enumerate(cs) if i not in dup]
        if len(rep) >= 4 and cx.incl_excl:
            cx.lemmas_used.add('inclusion-exclusion for two finite sets')
            for i, a in enumerate(rep):
                for b in rep[:i]:
                    for n in rep:
                        for u in rep:
                            if len({t.get_id() for t in (a, b, n, u)}) < 4:
                                continue
                            x = z3.FreshConst(a.arg(0).sort().domain(), 'sx')
                            A, C, N, U = [S(t.arg(0), x) for t in (a, b, n, u)]
                            if same((N, And(A, C)), (U, Or(A, C))):
                                out.append(a + b == n + u)
        return out

    def hints(self, fs, o, norm=lambda f: f):
        """Instances of quantified hypotheses at the goal's integer constants and their neighbours."""
        cs = []
        int_consts(o.goal, cs, set())
        if len(cs) > 6:
            cs = cs[-6:]
        out, rest = [], []
        for f in fs:
            got = False
            for c in cs:
                if instances(f, c) is None:
                    continue
                got = True
                for d in (0, -1, 1, -2, 2) if c.sort() == I else (0,):
                    out.append(norm(instances(f, c + d if d else c)))
            z = instances(f, z3.IntVal(0))
            if z is not None:
                out.append(norm(z))
            if not got:
                rest.append(f)
        out = out[:600]
        return out, rest, [norm(f) for f in product_facts(rest + out + [norm(o.goal)])]

    def smt2(self, cx, o):
        s = z3.Solver()
        s.add(*self.relevant(cx, list(o.hyps) + [o.goal], o.nax))
        s.add(*o.hyps)
        s.add(Not(o.goal))
        return s.sexpr()

    def second(self, cx, o, seconds=4):
        """The verdict of a second solver on a discharged obligation: unsat (agrees), sat (contradicts), or none."""
        body = '(set-logic ALL)\n' + self.smt2(cx, o) + '\n(check-sat)\n'
        try:
            p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % int(seconds * 1000), '-'], input=body, capture_output=True,
                               text=True, timeout=seconds + 5)
        except (OSError, subprocess.TimeoutExpired):
            return 'none'
        r = p.stdout.split()
        return r[0] if r and r[0] in ('unsat', 'sat') else 'none'

    def vacuity(self, cx, o):
        """The hypotheses must not be refutable (they are not expected to be contradictory)."""
        t = time.time()
        ax = self.relevant(cx, list(o.hyps), o.nax)
        s = self.solver(3000, False)
        s.add(*ax)
        s.add(*o.hyps)
        o.status = 'vacuous' if s.check() == z3.unsat else 'reachable'
        o.time = time.time() - t
