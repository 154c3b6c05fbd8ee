"""Symbolic execution of MIR, function by function, against contracts."""
import hashlib, re, struct, time, sys
from fractions import Fraction
import z3
import mir
from mir import Ty, Callee, INTS, BITS
from vals import *
import vals

sys.setrecursionlimit(20000)


def fconst(x, single=False):
    """The exact value of a floating-point constant."""
    if single:
        x = struct.unpack('f', struct.pack('f', x))[0]
    q = Fraction(x)
    return z3.Q(q.numerator, q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)


class Impure(Exception):
    pass


class PanicStop(Exception):
    pass


class St:
    __slots__ = ('roots', 'types', 'path', 'trace', 'cnt')

    def __init__(self):
        self.roots, self.types, self.path, self.trace, self.cnt = {}, {}, [], '', {}

    def copy(self):
        s = St()
        s.roots, s.types, s.path, s.trace, s.cnt = (dict(self.roots), dict(self.types), list(self.path),
                                                    self.trace, dict(self.cnt))
        return s

    def branch(self, c):
        if not z3.is_true(c):
            self.path.append(('b', c))

    def fact(self, c):
        if not z3.is_true(c):
            self.path.append(('f', c))

    def conds(self):
        return [c for _, c in self.path]


class Obl:
    __slots__ = ('name', 'hyps', 'goal', 'fn', 'kind', 'axioms', 'status', 'time', 'detail', 'model', 'props', 'expect', 'second', 'nax')

    def __init__(self, name, hyps, goal, fn, kind):
        self.name, self.hyps, self.goal, self.fn, self.kind = name, hyps, goal, fn, kind
        self.status, self.time, self.detail, self.model = None, 0.0, '', None
        self.props, self.expect, self.nax = None, True, None


def subst_ty(ty, sub):
    if not sub:
        return ty
    if ty.k == 'path' and ty.name in sub and not ty.args:
        return sub[ty.name]
    if ty.args:
        return Ty(ty.k, ty.name, [subst_ty(a, sub) if isinstance(a, Ty) else a for a in ty.args], ty.mut)
    return ty


def unify_ty(p, a, out):
    if p.k == 'ref' and a.k == 'ref':
        return unify_ty(p.args[0], a.args[0], out)
    if p.k == 'path' and not p.args and (p.name in GENERIC_NAMES or p.name == 'Self'):
        out.setdefault(p.name, a)
        return
    if p.k != a.k:
        return
    if p.k == 'path' and p.name.split('::')[-1] != a.name.split('::')[-1]:
        return
    for x, y in zip(p.args, a.args):
        if isinstance(x, Ty) and isinstance(y, Ty):
            unify_ty(x, y, out)


def strip_generics(name):
    """`MinHashBand::<T, Id, C>::insert` -> `MinHashBand::insert`; trait impls keep self head and trait."""
    c = Callee(name)
    return ckey(c)


def head(ty):
    while ty is not None and ty.k in ('ref',):
        ty = ty.args[0]
    if ty is None:
        return None
    if ty.k == 'path':
        return ty.name.split('::')[-1]
    return ty.k


def ckey(c):
    if c.trait is not None:
        try:
            h = head(mir.parse_type(c.self_ty))
        except Exception:
            h = str(c.self_ty)
        return '<%s as %s>::%s' % (h, c.trait, c.method)
    return c.key()


class FnInfo:
    """Control-flow facts of one MIR body."""

    def __init__(self, fn):
        self.fn = fn
        self.succ = {}
        for b, stmts in fn.blocks.items():
            t = stmts[-1] if stmts else ('nop',)
            self.succ[b] = self._succ(t)
        self._loops()
        self._live()

    @staticmethod
    def _succ(t):
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
        if t[0] == 'assert':
            return [t[4]]
        if t[0] == 'call':
            return [t[4]] if t[4] is not None else []
        return []

    def _loops(self):
        color, back = {}, []
        order = []

        def dfs(b):
            stack = [(b, iter(self.succ.get(b, [])))]
            color[b] = 1
            while stack:
                x, it = stack[-1]
                adv = False
                for y in it:
                    if y not in color:
                        color[y] = 1
                        stack.append((y, iter(self.succ.get(y, []))))
                        adv = True
                        break
                    if color[y] == 1:
                        back.append((x, y))
                if not adv:
                    color[x] = 2
                    order.append(x)
                    stack.pop()
        dfs(0)
        pred = {}
        for a, ss in self.succ.items():
            for s in ss:
                pred.setdefault(s, []).append(a)
        self.heads = {}
        for src, h in back:
            body = self.heads.setdefault(h, {h})
            work = [src]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(p for p in pred.get(x, []) if p in color)

    def _live(self):
        use, deff = {}, {}
        borrowed = set()

        def pl(p, us):
            us.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    us.add(e[1])

        def op(o, us):
            if o[0] == 'use':
                pl(o[1], us)

        def rv(r, us):
            k = r[0]
            if k == 'use':
                op(r[1], us)
            elif k in ('ref',):
                pl(r[2], us)
                if r[1]:
                    borrowed.add(r[2][0]) if not any(e[0] == '*' for e in r[2][1]) else None
            elif k in ('rawref', 'discr', 'len'):
                pl(r[-1] if isinstance(r[-1], tuple) else r[1], us)
            elif k == 'bin':
                op(r[2], us), op(r[3], us)
            elif k == 'un':
                op(r[2], us)
            elif k == 'cast':
                for x in r[1:]:
                    if isinstance(x, tuple) and x and x[0] in ('use', 'const'):
                        op(x, us)
            elif k == 'repeat':
                op(r[1], us)
            else:
                for x in r[1:]:
                    if isinstance(x, list):
                        for y in x:
                            op(y, us)
        for b, stmts in self.fn.blocks.items():
            u, d = set(), set()
            for s in stmts:
                us = set()
                ds = None
                if s[0] == 'assign':
                    rv(s[2], us)
                    if s[1][1]:
                        pl(s[1], us)
                    else:
                        ds = s[1][0]
                elif s[0] == 'call':
                    for o in s[3]:
                        op(o, us)
                    if s[1][1]:
                        pl(s[1], us)
                    else:
                        ds = s[1][0]
                elif s[0] == 'switch':
                    op(s[1], us)
                elif s[0] == 'assert':
                    op(s[1], us)
                elif s[0] == 'return':
                    us.add(0)
                u |= us - d
                if ds is not None:
                    d.add(ds)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.fn.blocks}
        ch = True
        while ch:
            ch = False
            for b in self.fn.blocks:
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live


# ---------------------------------------------------------------- context
def pattern_ok(t):
    """Only uninterpreted applications (and what they contain: arithmetic at most) make patterns."""
    if not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        return False
    work = list(t.children())
    while work:
        e = work.pop()
        if z3.is_quantifier(e) or (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE) or (z3.is_app(e) and e.sort() == B and e.num_args()):
            return False
        work.extend(e.children())
    return True


ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', "'": "'", '"': '"'}


def unescape(s):
    """The text of a Rust literal."""
    return re.sub(r'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2})|(.))',
                  lambda m: chr(int(m.group(2) or m.group(3), 16)) if m.group(2) or m.group(3) else ESC.get(m.group(4), m.group(4)), s)


class Ctx:
    def __init__(self, crate, tenv, contracts=None, prover=None):
        self.crate, self.tenv = crate, tenv
        self.contracts = contracts or {}
        self.prover = prover
        self.axioms = []          # (formula, frozenset of defined symbol names)
        self.axkeys = set()
        self.obls = []
        self.params = []
        self.stack = []
        self.scratch = 0
        self.panic_ok = FALSE
        self.infos = {}
        self.by_key = {}
        self.used_contracts = set()
        self.inlined = set()
        self.models_used = set()
        self.folds = []
        self.assumed = set()
        self.lemmas_used = set()
        self.incl_excl = False
        self.known_folds, self.special_folds, self.extra_models = [], [], []
        self.depth = 0
        self.curfn = ''
        self.props = frozenset()
        self.inline_only = set()
        for f in crate.fns:
            try:
                self.by_key.setdefault(strip_generics(f.name), []).append(f)
            except Exception:
                pass
        import models, loops
        self.models, self.loops = models, loops

    # ---- symbols
    def site(self, st):
        return hashlib.md5(('|'.join(self.stack) + '#' + st.trace).encode()).hexdigest()[:10]

    def symname(self, st, name):
        s = self.site(st)
        key = s + name
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return '%s!%s%s' % (name, s, ('.%d' % n) if n else '')

    def const(self, st, name, sort):
        nm = self.symname(st, name)
        return z3.Const(nm, sort)

    def func(self, st, name, extra, sort):
        """Fresh function of the generic parameters and the `extra` sorts; returns a callable."""
        nm = self.symname(st, name)
        ps = list(self.params)
        sorts = [p.sort() for p in ps] + list(extra)
        if not sorts:
            c = z3.Const(nm, sort)
            f = lambda: c
            f.decl = c.decl()
            return f
        fd = z3.Function(nm, *sorts, sort)
        g = lambda *xs: fd(*ps, *xs)
        g.decl = fd
        return g

    def fresh(self, st, name, sort, rng=None):
        f = self.func(st, name, [], sort)
        e = f()
        if rng:
            self.axiom(st, And(e >= rng[0], e <= rng[1]), defs=[f.decl.name()], pats=[[e]] if self.params else None,
                       guard=False)
        return e

    def axiom(self, st, body, binders=(), pats=None, defs=(), guard=True):
        """Record  forall params, binders. path -> body."""
        if guard:
            body = Implies(And(st.conds()), body)
        vs = list(self.params) + list(binders)
        vs = [v for v in vs if occurs(body, v)] if vs else vs
        f = body
        if vs:
            ps = None
            pats = [p for p in pats or () if all(pattern_ok(t) for t in p)]
            if pats:
                ps = []
                for p in pats:
                    ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
                # every bound variable must occur in each pattern
                if not all(all(any(occurs(t, v) for t in p) for v in vs) for p in pats):
                    ps = None
            try:
                f = ForAll(vs, body, ps)
            except z3.Z3Exception:      # not every term can be a pattern
                f = ForAll(vs, body)
        self.axioms.append((f, frozenset(defs)))

    def oblige(self, st, name, goal, kind='check', extra=(), props=None):
        if self.scratch:
            return
        o = Obl(name, st.conds() + list(extra), goal, self.curfn, kind)
        o.props = frozenset(props) if props is not None else self.props
        # what is recorded later (the conclusion of a loop, the promise of a callee) may rest on this obligation
        o.nax = len(self.axioms)
        if z3.is_true(goal):
            o.status = 'trivial'
        self.obls.append(o)

    def prove(self, hyps, goal, ms=2000):
        return self.prover.valid(self, hyps, goal, ms)

    # ---- shapes
    def shape(self, ty, sub=None):
        return self.tenv.shape(subst_ty(ty, sub))

    def fresh_value(self, st, sh, name, binders=(), nested=False):
        """Arbitrary value of a shape whose leaves are functions of params and binders."""
        bs = [b.sort() for b in binders]

        def leaf(suffix, extra, sort, rng=None):
            f = self.func(st, name + suffix, bs + [e.sort() for e in extra], sort)
            e = f(*binders, *extra)
            if rng is not None:
                vs = [b if z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED else gensym('b', b.sort()) for b in binders]
                g = f(*vs, *extra)
                self.axiom(st, And(g >= rng[0], g <= rng[1]), vs + list(extra), [[g]], [f.decl.name()], guard=False)
            return f, e
        k = sh.kind
        if k == 'scalar':
            return leaf('', [], sh.sort, sh.rng)[1]
        if k == 'bits':
            return leaf('', [], sh.sort)[1]
        if k == 'tup':
            return Tup([self.fresh_value(st, f, '%s.%s' % (name, sh.names[i] if hasattr(sh, 'names') else i), binders)
                        for i, f in enumerate(sh.fields)], sh.name)
        if k == 'enum':
            tag = leaf('.tag', [], I, (0, len(sh.variants) - 1))[1]
            return Enum(tag, {i: [self.fresh_value(st, f, '%s.v%d.%d' % (name, i, j), binders)
                                  for j, f in enumerate(fs)] for i, fs in enumerate(sh.variants)}, sh.name)
        if k == 'seq':
            n = leaf('.n', [], I, (0, 2**63 - 1))[1]
            if sh.elt.kind == 'scalar':
                f = self.func(st, name + '.arr', bs, z3.ArraySort(I, sh.elt.sort))
                arr = f(*binders)
                if sh.elt.rng is not None:
                    j = gensym('j', I)
                    e = z3.Select(arr, j)
                    self.axiom(st, And(e >= sh.elt.rng[0], e <= sh.elt.rng[1]), list(binders) + [j], [[e]],
                               [f.decl.name()], guard=False)
                return Seq.of_arr(n, arr)
            j = gensym('j', I)
            ev = self.fresh_value(st, sh.elt, name + '[]', list(binders) + [j])
            return Seq(n, lambda i: subst(ev, [(j, i)]))
        if k == 'set':
            x = gensym('x', sh.ksort)
            f = self.func(st, name + '.mem', bs + [sh.ksort], B)
            return SetV(lambda y: f(*binders, y))
        if k == 'bag':
            f = self.func(st, name + '.mem', bs + [sh.ksort], B)
            g = self.func(st, name + '.multi', bs + [sh.ksort], B)
            return Bag(lambda y: f(*binders, y), lambda y: g(*binders, y))
        if k == 'map':
            f = self.func(st, name + '.has', bs + [sh.ksort], B)
            x = gensym('x', sh.ksort)
            v = self.fresh_value(st, sh.val, name + '{}', list(binders) + [x])
            return MapV(lambda y: f(*binders, y), lambda y: subst(v, [(x, y)]), sh.key)
        if k == 'ptr':
            inner = self.shape(sh.inner)
            root = self.symname(st, name + '&')
            st.roots[root] = self.fresh_value(st, inner, name, binders)
            st.types[root] = sh.inner
            return Ptr(root, [])
        if k == 'iter':
            n = leaf('.n', [], I, (0, 2**62 - 1))[1]
            j = gensym('j', I)
            ev = self.fresh_value(st, sh.elt, name + '[]', list(binders) + [j])
            return Iter(('seq', n, memo(lambda i: subst(ev, [(j, i)]))))
        if k == 'opaque':
            return Opaque(repr(sh.ty))
        raise Unsupported('fresh %s' % k)

    def leaves(self, st, sh, v, path='', binders=(), out=None, nested=False):
        """path -> (binders, expr) for every leaf of v; ('const', value) leaves for the rest."""
        if out is None:
            out = {}
        k = sh.kind
        if isinstance(v, Undef) and k not in ('clo', 'ptr', 'opaque', 'iter'):
            v = self.fresh_value(st, sh, 'junk', binders)
        if isinstance(v, (Ptr, Clo, Opaque, HasherV, FnItem)):
            out[path] = ('const', v)
            return out
        if isinstance(v, Iter):
            out[path + '.pos'] = (list(binders), v.pos)
            out[path + '.src'] = ('const', v)
            return out
        if k == 'scalar' or k == 'bits' and getattr(self, 'bits_atomic', False):
            out[path] = (list(binders), v)
        elif k == 'bits':
            b = z3.Int('b!bit%d' % len(binders))
            out[path + '.bit'] = (list(binders) + [b], simp(self.models.bit_of(v, b)))
        elif k == 'tup':
            for i, f in enumerate(sh.fields):
                self.leaves(st, f, v.f[i], '%s.%d' % (path, i), binders, out, nested)
        elif k == 'enum':
            out[path + '.tag'] = (list(binders), v.tag)
            for i, fs in enumerate(sh.variants):
                if i in v.alts:
                    for j, f in enumerate(fs):
                        self.leaves(st, f, v.alts[i][j], '%s.v%d.%d' % (path, i, j), binders, out, True)
                else:
                    for j, f in enumerate(fs):
                        self.leaves(st, f, UNDEF, '%s.v%d.%d' % (path, i, j), binders, out, True)
        elif k == 'seq':
            out[path + '.n'] = (list(binders), v.n)
            if nested and sh.elt.kind == 'scalar':
                # an array made for this leaf depends on the positions above it
                new = [b for b in binders if not any(b.eq(q) for q in self.params)]
                self.params.extend(new)
                try:
                    arr, off = self.arr_of(st, v)
                    if not is_zero(off):
                        arr = self.shifted(arr, off)
                finally:
                    if new:
                        del self.params[-len(new):]
                out[path + '.arr'] = (list(binders), arr)
            else:
                b = z3.Int('b!i%d' % len(binders))
                e = v.at(b)
                self.leaves(st, sh.elt, e, path + '[]', list(binders) + [b], out, True)
        elif k == 'set':
            b = z3.Const('b!x%d_%s' % (len(binders), sh.ksort), sh.ksort)
            out[path + '.mem'] = (list(binders) + [b], v.mem(b))
        elif k == 'bag':
            b = z3.Const('b!x%d_%s' % (len(binders), sh.ksort), sh.ksort)
            out[path + '.mem'] = (list(binders) + [b], v.mem(b))
            out[path + '.multi'] = (list(binders) + [b], v.multi(b))
        elif k == 'map':
            b = z3.Const('b!x%d_%s' % (len(binders), sh.ksort), sh.ksort)
            out[path + '.has'] = (list(binders) + [b], v.has(b))
            self.leaves(st, sh.val, v.get(b), path + '{}', list(binders) + [b], out, True)
            if sh.val.kind == 'bag' and path + '{}.mem' in out and getattr(self, 'canon_bags', False):
                # what an absent key maps to is never seen: take it to be the empty bag
                (bm, m), (bu, u) = out[path + '{}.mem'], out[path + '{}.multi']
                out[path + '{}.mem'] = (bm, And(v.has(b), m))
                out[path + '{}.multi'] = (bm, And(v.has(b), m, u))
        elif k in ('opaque', 'clo', 'ptr', 'iter'):
            out[path] = ('const', v)
        else:
            raise Unsupported('leaves %s' % k)
        return out

    def build(self, st, sh, leaf, orig, path='', binders=(), nested=False):
        """Inverse of leaves: leaf(path, binders) -> expr, or None to keep the original."""
        k = sh.kind
        if isinstance(orig, (Ptr, Clo, Opaque, HasherV, FnItem)):
            return orig
        if isinstance(orig, Iter):
            return Iter(orig.src, leaf(path + '.pos', binders))
        if k == 'scalar' or k == 'bits' and getattr(self, 'bits_atomic', False):
            return leaf(path, binders)
        if k == 'bits':
            return self.bits_from(st, sh.sort, lambda i: leaf(path + '.bit', list(binders) + [i]), binders)
        if isinstance(orig, Undef):
            orig = self.fresh_value(st, sh, 'junk', binders)
        if k == 'tup':
            return Tup([self.build(st, f, leaf, orig.f[i], '%s.%d' % (path, i), binders, nested)
                        for i, f in enumerate(sh.fields)], sh.name)
        if k == 'enum':
            alts = {}
            for i, fs in enumerate(sh.variants):
                o = orig.alts.get(i, [UNDEF] * len(fs))
                alts[i] = [self.build(st, f, leaf, o[j], '%s.v%d.%d' % (path, i, j), binders, True)
                           for j, f in enumerate(fs)]
            return Enum(leaf(path + '.tag', binders), alts, sh.name)
        if k == 'seq':
            n = leaf(path + '.n', binders)
            if nested and sh.elt.kind == 'scalar':
                return Seq.of_arr(n, leaf(path + '.arr', binders))
            return Seq(n, lambda i: self.build(st, sh.elt, leaf, orig.at(i), path + '[]', list(binders) + [i], True))
        if k == 'set':
            return SetV(lambda x: leaf(path + '.mem', list(binders) + [x]))
        if k == 'bag':
            return Bag(lambda x: leaf(path + '.mem', list(binders) + [x]),
                       lambda x: leaf(path + '.multi', list(binders) + [x]))
        if k == 'map':
            return MapV(lambda x: leaf(path + '.has', list(binders) + [x]),
                        lambda x: self.build(st, sh.val, leaf, orig.get(x), path + '{}', list(binders) + [x], True),
                        orig.kty or sh.key)
        return orig

    def width_of(self, sh, path):
        """Width of the bit leaf at path, if it is one."""
        if not path.endswith('.bit'):
            return None
        while sh.kind != 'bits':
            if sh.kind == 'seq':
                sh, path = sh.elt, path[path.index('[]') + 2:]
            elif sh.kind == 'map':
                sh, path = sh.val, path[path.index('{}') + 2:]
            elif sh.kind == 'tup':
                m = re.match(r'\.(\d+)', path)
                sh, path = sh.fields[int(m.group(1))], path[m.end():]
            elif sh.kind == 'enum':
                m = re.match(r'\.v(\d+)\.(\d+)', path)
                sh, path = sh.variants[int(m.group(1))][int(m.group(2))], path[m.end():]
            else:
                return None
        return WIDTH(sh.sort)

    def bits_from(self, st, sort, bitfn, binders=()):
        """A value of bit-vector-like sort with the given bits."""
        i = z3.Int('i!bits')
        e = simp(bitfn(i))
        whole = bits_whole(e, i, sort)
        if whole is not None:
            return whole
        cs = []
        free_terms(e, i, cs, {})
        canon = [z3.Const('cv%d' % n, c.sort()) for n, c in enumerate(cs)]
        body = z3.substitute(e, *zip(cs, canon)) if cs else e
        nm = 'bits!' + hashlib.sha1((str(sort) + body.sexpr()).encode()).hexdigest()[:12]
        f = bitf(sort)
        g = z3.Function(nm, *[c.sort() for c in cs], sort) if cs else z3.Const(nm, sort)
        t = g(*canon) if cs else g
        self.models.BITDEF[nm] = (canon, i, body)
        if nm not in self.axkeys:
            # a value with these bits exists for all parameters (comprehension over the positions)
            self.models.bits_ext(self, sort)
            self.axioms.append((ForAll(canon + [i], Implies(And(i >= 0, i < WIDTH(sort)), f(t, i) == body), [f(t, i)]), frozenset([nm])))
        return g(*cs) if cs else g

    # ---- arrays behind sequences
    def arr_of(self, st, seq):
        if seq.arr is not None:
            return seq.arr, seq.off
        c = gensym('c', I)
        e = seq.at(c)
        if not is_scalar(e):
            raise Unsupported('array of non-scalars')
        r = as_select(e, c)
        if r is not None:
            return r
        r = self.select_cases(e, c)
        if r is not None:
            return r, iv(0)
        return self.reify(st, seq)

    def select_cases(self, e, c):
        """The array whose c-th element is e, a choice (not depending on c) between array elements."""
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not occurs(e.arg(0), c):
            a, b = self.select_cases(e.arg(1), c), self.select_cases(e.arg(2), c)
            return If(e.arg(0), a, b) if a is not None and b is not None else None
        r = as_select(e, c)
        if r is None:
            return None
        return r[0] if is_zero(r[1]) else self.shifted(*r)

    def shifted(self, a, o):
        """The array a from position o on."""
        es = a.sort().range()
        f = z3.Function('from_' + str(es), a.sort(), I, a.sort())
        if f.name() not in self.axkeys:
            self.axkeys.add(f.name())
            x, k, i = z3.Const('x', a.sort()), z3.Int('k'), z3.Int('i')
            t = z3.Select(f(x, k), i)
            ax = (z3.ForAll([x, k, i], t == z3.Select(x, k + i), patterns=[t]), frozenset([f.name()]))
            self.axioms.append(ax)
            self.__dict__.setdefault('lib_axioms', {})[f.name()] = ax
        return f(a, simp(o))

    def reify(self, st, seq, force=False):
        i = gensym('i', I)
        e = seq.at(i)
        if isinstance(e, Undef):
            raise Unsupported('array of undefined element')
        if not is_scalar(e):
            raise Unsupported('array of non-scalars')
        a = self.fresh(st, 'arr', z3.ArraySort(I, e.sort()))
        self.axiom(st, Implies(And(i >= 0, i < seq.n), z3.Select(a, i) == e), [i], [[z3.Select(a, i)]],
                   [decl_name(a)], guard=False)
        return a, iv(0)

    # ---- comparing values
    def equal(self, st, sh, a, b, path='', hyps=(), nested=False):
        """List of (leaf name, hyps, goal) whose validity means a equals b observationally."""
        out = []
        if a is b:
            return out
        k = sh.kind
        if isinstance(a, Undef) or isinstance(b, Undef):
            if isinstance(a, Undef) and isinstance(b, Undef):
                return out
            # an undefined part must be out of reach (element of an empty sequence, payload of another variant)
            out.append((path, list(hyps), FALSE))
            return out
        if k == 'scalar':
            out.append((path, list(hyps), a == b))
        elif k == 'bits':
            i = gensym('i', I)
            f = bitf(a.sort())
            out.append((path + '.bit', list(hyps) + [i >= 0, i < WIDTH(a.sort())], simp(self.models.bit_of(a, i) == self.models.bit_of(b, i))))
        elif k == 'tup':
            for i, f in enumerate(sh.fields):
                out += self.equal(st, f, a.f[i], b.f[i], '%s.%s' % (path, sh.names[i] if hasattr(sh, 'names') else i),
                                  hyps)
        elif k == 'enum':
            out.append((path + '.tag', list(hyps), a.tag == b.tag))
            for i, fs in enumerate(sh.variants):
                if not fs:
                    continue
                if i in a.alts and i in b.alts:
                    h = list(hyps) + [a.tag == i, b.tag == i]
                    for j, f in enumerate(fs):
                        out += self.equal(st, f, a.alts[i][j], b.alts[i][j], '%s.v%d.%d' % (path, i, j), h)
        elif k == 'seq':
            out.append((path + '.len', list(hyps), a.n == b.n))
            i = gensym('i', I)
            h = list(hyps) + [i >= 0, i < a.n, i < b.n]
            out += self.equal(st, sh.elt, a.at(i), b.at(i), path + '[i]', h)
        elif k == 'set':
            x = gensym('x', sh.ksort)
            out.append((path + '.member', list(hyps), a.mem(x) == b.mem(x)))
        elif k == 'bag':
            x = gensym('x', sh.ksort)
            out.append((path + '.holds', list(hyps), a.mem(x) == b.mem(x)))
            if not getattr(self, 'havoc_multi', False):
                out.append((path + '.multi', list(hyps) + [a.mem(x)], a.multi(x) == b.multi(x)))
        elif k == 'map':
            x = gensym('x', sh.ksort)
            out.append((path + '.has', list(hyps), a.has(x) == b.has(x)))
            out += self.equal(st, sh.val, a.get(x), b.get(x), path + '{k}', list(hyps) + [a.has(x), b.has(x)])
        elif isinstance(a, (Ptr, Clo, Opaque)):
            pass
        else:
            raise Unsupported('equal %s' % k)
        return out

    # ---- keys of maps and sets
    def key(self, st, v):
        if isinstance(v, Ptr):
            v = self.deref(st, v)
        if is_scalar(v):
            return v
        if isinstance(v, Tup):
            fs = [x for x in v.f if not (isinstance(x, Tup) and not x.f)]
            if len(fs) == 1:
                return self.key(st, fs[0])
            ks = [self.key(st, x) for x in fs]
            f = z3.Function('mkpair_' + '_'.join(str(k.sort()) for k in ks), *[k.sort() for k in ks],
                            usort('Key_' + '_'.join(str(k.sort()) for k in ks)))
            t = f(*ks)
            for n, k in enumerate(ks):
                pr = z3.Function('prj%d_' % n + str(t.sort()), t.sort(), k.sort())
                self.axiom(st, pr(t) == k, defs=[f.name()], guard=False)
            return t
        if isinstance(v, Seq):
            a, o = self.arr_of(st, v)
            ks, mk, ln, at = seqkey_funs(a.sort().range())
            self.need_seqkey(a.sort().range())
            return mk(a, o, v.n)
        raise Unsupported('key of %s' % type(v).__name__)

    def need_seqkey(self, es):
        nm = 'seqkey:' + str(es)
        if nm in self.axkeys:
            return
        self.axkeys.add(nm)
        ks, mk, ln, at = seqkey_funs(es)
        a = z3.Const('a', z3.ArraySort(I, es))
        o, n, i = z3.Ints('o n i')
        x, y = z3.Consts('x y', ks)
        m = mk(a, o, n)
        self.axioms.append((z3.ForAll([a, o, n], Implies(n >= 0, ln(m) == n), patterns=[m]), frozenset([mk.name()])))
        self.axioms.append((z3.ForAll([a, o, n, i], Implies(And(i >= 0, i < n), at(m, i) == z3.Select(a, o + i)),
                                      patterns=[at(m, i)]), frozenset([mk.name()])))
        d = z3.Function('keydiff_' + str(es), ks, ks, I)
        self.axioms.append((z3.ForAll([x, y], Or(x == y, ln(x) != ln(y),
                                                 And(d(x, y) >= 0, d(x, y) < ln(x), at(x, d(x, y)) != at(y, d(x, y)))),
                                      patterns=[z3.MultiPattern(ln(x), ln(y))]), frozenset([ln.name(), mk.name()])))
        self.axioms.append((z3.ForAll([x], ln(x) >= 0, patterns=[ln(x)]), frozenset([ln.name()])))

    def unkey(self, st, sh, k):
        if sh is None:
            raise Unsupported('unkey without shape')
        if sh.kind in ('scalar', 'bits'):
            return k
        if sh.kind == 'tup':
            fs = [f for f in sh.fields if not (f.kind == 'tup' and not f.fields)]
            if len(fs) == 1:
                return Tup([self.unkey(st, f, k) if f is fs[0] else UNIT for f in sh.fields], sh.name)
            out = []
            n = 0
            for f in sh.fields:
                if f.kind == 'tup' and not f.fields:
                    out.append(UNIT)
                    continue
                pr = z3.Function('prj%d_' % n + str(k.sort()), k.sort(), keysort(f))
                out.append(self.unkey(st, f, pr(k)))
                n += 1
            return Tup(out, sh.name)
        if sh.kind == 'seq':
            es = sh.elt.sort
            ks, mk, ln, at = seqkey_funs(es)
            self.need_seqkey(es)
            return Seq(ln(k), lambda i: at(k, i))
        raise Unsupported('unkey %s' % sh.kind)

    def card(self, st, ks, memfn):
        """Number of elements of a (finite) set given by its membership predicate."""
        x = gensym('x', ks)
        A = self.fresh(st, 'cset', z3.ArraySort(ks, B))
        mx = memfn(x)
        pats = [[z3.Select(A, x)]]
        gp = self.models.guard_pattern(mx, x, [])
        if gp:
            pats.append(gp)
        self.axiom(st, z3.Select(A, x) == mx, [x], pats, [decl_name(A)], guard=False)
        CARD = z3.Function('CARD_' + str(ks), z3.ArraySort(ks, B), I)
        nm = 'card:' + str(ks)
        if nm not in self.axkeys:
            self.axkeys.add(nm)
            a = z3.Const('a', z3.ArraySort(ks, B))
            b = z3.Const('b', z3.ArraySort(ks, B))
            w = z3.Function('cardwit_' + str(ks), z3.ArraySort(ks, B), ks)
            y = z3.Const('y', ks)
            fs = frozenset([CARD.name()])
            self.axioms.append((z3.ForAll([a], And(CARD(a) >= 0, CARD(a) < 2**63), patterns=[CARD(a)]), fs))
            self.axioms.append((z3.ForAll([a], Implies(CARD(a) > 0, z3.Select(a, w(a))), patterns=[CARD(a)]), fs))
            self.axioms.append((z3.ForAll([a, y], Implies(z3.Select(a, y), CARD(a) > 0),
                                          patterns=[z3.MultiPattern(CARD(a), z3.Select(a, y))]), fs))
            dfn = z3.Function('carddiff_' + str(ks), z3.ArraySort(ks, B), z3.ArraySort(ks, B), ks)
            self.axioms.append((z3.ForAll([a, b], Or(CARD(a) == CARD(b),
                                                     z3.Select(a, dfn(a, b)) != z3.Select(b, dfn(a, b))),
                                          patterns=[z3.MultiPattern(CARD(a), CARD(b))]), fs))
            sfn = z3.Function('cardsub_' + str(ks), z3.ArraySort(ks, B), z3.ArraySort(ks, B), ks)
            self.axioms.append((z3.ForAll([a, b], Or(CARD(a) <= CARD(b),
                                                     And(z3.Select(a, sfn(a, b)), Not(z3.Select(b, sfn(a, b))))),
                                          patterns=[z3.MultiPattern(CARD(a), CARD(b))]), fs))
        # instance useful for triggers
        return CARD(A)

    # ---- memory
    def read(self, st, root, path):
        if root not in st.roots:
            raise Unsupported('dangling root %s' % root)
        return self.rpath(st, st.roots[root], path)

    def rpath(self, st, v, path):
        i = 0
        while i < len(path):
            p = path[i]
            if isinstance(v, Ptr):
                v = self.deref(st, v)
                continue
            if p[0] == 'f':
                if isinstance(v, Tup):
                    v = v.f[p[1]]
                elif isinstance(v, Clo):
                    v = v.caps[p[1]]
                elif isinstance(v, Undef):
                    return UNDEF
                elif is_scalar(v) and str(v.sort()) in getattr(self, 'scalar_fields', {}):
                    v = self.scalar_fields[str(v.sort())](v, p[1])
                else:
                    raise Unsupported('field of %s' % type(v).__name__)
            elif p[0] == 'v':
                if isinstance(v, Entry):
                    i += 2
                    continue
                if not isinstance(v, Enum):
                    raise Unsupported('variant of %s' % type(v).__name__)
                nxt = path[i + 1]
                if p[1] not in v.alts:
                    return UNDEF
                v = v.alts[p[1]][nxt[1]]
                i += 1
            elif p[0] == 'idx':
                if not isinstance(v, Seq):
                    raise Unsupported('index of %s' % type(v).__name__)
                v = v.at(p[1])
            elif p[0] == 'map':
                if not isinstance(v, MapV):
                    raise Unsupported('key of %s' % type(v).__name__)
                v = v.get(p[1])
            elif p[0] == 'slice':
                v = Seq(p[2], lambda j, v=v, lo=p[1]: v.at(lo + j))
            else:
                raise Unsupported('path %s' % (p,))
            i += 1
        return v

    def deref(self, st, v):
        while isinstance(v, Ptr):
            v = self.read(st, v.root, v.path)
        return v

    def write(self, st, root, path, val):
        st.roots[root] = self.wpath(st, st.roots.get(root, UNDEF), list(path), val)

    def wpath(self, st, v, path, val, cond=TRUE):
        """v with the part at `path` replaced by val where cond holds; untouched parts stay identical."""
        if not path:
            return ite(cond, val, v)
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Tup):
                f = list(v.f)
                f[p[1]] = self.wpath(st, f[p[1]], path[1:], val, cond)
                return Tup(f, v.name)
            if isinstance(v, Clo):
                c = Clo(v.name, v.caps)
                c.__dict__.update({k: x for k, x in v.__dict__.items() if k not in ('caps',)})
                c.caps = list(v.caps)
                c.caps[p[1]] = self.wpath(st, c.caps[p[1]], path[1:], val, cond)
                return c
            raise Unsupported('write field of %s' % type(v).__name__)
        if p[0] == 'v':
            alts = dict(v.alts)
            fl = list(alts[p[1]])
            fl[path[1][1]] = self.wpath(st, fl[path[1][1]], path[2:], val, cond)
            alts[p[1]] = fl
            return Enum(v.tag, alts, v.name)
        if p[0] == 'idx':
            ix = p[1]
            if v.arr is not None and len(path) == 1 and is_scalar(val):
                return Seq.of_arr(v.n, If(cond, z3.Store(v.arr, ix + v.off, val), v.arr), v.off)
            return Seq(v.n, lambda i: self.wpath(st, v.at(i), path[1:], val, And(cond, simp(i == ix))))
        if p[0] == 'map':
            kx = p[1]
            return MapV(v.has, lambda k: self.wpath(st, v.get(k), path[1:], val, And(cond, simp(k == kx))), v.kty)
        if p[0] == 'slice':
            lo, n = p[1], p[2]
            if len(path) > 1 and path[1][0] == 'idx':
                return self.wpath(st, v, [('idx', simp(lo + path[1][1]))] + list(path[2:]), val, cond)
            if len(path) == 1:
                return Seq(v.n, lambda i: ite(And(cond, i >= lo, i < lo + n), val.at(i - lo), v.at(i)))
            raise Unsupported('write below a slice')
        raise Unsupported('write path %s' % (p,))

    # ---- places and operands
    def resolve(self, fr, st, place, create=False):
        """(root, path) of a place for writing or borrowing; path None when it lies behind a shared reference
        (value returned instead)."""
        root, path = fr.root(place[0]), []
        val = None           # not None: we are inside a snapshot value
        for e in place[1]:
            if e[0] == '*':
                cur = val if val is not None else self.read(st, root, path)
                if isinstance(cur, Ptr):
                    root, path, val = cur.root, list(cur.path), None
                else:
                    # box deref or shared reference
                    if val is None and not self._is_box(fr, place, e):
                        val = cur
                continue
            if e[0] == 'f':
                p = ('f', e[1])
            elif e[0] == 'v':
                p = ('v', e[1])
            elif e[0] == 'i':
                p = ('idx', self.deref(st, st.roots[fr.root(e[1])]))
            elif e[0] == 'c':
                p = ('idx', iv(e[1]))
            else:
                raise Unsupported('projection %s' % (e,))
            if val is not None:
                if p[0] == 'v':
                    pend = p
                    path = ['pend', p]
                    val = ('pend', val, p)
                    continue
                if isinstance(val, tuple):
                    val = self.rpath(st, val[1], [val[2], p])
                else:
                    val = self.rpath(st, val, [p])
            else:
                path.append(p)
        if val is not None:
            return None, val
        return root, path

    def _is_box(self, fr, place, e):
        t = fr.fn.locals.get(place[0])
        return t is not None and t.k == 'path' and t.name.split('::')[-1] == 'Box'

    def getplace(self, fr, st, place):
        root, path = self.resolve(fr, st, place)
        if root is None:
            return path
        return self.read(st, root, path)

    def operand(self, fr, st, op):
        if op[0] == 'use':
            return self.getplace(fr, st, op[1])
        return self.constant(fr, st, op[1])

    def constant(self, fr, st, s):
        s = s.strip()
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m:
            return iv(int(m.group(1)))
        if s in ('true', 'false'):
            return z3.BoolVal(s == 'true')
        m = re.match(r'^(-?[\d.eE+-]+)f(64|32)$', s)
        if m:
            return fconst(float(m.group(1)), m.group(2) == '32')
        if s == '()':
            return UNIT
        if s.startswith('"'):
            return z3.Const('str:' + s, usort('Str'))
        if s.startswith("'"):
            return iv(ord(unescape(s[1:-1]))) if len(s) > 2 else iv(0)
        if s.endswith('Option::None') or s.endswith('None') or re.search(r'Option::<.*>::None$', s):
            return none()
        last = s.split('::')[-1]
        if last in ('Less', 'Equal', 'Greater') and 'Ordering' in s:
            return Enum({'Less': -1, 'Equal': 0, 'Greater': 1}[last], {}, 'Ordering')
        if s.startswith('PhantomData') or s.startswith('AssertKind') or s.startswith('core::panicking::AssertKind'):
            return UNIT
        if last == 'PI':
            return z3.Const('PI', R)
        if last == 'EPSILON' and 'f64' in s:
            return z3.Q(1, 2**52)
        if last in ('MAX', 'MIN', 'BITS'):
            m = re.search(r'(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)', s)
            if m:
                lo, hi = int_range(m.group(1))
                if last == 'BITS':
                    return iv((hi - lo + 1).bit_length() - 1)
                return iv(hi if last == 'MAX' else lo)
        # const generic / named constant / fn item
        if re.match(r'^[A-Z]\w?$', s):
            c = z3.Int('const_' + s)
            if s in fr.consts:
                return fr.consts[s]
            return c
        own = s.split('::')[-2] if '::' in s else ''
        for i, (vn, ts) in enumerate(getattr(self.crate, 'enums', {}).get(own, ())):
            if vn == last and not ts:
                return Enum(i, {i: []}, own)
        if last.startswith('promoted['):
            for f in self.crate.fns:
                if not f.args and f.name.endswith(last) and s.endswith('::' + f.name):
                    outs = self.run_fn(f, [], st.copy(), {}, 'const')
                    if len(outs) == 1:
                        return self.deref(*outs[0])
            raise Unsupported('constant ' + s)
        m = re.match(r'^\{alloc\d+: &(.*)\}$', s)
        fs = self.crate.by_name.get(s) or self.crate.by_name.get(last)
        if fs is None and m:
            # pointer to a static; identified by its initialiser when there is exactly one of that type
            cands = [f for f in self.crate.fns if not f.args and f.ret is not None and repr(f.ret) == m.group(1)
                     and re.match(r'^[A-Z_0-9]+$', f.name.split('::')[-1])]
            fs = cands if len(cands) == 1 else None
        if fs is None:
            cands = [f for f in self.crate.fns if f.name.split('::')[-1] == last and not f.args]
            fs = cands if len(cands) == 1 else None
        if fs and not fs[0].args:
            outs = self.run_fn(fs[0], [], st.copy(), {}, 'const')
            if len(outs) == 1:
                return outs[0][1]
        return FnItem(s)

    # ---- rvalues
    def rvalue(self, fr, st, r, dst):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            root, path = self.resolve(fr, st, r[2])
            if r[1]:
                if root is None:
                    v = path
                    if isinstance(v, Ptr):
                        return v
                    # &mut through a shared snapshot (e.g. &mut *Box inside value): give it a root of its own
                    raise Unsupported('&mut of a snapshot')
                # reborrow collapses
                return Ptr(root, path)
            if root is None:
                return path
            v = self.read(st, root, path)
            if isinstance(v, Ptr):
                return v if False else self.deref(st, v)
            return v
        if k == 'rawref':
            root, path = self.resolve(fr, st, r[-1])
            return Ptr(root, path) if root is not None else path
        if k == 'discr':
            v = self.getplace(fr, st, r[1])
            v = self.deref(st, v)
            if isinstance(v, Entry):
                # Occupied is the first variant, Vacant the second
                return If(self.deref(st, v.ptr).has(v.key), z3.IntVal(0), z3.IntVal(1))
            if not isinstance(v, Enum):
                raise Unsupported('discriminant of %s' % type(v).__name__)
            return v.tag
        if k == 'len':
            v = self.deref(st, self.getplace(fr, st, r[1]))
            return v.n
        if k == 'bin':
            a = self.deref(st, self.operand(fr, st, r[2]))
            b = self.deref(st, self.operand(fr, st, r[3]))
            return self.binop(fr, st, r[1], a, b, self.opty(fr, r[2]), dst)
        if k == 'un':
            a = self.deref(st, self.operand(fr, st, r[2]))
            if r[1] == 'Not':
                if a.sort() == B:
                    return Not(a)
                if a.sort() == I:
                    return self.models.int_not(self, st, a, head(self.opty(fr, r[2])))
                return self.models.bits_not(self, st, a)
            if r[1] == 'Neg':
                return -a
            if r[1] == 'PtrMetadata':
                return a.n
            raise Unsupported('unop ' + r[1])
        if k == 'cast':
            return self.cast(fr, st, r)
        if k == 'closure':
            c = Clo(r[1], [self.operand(fr, st, o) for o in r[2]])
            c.sub = fr.sub
            c.owner = fr.fn.name if fr.fn is not None else '?'
            return c
        if k == 'tuple':
            return Tup([self.operand(fr, st, o) for o in r[1]])
        if k == 'array':
            vs = [self.operand(fr, st, o) for o in r[1]]

            def at(i, vs=vs):
                v = vs[-1]
                for j in range(len(vs) - 2, -1, -1):
                    v = ite(i == j, vs[j], v)
                return v
            return Seq(len(vs), at if vs else (lambda i: UNDEF))
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            n = r[2]
            n = self.constant(fr, st, n) if isinstance(n, str) else n
            if isinstance(n, tuple):
                n = self.operand(fr, st, n)
            if isinstance(n, int):
                n = iv(n)
            return Seq(n, lambda i: v)
        if k == 'aggr':
            return self.aggr(fr, st, r[1], [self.operand(fr, st, o) for o in r[2]], dst)
        raise Unsupported('rvalue %s' % k)

    def aggr(self, fr, st, name, vs, dst):
        n = re.sub(r'::<.*?>(?=::|$)', '', name)
        n = re.sub(r'<.*>', '', n)
        last = n.split('::')[-1]
        if last == 'Some':
            return some(vs[0])
        if last == 'None':
            return none()
        if last == 'Ok':
            return Enum(0, {0: vs}, 'Result')
        if last == 'Err':
            return Enum(1, {1: vs}, 'Result')
        if last in ('Range',):
            return Tup(vs, 'Range')
        if last in ('RangeTo', 'RangeFrom', 'RangeInclusive', 'RangeToInclusive', 'RangeFull'):
            return Tup(vs, last)
        if last in self.crate.structs:
            return Tup(vs, last)
        own = n.split('::')[-2] if '::' in n else ''
        for i, (vn, _) in enumerate(getattr(self.crate, 'enums', {}).get(own, ())):
            if vn == last:
                return Enum(i, {i: vs}, own)
        if last in ('Continue', 'Break'):
            return Enum(0 if last == 'Continue' else 1, {(0 if last == 'Continue' else 1): vs}, 'ControlFlow')
        return Tup(vs, last)

    def opty(self, fr, op):
        if op[0] == 'const':
            m = re.match(r'^-?[\d.eE+-]+_?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f64|f32)$', op[1])
            return Ty('path', m.group(1)) if m else None
        return self.placety(fr, op[1])

    def placety(self, fr, place):
        t = fr.fn.locals.get(place[0])
        for e in place[1]:
            if t is None:
                return None
            if e[0] == '*':
                t = t.args[0] if t.k in ('ref', 'ptr') or head(t) in ('Box',) else None
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                t = t.args[0] if t.args else None
        return subst_ty(t, fr.sub) if t is not None else None

    def binop(self, fr, st, op, a, b, ty, dst):
        if op in ('Eq', 'Ne'):
            e = self.value_eq(st, a, b)
            return e if op == 'Eq' else Not(e)
        if not (is_scalar(a) and is_scalar(b)):
            raise Unsupported('binop on %s' % type(a).__name__)
        s = a.sort()
        if s == R:
            f = {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}.get(op)
            if f:
                return f()
            if ty is not None and ty.k == 'path' and head(ty) == 'f32':
                return self.f32round(self.fop(op, a, b))
            return self.fop(op, a, b)
        if s == B:
            if op == 'BitAnd':
                return And(a, b)
            if op == 'BitOr':
                return Or(a, b)
            if op == 'BitXor':
                return a != b
            if op in ('Lt', 'Gt', 'Le', 'Ge'):
                raise Unsupported('bool order')
        if op == 'Lt':
            return a < b
        if op == 'Le':
            return a <= b
        if op == 'Gt':
            return a > b
        if op == 'Ge':
            return a >= b
        tn = head(ty) if ty is not None else 'usize'
        if s != I:
            return self.models.bits_binop(self, st, op, a, b)
        lo, hi = int_range(tn) if tn in INTS else (0, 2**64 - 1)
        base = op.replace('WithOverflow', '').replace('Checked', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = a + b if base == 'Add' else a - b if base == 'Sub' else self.mul(a, b)
            if 'WithOverflow' in op or 'Checked' in op:
                return Tup([r, Or(r < lo, r > hi)])
            if 'Unchecked' in op:
                return r
            # plain arithmetic in MIR without overflow check wraps
            if self.scratch == 0:
                self.oblige(st, 'no overflow in %s' % base, And(r >= lo, r <= hi), 'overflow')
            return r
        if base == 'Div':
            for h in getattr(self, 'div_defs', []):
                r = h(a, b)          # a division the contract has a name for
                if r is not None:
                    return r
            return a / b if lo >= 0 else self.idiv(a, b)
        if base == 'Rem':
            return a % b if lo >= 0 else self.irem(a, b)
        if base in ('Shl', 'Shr', 'BitAnd', 'BitOr', 'BitXor'):
            return self.models.int_bitop(self, st, base, a, b, tn)
        if base == 'Cmp':
            return Enum(If(a < b, iv(-1), If(a == b, iv(0), iv(1))), {}, 'Ordering')
        raise Unsupported('binop %s' % op)

    def mul(self, a, b):
        if z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        return a * b

    def idiv(self, a, b):
        if z3.is_int_value(b) and b.as_long() > 0:
            return z3.If(a >= 0, a / b, -((-a) / b))
        raise Unsupported('signed division')

    def irem(self, a, b):
        raise Unsupported('signed remainder')

    def fop(self, op, a, b):
        nm = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv'}.get(op)
        if nm is None:
            raise Unsupported('float op ' + op)
        f = z3.Function(nm, R, R, R)
        if nm in ('fadd', 'fmul') and a.get_id() > b.get_id():
            a, b = b, a
        self.float_axioms(nm)
        return f(a, b)

    def f32round(self, v):
        f = z3.Function('f32round', R, R)
        if 'fl:f32' not in self.axkeys:
            self.axkeys.add('fl:f32')
            x, y = z3.Reals('x y')
            self.axioms.append((z3.ForAll([x, y], Implies(x <= y, f(x) <= f(y)), patterns=[z3.MultiPattern(f(x), f(y))]),
                                frozenset(['f32round'])))
        return f(v)

    def float_axioms(self, nm):
        if 'fl:' + nm in self.axkeys:
            return
        self.axkeys.add('fl:' + nm)
        x, y, z = z3.Reals('x y z')
        f = z3.Function(nm, R, R, R)
        d = frozenset([nm])
        if nm == 'fdiv':
            t = f(x, y)
            self.axioms.append((z3.ForAll([x, y], Implies(And(x >= 0, x <= y, y > 0), And(t >= 0, t <= 1)), patterns=[t]), d))
            # quotients of integers (counts, all far below 2^53): exactly 1 only for equal ones
            m, n = z3.Ints('m n')
            u = f(z3.ToReal(m), z3.ToReal(n))
            self.axioms.append((z3.ForAll([m, n], Implies(And(m >= 0, m <= n, n > 0), (u == 1) == (m == n)), patterns=[u]), d))
        if nm == 'fsub':
            t = f(x, y)
            u = f(x, z)
            # rounding is monotone: x-y <= x-z whenever y >= z
            self.axioms.append((z3.ForAll([x, y, z], Implies(y >= z, t <= u), patterns=[z3.MultiPattern(t, u)]), d))
        if nm in ('fadd', 'fmul'):
            self.axioms.append((z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]), d))

    text = None             # 'chars', 'bytes': what the elements of a text are, where texts are sequences
    addr_eq = None          # equality of addresses where the contract models them

    def value_eq(self, st, a, b):
        a, b = self.deref(st, a), self.deref(st, b)
        if is_scalar(a) and is_scalar(b):
            if str(a.sort()).startswith('S_') and a.sort() == b.sort():
                return self.models.bits_eq(self, st, a, b)
            return a == b
        if isinstance(a, Tup) and isinstance(b, Tup):
            return And([self.value_eq(st, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Enum) and isinstance(b, Enum):
            cs = [a.tag == b.tag]
            for k in set(a.alts) & set(b.alts):
                if a.alts[k]:
                    cs.append(Implies(a.tag == k, And([self.value_eq(st, x, y) for x, y in zip(a.alts[k], b.alts[k])])))
            return And(cs)
        if isinstance(a, Seq) and isinstance(b, Seq):
            i = gensym('i', I)
            return And(a.n == b.n, ForAll([i], Implies(And(i >= 0, i < a.n), self.value_eq(st, a.at(i), b.at(i)))))
        if self.text:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Seq) and is_scalar(y) and z3.is_const(y) and y.decl().name().startswith('str:"'):
                    lit = unescape(y.decl().name()[5:-1])
                    lit = [ord(ch) for ch in lit] if self.text == 'chars' else list(lit.encode())
                    return And([x.n == len(lit)] + [x.at(iv(n)) == ch for n, ch in enumerate(lit)])
        r = self.addr_eq(st, a, b) if self.addr_eq else None
        if r is not None:
            return r
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    def cast(self, fr, st, r):
        op, ty = r[1], r[2]
        if op[0] == 'use' and op[1][1] and tuple(op[1][1][-1][:2]) == ('f', 0) and ty.k not in ('path',):
            # the pointer inside a Box: what the box owns
            bp = (op[1][0], op[1][1][:-1])
            bt = self.placety(fr, bp)
            if bt is not None and bt.k == 'path' and bt.name.split('::')[-1] == 'Box':
                root, path = self.resolve(fr, st, bp)
                return path if root is None else Ptr(root, path)
        v = self.operand(fr, st, op)
        ty = subst_ty(ty, fr.sub)
        tn = head(ty) if ty.k == 'path' else None
        scal = tn in INTS or tn in ('f64', 'f32', 'char', 'bool')
        if not scal:
            return v           # pointer/unsizing casts keep the value
        v = self.deref(st, v)
        sty = self.opty(fr, op)
        sn = head(sty) if sty is not None else None
        if isinstance(v, Enum):
            v = v.tag
        if not is_scalar(v):
            raise Unsupported('cast of %s' % type(v).__name__)
        if tn in ('f64', 'f32'):
            if v.sort() == R:
                return v if tn == 'f64' or sn == 'f32' else self.f32round(v)
            if v.sort() == B:
                v = If(v, iv(1), iv(0))
            if v.sort() != I:
                raise Unsupported('cast of bits to float')
            v = z3.ToReal(v)
            return v if tn == 'f64' else self.f32round(v)
        if v.sort() == B:
            return If(v, iv(1), iv(0))
        if v.sort() == R:
            lo, hi = int_range(tn)
            f = z3.Function('f2i_' + str(tn), R, I)
            x = z3.Real('x')
            if 'f2i' + tn not in self.axkeys:
                self.axkeys.add('f2i' + tn)
                self.axioms.append((z3.ForAll([x], And(f(x) >= lo, f(x) <= hi), patterns=[f(x)]), frozenset([f.name()])))
            return f(v)
        if v.sort() != I:
            return self.models.bits_cast(self, st, v, tn)
        lo, hi = int_range(tn) if tn in INTS else (0, 0x10ffff)
        if sn in INTS:
            slo, shi = int_range(sn)
            if slo >= lo and shi <= hi:
                return v
        if z3.is_int_value(v) and lo <= v.as_long() <= hi:
            return v
        if self.prove(st.conds(), And(v >= lo, v <= hi), 700):
            return v
        w = hi - lo + 1
        if lo == 0:
            return v % w
        return z3.If(v % w > hi, v % w - w, v % w)

    # ---- running bodies
    def info(self, fn):
        k = id(fn)
        if k not in self.infos:
            self.infos[k] = FnInfo(fn)
        return self.infos[k]

    def run_fn(self, fn, args, st, sub, tag):
        """Execute a body; list of (state, return value), merged when possible."""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unsupported('recursion too deep')
        base = st
        fr = Frame(fn, self.info(fn), sub, hashlib.md5((fn.name + '|'.join(self.stack) + st.trace).encode()).hexdigest()[:8])
        self.stack.append(tag + ':' + fn.name)
        try:
            s = st.copy()
            s.trace = ''
            for (n, ty), v in zip(fn.args, args):
                s.roots[fr.root(n)] = v
            for n, ty in fn.locals.items():
                s.types[fr.root(n)] = subst_ty(ty, sub)
                if fr.root(n) not in s.roots:
                    s.roots[fr.root(n)] = UNDEF
            outs = self.run(fr, 0, s, None)
            res = []
            for o in outs:
                assert o[0] == 'ret', o[0]
                s2 = o[1]
                rv = s2.roots[fr.root(0)]
                rv = self.escape(fr, s2, rv)
                for n in fn.locals:
                    s2.roots.pop(fr.root(n), None)
                    s2.types.pop(fr.root(n), None)
                s2.trace = st.trace + '>' + s2.trace
                res.append((s2, rv))
            return self.merge(base, res)
        finally:
            self.stack.pop()
            self.depth -= 1

    def escape(self, fr, st, v):
        """Return values holding pointers into the dying frame become snapshots."""
        if isinstance(v, Ptr) and v.root.startswith(fr.id + '.'):
            return self.deref(st, v)
        return v

    def merge(self, base, outs):
        if len(outs) <= 1:
            return outs
        try:
            nb = len(base.path)
            conds, facts = [], []
            for s, v in outs:
                bs = [c for k, c in s.path[nb:] if k == 'b']
                c = And(bs)
                conds.append(c)
                for k, f in s.path[nb:]:
                    if k == 'f':
                        facts.append(Implies(c, f))
            m = outs[0][0].copy()
            m.path = list(base.path)
            m.trace = base.trace + '>m%d' % len(outs)
            for c in conds[1:]:
                pass
            roots = {}
            keys = set(outs[0][0].roots)
            for s, _ in outs[1:]:
                keys &= set(s.roots)
            for k in keys:
                v = outs[-1][0].roots[k]
                for (s, _), c in list(zip(outs, conds))[-2::-1]:
                    v = ite(c, s.roots[k], v)
                roots[k] = v
            m.roots = roots
            rv = outs[-1][1]
            for (s, x), c in list(zip(outs, conds))[-2::-1]:
                rv = ite(c, x, rv)
            for f in facts:
                m.fact(f)
            d = simp(Or(conds))
            if not z3.is_true(d):
                m.fact(d)
            for s, _ in outs:
                for k, n in s.cnt.items():
                    m.cnt[k] = max(m.cnt.get(k, 0), n)
            return [(m, rv)]
        except Unsupported:
            return outs

    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.prover.feasible(self, st.conds() + [c])

    def run(self, fr, b0, st0, lim):
        out = []
        work = [(b0, st0, True)]
        while work:
            b, st, first = work.pop()
            if lim and not first:
                if b == lim[0]:
                    out.append(('cont', st))
                    continue
                if b not in lim[1]:
                    out.append(('exit', st, b))
                    continue
            if b in fr.info.heads and not (lim and b == lim[0] and first):
                for o in self.loops.mir_loop(self, fr, b, st):
                    if o[0] == 'exit':
                        work.append((o[2], o[1], False))
                    else:
                        out.append(o)
                continue
            self.stack.append('b%d' % b)
            try:
                for r in self.block(fr, b, st, lim):
                    if r[0] == 'goto':
                        work.append((r[2], r[1], False))
                    else:
                        out.append(r)
            finally:
                self.stack.pop()
        return out

    def block(self, fr, b, st, lim):
        stmts = fr.fn.blocks[b]
        for n, s in enumerate(stmts):
            k = s[0]
            if k == 'nop':
                continue
            if k == 'assign':
                v = self.rvalue(fr, st, s[2], s[1])
                self.assign(fr, st, s[1], v)
            elif k == 'goto':
                return [('goto', st, s[1])]
            elif k == 'return':
                return [('ret', st)]
            elif k in ('resume', 'unreachable'):
                if k == 'unreachable':
                    self.oblige(st, 'unreachable code is not reached', FALSE, 'panic')
                return []
            elif k == 'switch':
                v = self.deref(st, self.operand(fr, st, s[1]))
                if not is_scalar(v):
                    raise Unsupported('switch on %s' % type(v).__name__)
                res = []
                rest = []
                isb = v.sort() == B
                for val, tgt in s[2]:
                    c = (v if val else Not(v)) if isb else v == val
                    if fr.fn.locals.get(s[1][1][0] if s[1][0] == 'use' else None) is not None and not isb and val >= 2**63:
                        c = v == val - 2**64 if val >= 2**63 and val < 2**64 else (v == val - 256 if val == 255 else c)
                    if not isb and val == 255:
                        c = Or(v == 255, v == -1)
                    rest.append(Not(c))
                    if self.feasible(st, c):
                        s2 = st.copy()
                        s2.branch(simp(c))
                        s2.trace += '%d-%d,' % (b, tgt)
                        res.append(('goto', s2, tgt))
                if s[3] is not None:
                    c = And(rest)
                    if self.feasible(st, c):
                        t = fr.fn.blocks[s[3]]
                        if any(x[0] == 'unreachable' for x in t[-1:]):
                            pass      # exhaustive match: the compiler's own unreachable arm
                        else:
                            s2 = st.copy()
                            s2.branch(simp(c))
                            s2.trace += '%d-%d,' % (b, s[3])
                            res.append(('goto', s2, s[3]))
                if len(res) == 1:
                    res[0][1].trace = st.trace
                return res
            elif k == 'assert':
                v = self.deref(st, self.operand(fr, st, s[1]))
                g = Not(v) if s[2] else v
                self.oblige(st, 'no panic: %s (%s)' % (s[3].strip('"')[:60], fr.fn.name), Or(g, self.panic_ok), 'panic')
                st.fact(simp(g))
                return [('goto', st, s[4])]
            elif k == 'call':
                self.stack.append('s%d' % n)
                try:
                    return self.do_call(fr, b, st, s, lim)
                finally:
                    self.stack.pop()
            else:
                raise Unsupported('statement %s' % (s,))
        raise Unsupported('block without terminator')

    def assign(self, fr, st, place, v):
        root, path = self.resolve(fr, st, place)
        if root is None:
            raise Unsupported('assignment through a shared reference')
        if not place[1]:
            st.roots[root] = v
        else:
            self.write(st, root, path, v)

    # ---- calls
    def do_call(self, fr, b, st, s, lim):
        dst, cal, ops, tgt = s[1], s[2], s[3], s[4]
        args = [self.operand(fr, st, o) for o in ops]
        c = Callee(cal)
        if tgt is None or c.key() in ('panicking::assert_failed', 'panic', 'panic_fmt', 'core::panicking::panic'):
            self.oblige(st, 'no panic: %s in %s' % (c.key(), fr.fn.name), self.panic_ok, 'panic')
            return []
        atys = [self.opty(fr, o) for o in ops]
        try:
            outs = self.call(fr, st, c, args, atys, b=b, lim=lim)
        except Skip as e:
            return e.results(self, fr, dst, tgt)
        res = []
        for o in outs:
            s2, v = o
            self.assign(fr, s2, dst, v)
            res.append(('goto', s2, tgt))
        return res

    def call(self, fr, st, c, args, atys, b=None, lim=None):
        if c.trait is not None and fr.sub and c.self_ty in fr.sub:
            c = c.with_self(repr(fr.sub[c.self_ty]))
        key = ckey(c)
        plain = c.key()
        # 1. contract
        ct = self.find_contract(c, key, args)
        if ct is not None:
            self.used_contracts.add(ct.name)
            return ct.use(self, st, args, c)
        # 2. the crate's own code
        fn = self.find_fn(c, key, args)
        if fn is not None:
            sub = {}
            for (n, t), at in zip(fn.args, atys):
                if at is not None and t is not None:
                    unify_ty(t, at, sub)
            sub = {k: v for k, v in sub.items() if not (v.k == 'path' and v.name == k)}
            self.inlined.add(strip_generics(fn.name))
            return self.run_fn(fn, args, st, sub, 'call')
        # 3. library model
        return self.models.call(self, fr, st, c, args, atys, b=b, lim=lim)

    def find_contract(self, c, key, args):
        for k in (key, c.key()):
            ct = self.contracts.get(k)
            if ct is not None and ct.applies(self, c, args) and ct.name not in self.inline_only:
                return ct
        return None

    def find_fn(self, c, key, args):
        fs = self.by_key.get(key)
        if fs:
            fs = [f for f in fs if len(f.args) == len(args)]
            if len(fs) == 1:
                return fs[0]
            if len(fs) > 1:
                # same key in several modules: choose by owner path text
                raw = c.raw
                g = [f for f in fs if f.name.split('<')[0].split('::')[0] in raw]
                if g:
                    return g[0]
                return fs[0]
        if c.trait is None:
            # free function given by path
            last = (c.path[-1] if c.path else c.method) if isinstance(c.path, (list, tuple)) else c.method
            for k, fl in self.by_key.items():
                if k == last or k.split('::')[-1] == last and '::' not in k:
                    fl = [f for f in fl if len(f.args) == len(args)]
                    if len(fl) == 1 and c.key().split('::')[-1] == last and '::' not in c.key():
                        return fl[0]
            seg = re.sub(r'::<.*', '', c.raw).split('::')
            if len(seg) > 1 and all(re.fullmatch('[a-z_][a-z0-9_]*', x) for x in seg) and seg[0] not in ('std', 'core', 'alloc'):
                # module path of a free function of the crate
                fl = [f for f in self.by_key.get(seg[-1], []) if len(f.args) == len(args)]
                if len(fl) == 1:
                    return fl[0]
        else:
            # default method of a crate trait
            tr = key.split(' as ')[1].split('>')[0] if ' as ' in key else None
            fl = self.by_key.get('%s::%s' % (tr, c.method))
            if fl and not self.models.abstract_receiver(self, c, args):
                fl = [f for f in fl if len(f.args) == len(args)]
                if len(fl) == 1:
                    return fl[0]
        return None

    def call_closure(self, st, clo, args):
        if isinstance(clo, Ptr):
            inner = self.deref(st, clo)
            return self._call_clo(st, inner, clo, args)
        return self._call_clo(st, clo, None, args)

    def _call_clo(self, st, clo, ptr, args):
        if isinstance(clo, FnItem):
            c = Callee(clo.path)
            return self.call(Frame.dummy(), st, c, args, [None] * len(args))
        if callable(clo):
            return [(st, clo(*[self.deref(st, a) for a in args]))]
        if not isinstance(clo, Clo):
            raise Unsupported('call of %s' % type(clo).__name__)
        fns = self.crate.closure_of.get(clo.name) or []
        if len(fns) > 1:
            fns = [f for f in fns if f.name.startswith(getattr(clo, 'owner', '?') + '::{closure#')]
        fn = fns[0] if len(fns) == 1 else None
        if fn is None:
            raise Unsupported('closure body not found: %s' % clo.name)
        env = clo
        t = fn.args[0][1]
        tmp = None
        st = st.copy()
        if t.k == 'ref' and t.mut:
            if ptr is None:
                tmp = 'env.' + self.symname(st, 'env')
                st.roots[tmp] = clo
                st.types[tmp] = t.args[0]
                env = Ptr(tmp, [])
            else:
                env = ptr
        n = len(fn.args) - 1
        if n != len(args):
            if len(args) == 1 and isinstance(args[0], Tup) and len(args[0].f) == n:
                args = args[0].f
            else:
                raise Unsupported('closure arity')
        outs = self.run_fn(fn, [env] + list(args), st, getattr(clo, 'sub', {}), 'clo')
        if tmp:
            for s, _ in outs:
                nc = s.roots.pop(tmp, None)
        return outs

    def at_generic(self, st, g, facts, fn):
        """Run fn(state) -> outs with the extra generic parameter g; must not change the state.
        Returns a value over g."""
        self.params.append(g)
        try:
            s = st.copy()
            for f in facts:
                s.fact(f)
            s.trace = st.trace + '@' + str(g)
            outs = fn(s)
            if len(outs) == 0:
                raise Unsupported('closure never returns')
            outs = self.merge(s, outs)
            if len(outs) != 1:
                raise Unsupported('unmerged closure results')
            s2, v = outs[0]
            for k, old in st.roots.items():
                if s2.roots.get(k, old) is not old and not same_value(s2.roots.get(k), old):
                    raise Impure(k)
            return v
        finally:
            self.params.pop()


def same_value(a, b):
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, Tup):
        return len(a.f) == len(b.f) and all(same_value(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Clo):
        return a.name == b.name and all(same_value(x, y) for x, y in zip(a.caps, b.caps))
    if isinstance(a, Ptr):
        return a.root == b.root and len(a.path) == len(b.path) and all(
            x[0] == y[0] and (x[1].eq(y[1]) if is_scalar(x[1]) else x[1] == y[1]) for x, y in zip(a.path, b.path))
    if isinstance(a, Iter):
        return a.src is b.src and a.pos.eq(b.pos)
    if isinstance(a, Enum):
        return a.tag.eq(b.tag) and set(a.alts) == set(b.alts) and all(
            same_value(x, y) for k in a.alts for x, y in zip(a.alts[k], b.alts[k]))
    return False


class Skip(Exception):
    """Raised by `next` on a filtered iterator at a loop head: some outcomes are 'try the next item'."""

    def __init__(self, outs, skips):
        self.outs, self.skips = outs, skips

    def results(self, cx, fr, dst, tgt):
        res = []
        for s, v in self.outs:
            cx.assign(fr, s, dst, v)
            res.append(('goto', s, tgt))
        for s in self.skips:
            res.append(('cont', s))
        return res


class Frame:
    def __init__(self, fn, info, sub, fid):
        self.fn, self.info, self.sub, self.id = fn, info, sub, fid
        self.consts = {}

    def root(self, n):
        return '%s._%d' % (self.id, n)

    @staticmethod
    def dummy():
        f = Frame(mir.Fn(), None, {}, 'dummy')
        f.fn.locals, f.fn.name = {}, 'dummy'
        return f


# ---------------------------------------------------------------- z3 utilities
def decl_name(e):
    return e.decl().name()


def is_zero(e):
    return z3.is_int_value(e) and e.as_long() == 0


_occ_cache = {}


def occurs(e, c):
    """Does constant c occur in e?"""
    seen = set()
    work = [e]
    cid = c.get_id()
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i == cid:
            return True
        if z3.is_quantifier(x):
            work.append(x.body())
        else:
            work.extend(x.children())
    return False


def as_select(e, c):
    """e == Select(A, c+off) with A and off free of c?"""
    if z3.is_select(e):
        A, i = e.arg(0), e.arg(1)
        if occurs(A, c):
            return None
        if i.eq(c):
            return A, iv(0)
        off = simp(i - c)
        if not occurs(off, c):
            return A, off
        return None
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        cc = e.arg(0)
        if occurs(cc, c):
            return None
        x, y = as_select(e.arg(1), c), as_select(e.arg(2), c)
        if x and y and simp(x[1]).eq(simp(y[1])):
            return z3.If(cc, x[0], y[0]), x[1]
    return None


def free_consts(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        if all(not c.eq(e) for c in out):
            out.append(e)
    for c in e.children():
        free_consts(c, out, seen)


def free_terms(e, i, out, seen):
    """Collect the largest uninterpreted terms of e that mention neither i nor a bound variable;
    True when e itself mentions neither."""
    if e.get_id() not in seen:
        r, sub = True, []
        if z3.is_var(e) or e.eq(i):
            r = False
        else:
            r = all([free_terms(c, i, sub, seen) for c in e.children()])
            if r and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.sort() != B:
                sub = [e]
        seen[e.get_id()] = r, sub
    r, sub = seen[e.get_id()]
    for c in sub:
        if all(not c.eq(o) for o in out):
            out.append(c)
    return r


def bits_whole(e, i, sort):
    """The value whose bit i is e for every i, when e names it."""
    if z3.is_app(e) and e.decl().eq(bitf(sort)) and e.arg(1).eq(i) and not occurs(e.arg(0), i):
        return e.arg(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not occurs(e.arg(0), i):
        a, b = bits_whole(e.arg(1), i, sort), bits_whole(e.arg(2), i, sort)
        if a is not None and b is not None:
            return If(e.arg(0), a, b)
    return None


def bitf(sort):
    return z3.Function('bit_' + str(sort), sort, I, B)


def WIDTH(sort):
    return z3.Int('WIDTH_' + str(sort))


def symbols(e, cache={}):
    """Names of uninterpreted symbols in e."""
    h = cache.get(e.get_id())
    if h is not None and h[0].eq(e):
        return h[1]
    out = set()
    seen = set()
    work = [e]
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            work.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            work.extend(x.children())
    cache[e.get_id()] = (e, out)
    return out
