"""Symbolic values, shapes and z3 helpers for the MIR verifier."""
import z3
from mir import Ty, INTS, BITS

I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
_sorts = {}


def usort(name):
    if name not in _sorts:
        _sorts[name] = z3.DeclareSort(name)
    return _sorts[name]


class Unsupported(Exception):
    pass


def _alternatives(t):
    """Terms that may stand as patterns where t may not: the branches of its conditionals, the atoms of its connectives."""
    if z3.is_quantifier(t) or z3.is_var(t):
        return [t]
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return _alternatives(t.arg(1)) + _alternatives(t.arg(2))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT):
        return [a for c in t.children() for a in _alternatives(c)]
    out = [[]]
    for c in t.children():
        al = _alternatives(c)
        out = [o + [a] for o in out for a in al][:4]
    return [t.decl()(*o) if o else t for o in out]


_z3_forall = z3.ForAll


def pattern_terms(p):
    ctx = p.ctx
    return [z3.z3._to_expr_ref(z3.Z3_get_pattern(ctx.ref(), p.ast, i), ctx) for i in range(z3.Z3_get_pattern_num_terms(ctx.ref(), p.ast))]


def _forall(vs, body, *a, **kw):
    pats = kw.get('patterns')
    if not pats:
        return _z3_forall(vs, body, *a, **kw)
    if not any(bad_pattern(p) for p in pats):
        return _z3_forall(vs, body, *a, **kw)
    kw = dict(kw)
    new = []
    for p in pats:
        ts = [p] if not isinstance(p, z3.PatternRef) else pattern_terms(p)
        combos = [[]]
        for t in ts:
            combos = [c + [x] for c in combos for x in _alternatives(t)][:4]
        vl = vs if isinstance(vs, (list, tuple)) else [vs]
        for c in combos:
            c = [x for x in c if z3.is_app(x) and x.num_args() and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)]
            if c and all(any(_occ(x, v) for x in c) for v in vl):
                new.append(z3.MultiPattern(*c) if len(c) > 1 else c[0])
    kw.pop('patterns')
    if new:
        kw['patterns'] = new
    return _z3_forall(vs, body, *a, **kw)


def _occ(e, v):
    work, seen = [e], set()
    while work:
        x = work.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        work += x.children()
    return False


def bad_pattern(p):
    work = [p] if not isinstance(p, z3.PatternRef) else pattern_terms(p)
    for t in list(work):
        if not z3.is_app(t) or t.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_STORE) and t.sort() == z3.BoolSort():
            return True
    seen = set()
    while work:
        t = work.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            return True
        work += t.children()
    return False


z3.ForAll = _forall


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def iv(n):
    return n if isinstance(n, z3.ExprRef) else z3.IntVal(n)


def simp(e):
    return z3.simplify(e)


def And(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    xs = [x for x in xs if not (x is True or z3.is_true(x))]
    if any(x is False or z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in (xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs)]
    xs = [x for x in xs if not (x is False or z3.is_false(x))]
    if any(x is True or z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() == B:
        if z3.is_true(a):
            return Or(c, b)
        if z3.is_false(a):
            return And(Not(c), b)
        if z3.is_true(b):
            return Or(Not(c), a)
        if z3.is_false(b):
            return And(c, a)
    return z3.If(c, a, b)


_ctr = [0]


def gensym(prefix, sort):
    _ctr[0] += 1
    return z3.Const('%s~%d' % (prefix, _ctr[0]), sort)


def Exists(vs, body, pats=None):
    if z3.is_true(body) or z3.is_false(body):
        return body
    return z3.Exists(vs, body)


def ForAll(vs, body, pats=None):
    if z3.is_true(body):
        return body
    if not vs:
        return body
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


# ------------------------------------------------------------------ values
class Memo:
    """Callable with memo keyed by z3 AST identity."""
    __slots__ = ('fn', 'cache')

    def __init__(self, fn):
        self.fn, self.cache = fn, {}

    def __call__(self, *ks):
        key = tuple(k.get_id() for k in ks)
        h = self.cache.get(key)
        if h is None:
            h = (ks, self.fn(*ks))
            self.cache[key] = h
        return h[1]


def memo(f):
    return f if isinstance(f, Memo) else Memo(f)


class V:
    pass


class Undef(V):
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Tup(V):
    def __init__(self, f, name=''):
        self.f, self.name = list(f), name

    def __repr__(self):
        return '%s%s' % (self.name, tuple(self.f))


UNIT = Tup([])


class Enum(V):
    def __init__(self, tag, alts, name=''):
        self.tag, self.alts, self.name = iv(tag), alts, name

    def __repr__(self):
        return 'Enum<%s>(%s,%s)' % (self.name, self.tag, self.alts)


def some(v):
    return Enum(1, {1: [v]}, 'Option')


def none():
    return Enum(0, {0: []}, 'Option')


def opt(c, v):
    return Enum(If(c, iv(1), iv(0)), {0: [], 1: [v]}, 'Option')


class Seq(V):
    def __init__(self, n, at, arr=None, off=None, strict=False):
        self.n, self.at = iv(n), memo(at)
        self.arr, self.off = arr, (iv(0) if off is None else off)

    @staticmethod
    def of_arr(n, arr, off=None):
        off = iv(0) if off is None else off
        return Seq(n, (lambda i: z3.Select(arr, i + off)) if not (z3.is_int_value(off) and off.as_long() == 0)
                   else (lambda i: z3.Select(arr, i)), arr, off)

    def __repr__(self):
        return 'Seq(%s)' % self.n


class SetV(V):
    def __init__(self, mem):
        self.mem = memo(mem)


class MapV(V):
    def __init__(self, has, get, kty=None):
        self.has, self.get, self.kty = memo(has), memo(get), kty


class Bag(V):
    """Abstract id container: mem(x) = x is held; multi(x) = x may be held more than once."""

    def __init__(self, mem, multi):
        self.mem, self.multi = memo(mem), memo(multi)


class Ptr(V):
    def __init__(self, root, path):
        self.root, self.path = root, tuple(path)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.root, self.path)


class Clo(V):
    def __init__(self, name, caps, src=None):
        self.name, self.caps = name, list(caps)
        self.sub = src.sub if src is not None else {}
        self.owner = src.owner if src is not None else '?'

    def __repr__(self):
        return 'Clo(%s)' % self.name


class FnItem(V):
    def __init__(self, path):
        self.path = path


class Entry(V):
    def __init__(self, ptr, key):
        self.ptr, self.key = ptr, key


class HasherV(V):
    def __init__(self, h):
        self.h = h


class Opaque(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name


class Iter(V):
    """Lazy iterator; `src` describes how item number k is produced, `pos` how many were consumed.
    src: ('seq', n, at) | ('set', SetV, shape) | ('map', Iter, clo) | ('filter', Iter, clo) | ('fmap', Iter, clo)
         ('zip', Iter, Iter) | ('enum', Iter) | ('ptrs', n, root, path) | ('mapkv', MapV, kind)"""

    def __init__(self, src, pos=None):
        self.src, self.pos = src, iv(0) if pos is None else pos


def is_scalar(v):
    return isinstance(v, z3.ExprRef)


# ------------------------------------------------------------------ generic traversals
def ite(c, a, b):
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if is_scalar(a) and is_scalar(b):
        if a.sort() != b.sort():
            raise Unsupported('merge of sorts %s %s' % (a.sort(), b.sort()))
        return If(c, a, b)
    if type(a) is not type(b):
        raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))
    if isinstance(a, Tup):
        if len(a.f) != len(b.f):
            raise Unsupported('merge of tuples')
        return Tup([ite(c, x, y) for x, y in zip(a.f, b.f)], a.name)
    if isinstance(a, Enum):
        alts = {}
        for k in set(a.alts) | set(b.alts):
            if k in a.alts and k in b.alts:
                alts[k] = [ite(c, x, y) for x, y in zip(a.alts[k], b.alts[k])]
            else:
                alts[k] = a.alts.get(k, b.alts.get(k))
        return Enum(If(c, a.tag, b.tag), alts, a.name or b.name)
    if isinstance(a, Seq):
        if a.arr is not None and b.arr is not None and a.arr.sort() == b.arr.sort() and a.off.eq(b.off):
            return Seq.of_arr(If(c, a.n, b.n), If(c, a.arr, b.arr), a.off)
        return Seq(If(c, a.n, b.n), lambda i: ite(c, a.at(i), b.at(i)))
    if isinstance(a, SetV):
        return SetV(lambda x: If(c, a.mem(x), b.mem(x)))
    if isinstance(a, MapV):
        return MapV(lambda x: If(c, a.has(x), b.has(x)), lambda x: ite(c, a.get(x), b.get(x)), a.kty or b.kty)
    if isinstance(a, Bag):
        return Bag(lambda x: If(c, a.mem(x), b.mem(x)), lambda x: If(c, a.multi(x), b.multi(x)))
    if isinstance(a, Ptr):
        if a.root == b.root and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if x[0] != y[0]:
                    raise Unsupported('merge of pointers')
                if x[0] in ('idx', 'map'):
                    p.append((x[0], If(c, x[1], y[1])))
                elif x == y:
                    p.append(x)
                else:
                    raise Unsupported('merge of pointers')
            return Ptr(a.root, p)
        raise Unsupported('merge of pointers')
    if isinstance(a, Clo):
        if a.name == b.name:
            return Clo(a.name, [ite(c, x, y) for x, y in zip(a.caps, b.caps)], a)
        raise Unsupported('merge of closures')
    if isinstance(a, Iter):
        return Iter(_ite_src(c, a.src, b.src), If(c, a.pos, b.pos))
    if isinstance(a, HasherV):
        return HasherV(If(c, a.h, b.h))
    if isinstance(a, Opaque):
        return a
    raise Unsupported('merge of %s' % type(a).__name__)


def _ite_src(c, a, b):
    if a is b:
        return a
    if a[0] != b[0]:
        raise Unsupported('merge of iterators')
    out = [a[0]]
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, (V, z3.ExprRef)):
            out.append(ite(c, x, y))
        elif isinstance(x, Memo) or callable(x):
            out.append(memo(lambda i, x=x, y=y: ite(c, x(i), y(i))))
        elif x == y:
            out.append(x)
        else:
            raise Unsupported('merge of iterators')
    return tuple(out)


def subst(v, pairs):
    """Capture-free replacement of constants in a value."""
    if not pairs:
        return v
    if is_scalar(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, (Undef, Opaque, FnItem)):
        return v
    if isinstance(v, Tup):
        return Tup([subst(x, pairs) for x in v.f], v.name)
    if isinstance(v, Enum):
        return Enum(subst(v.tag, pairs), {k: [subst(x, pairs) for x in a] for k, a in v.alts.items()}, v.name)
    if isinstance(v, Seq):
        n = subst(v.n, pairs)
        if v.arr is not None:
            return Seq.of_arr(n, subst(v.arr, pairs), subst(v.off, pairs))
        return Seq(n, _sub1(v.at, pairs))
    if isinstance(v, SetV):
        return SetV(_sub1(v.mem, pairs))
    if isinstance(v, MapV):
        return MapV(_sub1(v.has, pairs), _sub1(v.get, pairs), v.kty)
    if isinstance(v, Bag):
        return Bag(_sub1(v.mem, pairs), _sub1(v.multi, pairs))
    if isinstance(v, Ptr):
        return Ptr(v.root, [(p[0], subst(p[1], pairs)) if p[0] in ('idx', 'map') else p for p in v.path])
    if isinstance(v, Clo):
        return Clo(v.name, [subst(x, pairs) for x in v.caps], v)
    if isinstance(v, HasherV):
        return HasherV(subst(v.h, pairs))
    if isinstance(v, Iter):
        src = [v.src[0]]
        for x in v.src[1:]:
            if isinstance(x, (V, z3.ExprRef)):
                src.append(subst(x, pairs))
            elif isinstance(x, Memo):
                src.append(memo(_sub1(x, pairs)))
            elif isinstance(x, tuple) and x and isinstance(x[0], tuple):     # pointer path
                src.append(Ptr('', x) and tuple((p[0], subst(p[1], pairs)) if p[0] in ('idx', 'map') else p for p in x))
            else:
                src.append(x)
        return Iter(tuple(src), subst(v.pos, pairs))
    if isinstance(v, Entry):
        return Entry(subst(v.ptr, pairs), subst(v.key, pairs))
    raise Unsupported('subst %s' % type(v).__name__)


def _sub1(f, pairs):
    cache = {}

    def g(i):
        s = i.sort()
        if s not in cache:
            c = gensym('s', s)
            cache[s] = (c, f(c))
        c, val = cache[s]
        return subst(val, list(pairs) + [(c, i)])
    return g


# ------------------------------------------------------------------ shapes
class Sh:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Sh(%s)' % self.kind


def sh_int(lo, hi):
    return Sh('scalar', sort=I, rng=(lo, hi))


USIZE = sh_int(0, 2**64 - 1)
BOOL = Sh('scalar', sort=B, rng=None)
FLOAT = Sh('scalar', sort=R, rng=None)
UNITSH = Sh('tup', fields=[], name='')


def sh_u(name):
    return Sh('scalar', sort=usort(name), rng=None)


def sh_opt(s):
    return Sh('enum', name='Option', variants=[[], [s]])


def sh_seq(s):
    return Sh('seq', elt=s)


def sh_tup(*fs, name=''):
    return Sh('tup', fields=list(fs), name=name)


def int_range(name):
    w = BITS[name] if name in BITS else 64
    if name.startswith('i'):
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    return (0, (1 << w) - 1)


GENERIC_NAMES = {'T', 'Id', 'U', 'S', 'K', 'X', 'B', 'H', 'R', 'C', 'A', 'V', 'E'}


class TypeEnv:
    """Turns MIR types into shapes. `over` maps a type name to a Sh (parameters, abstracted types)."""

    def __init__(self, crate, over=None, maxdepth=12):
        self.crate, self.over = crate, dict(over or {})
        self.whole = {}  # repr of a type -> Sh

    def with_(self, **kw):
        t = TypeEnv(self.crate, self.over)
        t.over.update(kw)
        return t

    def shape(self, ty, sub=None):
        sub = sub or {}
        k = ty.k
        if self.whole and repr(ty) in self.whole:
            return self.whole[repr(ty)]
        if k == 'ref':
            if ty.mut:
                return Sh('ptr', inner=ty.args[0], sub=sub)
            return self.shape(ty.args[0], sub)
        if k in ('slice', 'array'):
            return sh_seq(self.shape(ty.args[0], sub))
        if k == 'tuple':
            return Sh('tup', fields=[self.shape(a, sub) for a in ty.args], name='')
        if k == 'never':
            return UNITSH
        if k == 'closure':
            return Sh('clo')
        if k in ('assoc', 'dyn', 'fn', 'ptr'):
            key = repr(ty)
            for o, s in self.over.items():
                if key == o:
                    return s
            return Sh('opaque', ty=ty)
        if k != 'path':
            return Sh('opaque', ty=ty)
        name = ty.name.split('::')[-1]
        if name in sub:
            return sub[name]
        if name in self.over:
            return self.over[name]
        if name in INTS:
            return sh_int(*int_range(name))
        if name == 'char':
            return sh_int(0, 0x10ffff)
        if name == 'bool':
            return BOOL
        if name in ('f64', 'f32'):
            return FLOAT
        if name in ('Vec', 'SmallVec', 'VecDeque'):
            a = ty.args[0]
            if name == 'SmallVec' and a.k == 'array':
                a = a.args[0]
            return sh_seq(self.shape(a, sub))
        if name in ('Box', 'Rc', 'Arc'):
            return self.shape(ty.args[0], sub)
        if name == 'Option':
            return sh_opt(self.shape(ty.args[0], sub))
        if name == 'Result':
            return Sh('enum', name='Result', variants=[[self.shape(ty.args[0], sub)],
                                                       [self.shape(ty.args[1], sub) if len(ty.args) > 1 else sh_u('Error')]])
        if name == 'Ordering':
            return Sh('enum', name='Ordering', variants=[[], [], []])
        if name in ('HashSet', 'AHashSet', 'BTreeSet'):
            ks = self.shape(ty.args[0], sub)
            return Sh('set', key=ks, ksort=keysort(ks))
        if name in ('HashMap', 'AHashMap', 'BTreeMap'):
            ks = self.shape(ty.args[0], sub)
            vs = self.over.get('value:' + repr(ty.args[1])) or self.shape(ty.args[1], sub)
            return Sh('map', key=ks, ksort=keysort(ks), val=vs)
        if name in ('RandomState',):
            return sh_u('Seed')
        if name == 'PhantomData':
            return UNITSH
        if name in ('str', 'String'):
            return sh_u('Str')
        if name in self.crate.structs:
            st = self.crate.structs[name]
            if len(st) > 1:
                mod = ty.name.split('::')[0] if '::' in ty.name else None
                cand = [s for s in st if mod and mod in s.module]
                st = cand or st
            st = st[0]
            args = [self.shape(a, sub) if a.k != 'const' else None for a in ty.args]
            s2 = {}
            for i, g in enumerate(st.generics):
                if i < len(args):
                    if args[i] is not None:
                        s2[g] = args[i]
                elif g in self.over:
                    s2[g] = self.over[g]
            return Sh('tup', fields=[self.shape(t, s2) for _, t in st.fields], name=name,
                      names=[n for n, _ in st.fields])
        if name in getattr(self.crate, 'enums', {}) and not ty.args:
            return Sh('enum', name=name, variants=[[self.shape(t, sub) for t in ts] for _, ts in self.crate.enums[name]])
        if name in GENERIC_NAMES or (len(name) <= 2 and name.isupper()):
            return sh_u('U_' + name)
        return Sh('opaque', ty=ty)


def keysort(sh):
    if sh.kind == 'scalar':
        return sh.sort
    if sh.kind == 'bits':
        return sh.sort
    if sh.kind == 'tup':
        fs = [f for f in sh.fields if not (f.kind == 'tup' and not f.fields)]
        if len(fs) == 1:
            return keysort(fs[0])
        return usort('Key_' + '_'.join(str(keysort(f)) for f in fs))
    if sh.kind == 'seq' and sh.elt.kind == 'scalar':
        return usort('SeqKey_' + str(sh.elt.sort))
    raise Unsupported('key shape %s' % sh.kind)


# sequence keys: a key determines its content and content determines the key
def seqkey_funs(es):
    ks = usort('SeqKey_' + str(es))
    mk = z3.Function('mkkey_' + str(es), z3.ArraySort(I, es), I, I, ks)
    ln = z3.Function('keylen_' + str(es), ks, I)
    at = z3.Function('keyat_' + str(es), ks, I, es)
    return ks, mk, ln, at


def field_index(sh, name):
    try:
        return sh.names.index(name)
    except (AttributeError, ValueError):
        raise Unsupported('no field %s in %s' % (name, getattr(sh, 'name', '?')))
