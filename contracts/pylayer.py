"""The Python package over the native classes (P20): py-gaoya/gaoya/*.py. The methods are executed symbolically from their
syntax tree, all paths; the native methods they call are used by the contracts that contracts/python.py proves of them."""
import ast, os
from common import *
from python import CORE, SIG, TOK, STR, RES, INS, REM, SIZE, QM, QS, CLASSES, SIMS, PP, strc, setup

PKG = os.path.join(mir.REPO, 'py-gaoya', 'gaoya')
DSIG = z3.Function('document_signature', CORE, STR, SIG)   # what the native class makes of a document (fixed by its settings)
TSIG = z3.Function('token_signature', CORE, TOK, SIG)      # and of tokens
ANA = z3.Function('analyzer', STR, TOK)
BULK = z3.Function('bulk_inserted', CORE, I, z3.ArraySort(I, I), z3.ArraySort(I, SIG), CORE)
ANSWER = z3.Function('answer_ids', CORE, SIG, usort('Ids'))
QN = 20


class Raised(Exception):
    pass


class Lst:
    """A list of arbitrary length."""

    def __init__(self, n, at):
        self.n, self.at = n, at


class Native:
    def __init__(self, cls, core, args=()):
        self.cls, self.core, self.args, self.core0 = cls, core, args, core


class NativeClass:
    def __init__(self, name):
        self.name = name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Obj:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class Analyzer:
    pass


class Sym:
    """A parameter that is only handed on."""

    def __init__(self, name):
        self.name = name


def bulkarr(l, es, f=lambda x: x):
    i = z3.Int('i!pos')
    return z3.Lambda([i], f(l.at(i)))


def want(v, sort, what):
    if is_scalar(v) and v.sort() == sort:
        return v
    raise Unsupported('%s of another kind' % what)


class Interp:
    """One execution; branches on unknown conditions follow `choices`."""

    def __init__(self, cx, tree, choices):
        self.cx, self.tree, self.choices, self.used, self.path = cx, tree, choices, 0, []
        self.classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        self.mods = {}
        for n in tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if n.module == 'gaoya':
                        self.mods[a.asname or a.name] = a.name
        self.missing = []

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c is None or isinstance(c, (str, int, list, tuple, dict, set)):
            return bool(c)
        if isinstance(c, (Native, Analyzer, Obj)):
            return True
        if isinstance(c, Sym):
            c = z3.Const('holds:' + c.name, B)
        if is_scalar(c) and c.sort() == B:
            for v, f in ((True, c), (False, z3.Not(c))):
                s = z3.Solver()
                s.add(*self.path, f)
                if s.check() == z3.unsat:
                    self.path.append(z3.Not(f))
                    return not v
            if self.used == len(self.choices):
                self.choices.append(True)
            v = self.choices[self.used]
            self.used += 1
            self.path.append(c if v else z3.Not(c))
            return v
        raise Unsupported('condition on %s' % type(c).__name__)

    # ---- statements
    def call(self, cls, name, self_obj, args, kw=None):
        fn = [n for n in self.classes[cls].body if isinstance(n, ast.FunctionDef) and n.name == name]
        if len(fn) != 1 or fn[0].decorator_list or fn[0].args.vararg or fn[0].args.kwarg:
            raise Unsupported('method %s' % name)
        names = [a.arg for a in fn[0].args.args]
        env = {}
        dflt = fn[0].args.defaults
        for i, d in enumerate(dflt):
            env[names[len(names) - len(dflt) + i]] = self.ev(d, {})
        for a, d in zip(fn[0].args.kwonlyargs, fn[0].args.kw_defaults):
            names.append(a.arg)
            if d is not None:
                env[a.arg] = self.ev(d, {})
        env.update(zip(names, [self_obj] + list(args)))
        env.update(kw or {})
        if set(names) - set(env) or set(kw or {}) - set(names) or len(args) + 1 > len(names):
            raise Raised('TypeError')
        r = self.body(fn[0].body, env)
        return r[0] if r else None

    def body(self, stmts, env):
        for s in stmts:
            if isinstance(s, ast.Return):
                return [self.ev(s.value, env) if s.value else None]
            elif isinstance(s, ast.If):
                r = self.body(s.body if self.decide(self.ev(s.test, env)) else s.orelse, env)
                if r:
                    return r
            elif isinstance(s, ast.Assign):
                v = self.ev(s.value, env)
                for t in s.targets:
                    self.assign(t, v, env)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            elif isinstance(s, ast.Expr):
                if not isinstance(s.value, ast.Constant):
                    self.ev(s.value, env)
            elif isinstance(s, ast.Raise):
                raise Raised('raise')
            elif isinstance(s, ast.Pass):
                pass
            elif isinstance(s, ast.For):
                self.collect(s, env)
            else:
                raise Unsupported('Python statement %s' % type(s).__name__)
        return None

    def collect(self, s, env):
        """for x in l: ...; out.append(e)   with out empty before: a list comprehension."""
        last = s.body[-1]
        c = last.value if isinstance(last, ast.Expr) else None
        if s.orelse or not isinstance(s.target, ast.Name) or not all(isinstance(b, ast.Assign) and all(isinstance(t, ast.Name) for t in b.targets) for b in s.body[:-1]) \
                or not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'append' and isinstance(c.func.value, ast.Name)
                        and len(c.args) == 1 and not c.keywords):
            raise Unsupported('Python loop')
        out = c.func.value.id
        l = self.ev(s.iter, env)
        if env.get(out) != [] or isinstance(env[out], Lst) or not isinstance(l, Lst) or out == s.target.id:
            raise Unsupported('Python loop')
        env0, nch, npath = dict(env), self.used, len(self.path)
        del env0[out]

        def at(i):
            e2 = dict(env0, **{s.target.id: l.at(i)})
            for b in s.body[:-1]:
                v = self.ev(b.value, e2)
                for t in b.targets:
                    e2[t.id] = v
            return self.ev(c.args[0], e2)
        at(z3.Int('i!pos'))
        if self.used != nch or len(self.path) != npath:
            raise Unsupported('branch in a loop')
        env[out] = Lst(l.n, at)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if not isinstance(o, Obj):
                raise Unsupported('assignment to an attribute')
            o.attrs[t.attr] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, (tuple, list)) and len(v) == len(t.elts):
            for a, b in zip(t.elts, v):
                self.assign(a, b, env)
        else:
            raise Unsupported('assignment')

    # ---- expressions
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.mods:
                return ('module', self.mods[e.id])
            if e.id in ('callable', 'list', 'len', 'isinstance', 'tuple', 'bool', 'map', 'getattr', 'ValueError', 'TypeError'):
                return ('builtin', e.id)
            for n in self.tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    return self.ev(n.value, {})
            raise Unsupported('name %s' % e.id)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                if e.attr in o.attrs:
                    return o.attrs[e.attr]
                if any(isinstance(n, ast.FunctionDef) and n.name == e.attr for n in self.classes[o.cls].body):
                    return Bound(o, e.attr)
                raise Raised('AttributeError')
            if isinstance(o, tuple) and o[0] == 'module':
                return NativeClass(e.attr)
            if isinstance(o, Native):
                return Bound(o, e.attr)
            raise Unsupported('attribute %s' % e.attr)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [self.ev(x, env) for x in e.elts]
            return tuple(vs) if isinstance(e, ast.Tuple) else vs
        if isinstance(e, ast.Dict):
            return {self.hash(self.ev(k, env)): self.ev(v, env) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.Subscript):
            o, k = self.ev(e.value, env), self.ev(e.slice, env)
            if isinstance(o, dict):
                if self.hash(k) in o:
                    return o[self.hash(k)]
                raise Raised('KeyError')
            raise Unsupported('subscript')
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.decide(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                v = self.ev(x, env)
                d = self.decide(v)
                if d != isinstance(e.op, ast.And):
                    break
            return v if not is_scalar(v) else d
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.decide(self.ev(e.operand, env))
        if isinstance(e, ast.Compare):
            l = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                r = self.ev(r, env)
                if not self.decide(self.compare(op, l, r)):
                    return False
                l = r
            return True
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            if len(e.generators) == 1 and e.generators[0].ifs and isinstance(self.ev(e.generators[0].iter, env), Lst):
                # some of the items; which ones is left open
                sub = ast.ListComp(elt=e.elt, generators=[ast.comprehension(e.generators[0].target, e.generators[0].iter, [], 0)])
                l = self.ev(sub, env)
                n, pick = z3.FreshConst(I, 'kept'), z3.Function('pick!%d' % e.lineno, I, I)
                self.path.append(And(n >= 0, n <= l.n))
                return Lst(n, lambda i: l.at(pick(i)))
            if len(e.generators) != 1 or e.generators[0].ifs or not isinstance(e.generators[0].target, ast.Name):
                raise Unsupported('comprehension')
            l = self.ev(e.generators[0].iter, env)
            if not isinstance(l, Lst):
                raise Unsupported('comprehension over %s' % type(l).__name__)
            nm, nch, npath = e.generators[0].target.id, self.used, len(self.path)
            probe = z3.Int('i!pos')

            def at(i):
                return self.ev(e.elt, dict(env, **{nm: l.at(i)}))
            at(probe)
            if self.used != nch or len(self.path) != npath:
                raise Unsupported('branch in a comprehension')
            return Lst(l.n, at)
        if isinstance(e, ast.JoinedStr):
            return z3.Const('formatted', STR)
        if isinstance(e, ast.Lambda):
            raise Unsupported('lambda')
        if isinstance(e, ast.Call):
            f = self.ev(e.func, env)
            args = [self.ev(a, env) for a in e.args]
            if any(k.arg is None for k in e.keywords) or any(isinstance(a, ast.Starred) for a in e.args):
                raise Unsupported('starred arguments')
            kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            return self.apply(f, args, kw)
        raise Unsupported('Python expression %s' % type(e).__name__)

    def hash(self, v):
        if isinstance(v, (int, str, bool)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(map(self.hash, v))
        raise Unsupported('key')

    def compare(self, op, l, r):
        con = lambda v: isinstance(v, (int, str, bool, float)) or v is None
        if isinstance(op, (ast.In, ast.NotIn)):
            if not isinstance(r, (list, tuple, dict)):
                raise Unsupported('membership')
            if isinstance(l, Analyzer):
                v = False
            elif con(l):
                v = any(con(x) and x == l and type(x) == type(l) for x in r)
            elif is_scalar(l) and l.sort() == STR:
                v = z3.Or(*[l == strc(x) for x in r])
            elif isinstance(l, Sym):
                v = False   # a value none of the listed ones
            else:
                raise Unsupported('membership')
            if isinstance(op, ast.NotIn):
                v = (not v) if isinstance(v, bool) else z3.Not(v)
            return v
        if isinstance(op, (ast.Is, ast.IsNot)) and r is None:
            if isinstance(l, Sym):
                v = z3.Const('none:' + l.name, B)
                self.path.append(Implies(v, Not(z3.Const('holds:' + l.name, B))))
                return v if isinstance(op, ast.Is) else z3.Not(v)
            return (l is None) == isinstance(op, ast.Is)
        num = lambda v: iv(v) if isinstance(v, int) and not isinstance(v, bool) else (z3.RealVal(v) if isinstance(v, float) else v)
        if con(l) and con(r):
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}
            return f[type(op)]()
        if isinstance(l, str):
            l = strc(l)
        if isinstance(r, str):
            r = strc(r)
        l, r = num(l), num(r)
        if is_scalar(l) and is_scalar(r):
            f = {ast.Eq: lambda: l == r, ast.NotEq: lambda: l != r, ast.Lt: lambda: l < r, ast.LtE: lambda: l <= r, ast.Gt: lambda: l > r, ast.GtE: lambda: l >= r}
            if type(op) in f:
                return f[type(op)]()
        raise Unsupported('comparison')

    def apply(self, f, args, kw):
        if isinstance(f, Analyzer):
            if len(args) != 1 or kw:
                raise Raised('TypeError')
            return ANA(want(args[0], STR, 'document'))
        if isinstance(f, NativeClass):
            if not self.cx.by_key.get(f.name + '::new'):
                raise Raised('AttributeError')
            n = len(find(self.cx, f.name + '::new').args)
            if kw:
                names = PARAMS[f.name.startswith('Sim')]
                args = args + [kw.pop(x) if x in kw else None for x in names[len(args):]]
                if kw:
                    raise Raised('TypeError')
            if len(args) > n:
                raise Raised('TypeError')
            return Native(f.name, z3.Const('new_core', CORE), args)
        if isinstance(f, Bound) and isinstance(f.obj, Obj):
            return self.call(f.obj.cls, f.name, f.obj, args, kw)
        if isinstance(f, Bound):
            return self.native(f.obj, f.name, args, kw)
        if isinstance(f, tuple) and f[0] == 'builtin':
            if f[1] == 'callable' and len(args) == 1:
                v = args[0]
                if isinstance(v, Analyzer):
                    return True
                if isinstance(v, str) or is_scalar(v) and v.sort() == STR:
                    return False
            if f[1] == 'getattr' and len(args) == 2 and isinstance(args[0], Native) and isinstance(args[1], str):
                return Bound(args[0], args[1])
            if f[1] == 'list' and len(args) == 1 and isinstance(args[0], Lst):
                return args[0]
            if f[1] == 'bool' and len(args) == 1:
                return self.decide(args[0])
            if f[1] == 'len' and len(args) == 1 and isinstance(args[0], Lst):
                return args[0].n
            if f[1] == 'map' and len(args) == 2 and isinstance(args[1], Lst):
                return Lst(args[1].n, lambda i: self.apply(args[0], [args[1].at(i)], {}))
            if f[1] in ('ValueError', 'TypeError'):
                return Sym('error')
        raise Unsupported('call')

    def native(self, o, m, args, kw):
        """The native methods, by contract."""
        key = '%s::%s' % (o.cls, m)
        fs = self.cx.by_key.get(key, [])
        if not fs:
            self.missing.append(m)
            raise Raised('AttributeError: %s has no %s' % (o.cls, m))
        if kw or len(args) + 1 != len(fs[0].args):
            raise Raised('TypeError')
        c = o.core
        ids = lambda l: z3.Lambda([z3.Int('i!pos')], want(l.at(z3.Int('i!pos')), I, 'id'))
        sd = lambda v: DSIG(o.core0, want(v, STR, 'document'))
        sk = lambda v: TSIG(o.core0, want(v, TOK, 'token list'))
        if m in ('insert_document', 'insert_tokens'):
            o.core = INS(c, want(args[0], I, 'id'), (sd if m == 'insert_document' else sk)(args[1]))
            return None
        if m == 'remove':
            o.core = REM(c, want(args[0], I, 'id'))
            return None
        if m == 'size':
            return SIZE(c)
        if m in ('par_bulk_insert_docs', 'bulk_insert_tokens', 'par_bulk_insert_tokens'):
            l, d = args
            if not isinstance(l, Lst) or not isinstance(d, Lst):
                raise Unsupported('lists of another kind')
            o.core = BULK(c, l.n, ids(l), bulkarr(d, SIG, sd if m.endswith('docs') else sk))
            return None
        if m.startswith('par_bulk_query') or m.startswith('query'):
            one = QS if 'return' in m else ANSWER
            sg = sk if '_tokens' in m else sd
            if m.startswith('par'):
                if not isinstance(args[0], Lst):
                    raise Unsupported('list of another kind')
                return Lst(args[0].n, lambda i: one(c, sg(args[0].at(i))))
            return one(c, sg(args[0]))
        raise Unsupported('native %s' % m)


PARAMS = {False: ['jaccard_threshold', 'num_bands', 'band_width', 'num_hashes', 'analyzer', 'lowercase', 'ngram_range'],
          True: ['num_blocks', 'max_distance', 'analyzer', 'lowercase', 'ngram_range']}


def paths(cx, tree, run):
    """Every path of run(interp): (interp, result, raised)."""
    choices = []
    for _ in range(200):
        it = Interp(cx, tree, list(choices))
        try:
            r, err = run(it), None
        except Raised as e:
            r, err = None, str(e)
        yield it, r, err
        ch = it.choices[:it.used]
        while ch and not ch[-1]:
            ch.pop()
        if not ch:
            return
        choices = ch[:-1] + [False]
    raise Unsupported('too many paths')


def source(name):
    return ast.parse(open(os.path.join(PKG, name)).read())


def goal(cx, it, name, f, kind='post'):
    st = St()
    for p in it.path:
        st.fact(p)
    cx.oblige(st, name, f, kind)


def native_attr(tree, cls):
    """The attribute that holds the native index: the one __init__ sets to a native object."""
    return tree


def new_obj(cx, it, cls, native_cls, attr, analyzer):
    o = Native(native_cls, z3.Const('core', CORE))
    return Obj(cls, {attr: o, 'analyzer': analyzer}), o


def run_method(cx, file, cls, sim, m, args, post, flags=(None,)):
    tree = source(file)
    ncls = SIMS[0][0] if sim else CLASSES[0][0]
    attr = holder(cx, tree, cls, sim)
    n = 0
    for an in (Analyzer(), z3.Const('analyzer_name', STR)):
        call = isinstance(an, Analyzer)
        for fl in flags:
            box = {}

            def run(it):
                ob, nat = new_obj(cx, it, cls, ncls, attr, an)
                box['n'] = nat
                a = list(args) + ([fl] if fl is not None else [])
                return it.call(cls, m, ob, a)
            for it, r, err in paths(cx, tree, run):
                n += 1
                how = '%s%s' % ('callable analyzer' if call else 'built-in analyzer', '' if fl is None else (', scores' if fl else ', ids'))
                goal(cx, it, 'no exception (%s)%s' % (how, ': ' + err if err else ''), z3.BoolVal(err is None), 'panic')
                if err is None:
                    nat = box['n']
                    sig = (lambda d: TSIG(nat.core0, ANA(d))) if call else (lambda d: DSIG(nat.core0, d))
                    post(it, how, nat, r, fl, sig)
    if not n:
        raise Unsupported('no path')


def holder(cx, tree, cls, sim):
    """Run __init__ once on ordinary arguments to see where the native index is kept."""
    for it, ob, err in paths(cx, tree, lambda it: init(it, cls, sim, *((64,) if sim else (64, 'set')))):
        if err is None:
            at = [k for k, v in ob.attrs.items() if isinstance(v, Native)]
            if len(at) == 1 and 'analyzer' in ob.attrs:
                return at[0]
    raise Unsupported('no native index')


def init(it, cls, sim, size, cont=None, analyzer=None, given=None):
    o = Obj(cls, {})
    an = 'word' if analyzer is None else analyzer
    g = given or (lambda nm: 6 if nm == 'num_blocks' else (5 if nm == 'hamming_distance' else (z3.Const('thr', R) if nm == 'jaccard_threshold' else Sym(nm))))
    kw = dict(hash_size=size, analyzer=an, lowercase=g('lowercase'), ngram_range=g('ngram_range'))
    if sim:
        kw.update(num_blocks=g('num_blocks'), hamming_distance=g('hamming_distance'))
    else:
        kw.update(jaccard_threshold=g('jaccard_threshold'), num_bands=g('num_bands'), band_size=g('band_size'), num_hashes=g('num_hashes'), id_container=cont)
    it.call(cls, '__init__', o, [], kw)
    return o


def j_init(file, cls, sim):
    def run(cx):
        tree = source(file)
        names = {'HashSet': 'set', 'Vec': 'vec', 'SmallVec': 'smallvec'}
        cases = [(int(c[7:-len('StringIntIndex')]), None, c) for c, _ in SIMS] if sim else \
                [(int(c.split('String')[0][7:]), names[c.split('Index')[1]], c) for c, _, _ in CLASSES]
        for size, cont, ncls in cases:
            for an in (Analyzer(), 'word', 'char'):
                syms = {}
                nums = ('num_blocks', 'hamming_distance')

                def given(nm):
                    if nm not in syms:
                        syms[nm] = z3.Const('thr', R) if nm == 'jaccard_threshold' else (z3.Int(nm) if nm in nums else Sym(nm))
                    return syms[nm]
                thr = z3.Const('thr', R)
                good = And(z3.Int('num_blocks') >= 3, z3.Int('num_blocks') <= 32, z3.Int('hamming_distance') < z3.Int('num_blocks')) if sim else \
                    And(thr >= 0, thr <= 1)
                for it, ob, err in paths(cx, tree, lambda it: init(it, cls, sim, size, cont, an, given)):
                    how = '%s %s %s' % (size, cont or '', an if isinstance(an, str) else 'callable')
                    if err is not None:
                        goal(cx, it, 'valid settings are accepted (%s)' % how, Not(good))
                        continue
                    nat = [v for v in ob.attrs.values() if isinstance(v, Native)]
                    goal(cx, it, 'the native class of the hash size and container (%s)' % how, z3.BoolVal(len(nat) == 1 and nat[0].cls == ncls))
                    goal(cx, it, 'the analyzer is remembered (%s)' % how, z3.BoolVal(ob.attrs.get('analyzer') is an))
                    want_ = [syms[x] for x in (('num_blocks', 'hamming_distance') if sim else ('jaccard_threshold', 'num_bands', 'band_size', 'num_hashes'))] + \
                        [an if isinstance(an, str) else None, syms['lowercase'], syms['ngram_range']]
                    got = list(nat[0].args) if nat else []
                    same = len(got) == len(want_) and all(w is None or g is w or (isinstance(g, str) and g == w) for g, w in zip(got, want_))
                    goal(cx, it, 'the settings reach the native class in their places (%s)' % how, z3.BoolVal(same))
    return run


def docs():
    f = z3.Function('docs', I, STR)
    n = z3.Int('num_docs')
    return Lst(n, lambda i: f(i))


def ids():
    f = z3.Function('ids', I, I)
    return Lst(z3.Int('num_docs'), lambda i: f(i))


POS = z3.Int('i!pos')


def j_insert(file, cls, sim):
    def run(cx):
        x, d = z3.Int('id'), z3.Const('doc', STR)
        run_method(cx, file, cls, sim, 'insert_document', [x, d],
                   lambda it, how, nat, r, fl, sig: goal(cx, it, 'the document is inserted under its id (%s)' % how, nat.core == INS(nat.core0, x, sig(d))))
    return run


def j_query(file, cls, sim, m, bulk):
    def run(cx):
        arg = docs() if bulk else z3.Const('doc', STR)

        def post(it, how, nat, r, fl, sig):
            one = QS if fl else ANSWER
            goal(cx, it, 'the index is not changed (%s)' % how, nat.core == nat.core0)
            if not bulk:
                ok = r == one(nat.core0, sig(arg)) if is_scalar(r) and r.sort() == one.range() else FALSE
                goal(cx, it, 'the answer of the native class for the document (%s)' % how, ok)
            else:
                if not isinstance(r, Lst):
                    raise Unsupported('another kind of list')
                e = r.at(POS)
                goal(cx, it, 'one answer for every document (%s)' % how, r.n == arg.n)
                goal(cx, it, 'each the answer of the native class for its document (%s)' % how,
                     e == one(nat.core0, sig(arg.at(POS))) if is_scalar(e) and e.sort() == one.range() else FALSE)
        run_method(cx, file, cls, sim, m, [arg], post, (True, False))
    return run


def j_bulk(file, cls):
    def run(cx):
        l, d = ids(), docs()

        def post(it, how, nat, r, fl, sig):
            goal(cx, it, 'the documents are inserted in order, each under its id (%s)' % how,
                 nat.core == BULK(nat.core0, l.n, z3.Lambda([POS], l.at(POS)), z3.Lambda([POS], sig(d.at(POS)))))
        run_method(cx, file, cls, False, 'par_bulk_insert_docs', [l, d], post)
    return run


def j_remove(file, cls):
    def run(cx):
        x = z3.Int('id')
        run_method(cx, file, cls, False, 'remove', [x],
                   lambda it, how, nat, r, fl, sig: goal(cx, it, 'the id is removed (%s)' % how, nat.core == REM(nat.core0, x)))
    return run


def j_size(file, cls):
    def run(cx):
        run_method(cx, file, cls, False, 'size', [],
                   lambda it, how, nat, r, fl, sig: goal(cx, it, 'the size of the index (%s)' % how, r == SIZE(nat.core0) if is_scalar(r) else FALSE))
    return run


JOBS = []


def add(name, run, sim=False):
    JOBS.append(JOB(name, run, PP, setup('u64' if sim else 'Vec<u64>', sim), package='pygaoya'))


M, S = ('minhash.py', 'MinHashStringIndex'), ('simhash.py', 'SimHashStringIndex')
for (f, c), sim in ((M, False), (S, True)):
    add('%s: %s.__init__' % (f, c), j_init(f, c, sim), sim)
    add('%s: %s.insert_document' % (f, c), j_insert(f, c, sim), sim)
    add('%s: %s.query' % (f, c), j_query(f, c, sim, 'query', False), sim)
    add('%s: %s.par_bulk_query' % (f, c), j_query(f, c, sim, 'par_bulk_query', True), sim)
add('%s: %s.par_bulk_insert_docs' % M, j_bulk(*M))
add('%s: %s.remove' % M, j_remove(*M))
add('%s: %s.size' % M, j_size(*M))
