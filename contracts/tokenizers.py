"""Word splitting and fixed-size shingles (P21). A text is the sequence of its characters here."""
from common import *
from vals import *
import models

CH = sh_int(0, 0x10FFFF)


def setup():
    cx = new_ctx({'str': sh_seq(CH)}, {})
    cx.extra_models = [chars]
    cx.text = 'chars'
    return cx


def setup_tokens():
    STR = sh_u('Str')
    # a joined string is its parts and the separator
    cx = new_ctx({'str': STR, '&str': STR, 'String': sh_tup(sh_seq(STR), STR)}, {})
    cx.extra_models = [joined]
    return cx


# ---- characters
def rng(*rs):
    return lambda c: Or(*[And(c >= ord(r[0]), c <= ord(r[-1])) for r in rs])


ASCII = {
    'is_ascii': lambda c: c < 128,
    'is_ascii_punctuation': rng('!/', ':@', '[`', '{~'),
    'is_ascii_whitespace': rng('\t\n', '\x0c\r', ' '),
    'is_ascii_digit': rng('09'),
    'is_ascii_alphabetic': rng('az', 'AZ'),
    'is_ascii_lowercase': rng('az'),
    'is_ascii_uppercase': rng('AZ'),
    'is_ascii_alphanumeric': rng('09', 'az', 'AZ'),
    'is_ascii_control': rng('\0\x1f', '\x7f'),
    'is_ascii_graphic': rng('!~'),
}
# only the ASCII part of these is known
UNI = {'is_whitespace': rng('\t\r', ' '), 'is_alphanumeric': rng('09', 'az', 'AZ'), 'is_alphabetic': rng('az', 'AZ'),
       'is_numeric': rng('09'), 'is_control': rng('\0\x1f', '\x7f'), 'is_uppercase': rng('AZ'), 'is_lowercase': rng('az')}
SEP = lambda c: Or(ASCII['is_ascii_punctuation'](c), ASCII['is_ascii_whitespace'](c))


class Pieces:
    pass


def split(cx, st, text, pred):
    """What str::split yields: the pieces between the separators, in order. pred: Bool over the character."""
    c = z3.Int('ch!')
    here = pred(c)
    reg = cx.__dict__.setdefault('splits', [])
    for t, p, ps in reg:
        if t is text and cx.prove([c >= 0, c <= 0x10FFFF], p == here, 3000):
            return ps
    ps = Pieces()
    n = len(reg)
    ps.m = z3.Int('pieces%d' % n)
    ps.s = z3.Function('pstart%d' % n, I, I)
    ps.e = z3.Function('pend%d' % n, I, I)
    ps.of = z3.Function('pof%d' % n, I, I)
    i, j, q = gensym('i', I), gensym('j', I), gensym('q', I)
    d = ['pieces%d' % n, 'pstart%d' % n, 'pend%d' % n, 'pof%d' % n]
    sep = lambda k: pred(text.at(k))
    ax = lambda f, vs=(), pats=None: cx.axiom(st, f, list(vs), pats, d, guard=False)
    inn = lambda k: And(k >= 0, k < ps.m)
    ax(And(ps.m >= 1, ps.m <= text.n + 1, ps.s(iv(0)) == 0, ps.e(ps.m - 1) == text.n))
    for f in (ps.s, ps.e):
        ax(Implies(inn(i), And(ps.s(i) >= 0, ps.s(i) <= ps.e(i), ps.e(i) <= text.n)), [i], [[f(i)]])
    ax(Implies(And(inn(i), i + 1 < ps.m), And(ps.s(i + 1) == ps.e(i) + 1, sep(ps.e(i)))), [i], [[ps.e(i)]])
    ax(Implies(And(inn(i), i > 0), And(ps.e(i - 1) + 1 == ps.s(i), sep(ps.s(i) - 1))), [i], [[ps.s(i)]])
    ax(Implies(And(inn(i), inn(j), i < j), ps.e(i) < ps.s(j)), [i, j], [[ps.e(i), ps.s(j)]])
    ax(Implies(And(inn(i), ps.s(i) <= q, q < ps.e(i)), Not(sep(q))), [i, q], [[ps.s(i), text.at(q)]])
    ax(Implies(And(q >= 0, q < text.n, Not(sep(q))), And(inn(ps.of(q)), ps.s(ps.of(q)) <= q, q < ps.e(ps.of(q)))), [q], [[ps.of(q)]])
    reg.append((text, here, ps))
    return ps


def piece_iter(text, ps):
    return Iter(('seq', ps.m, memo(lambda i: Seq(simp(ps.e(i) - ps.s(i)), lambda k: text.at(ps.s(i) + k)))))


def as_pred(cx, st, pat):
    pat = cx.deref(st, pat)
    if is_scalar(pat):
        return lambda c: c == pat
    if isinstance(pat, Seq) and z3.is_int_value(simp(pat.n)):
        return lambda c: Or(*[c == pat.at(iv(k)) for k in range(simp(pat.n).as_long())])
    g = z3.Int('g!' + cx.symname(st, 'char'))
    v = cx.at_generic(st, g, [g >= 0, g <= 0x10FFFF], lambda s: cx.call_closure(s, pat, [g]))
    return lambda c: z3.substitute(v, (g, c))


def chars(cx, fr, st, c, own, m, args, atys):
    if own == 'char':
        x = lambda: cx.deref(st, args[0])
        if m in ASCII:
            return models.one(st, simp(ASCII[m](x())))
        if m in UNI:
            f = z3.Function('uni_' + m, I, B)
            return models.one(st, simp(If(x() < 128, UNI[m](x()), f(x()))))
    if own == 'str':
        t = cx.deref(st, args[0])
        if m == 'split':
            return models.one(st, piece_iter(t, split(cx, st, t, as_pred(cx, st, args[1]))))
        if m == 'is_empty':
            return models.one(st, t.n == 0)
        if m == 'len':
            k = cx.fresh(st, 'bytes', I, (0, 2**63 - 1))            # one to four bytes each
            cx.axiom(st, And(k >= t.n, k <= 4 * t.n), defs=[ex.decl_name(k)], guard=False)
            return models.one(st, k)
        if m in ('char_indices', 'bytes', 'as_bytes', 'get', 'find', 'rfind', 'split_at', 'is_char_boundary'):
            raise Unsupported('%s: byte positions in a text of characters' % m)
    if own == 'Shingles' and m in ('new', 'into_iter'):
        return models.one(st, shingles(cx, st, args) if m == 'new' else args[0])
    if own in ('Box',) and m == 'new':
        return models.one(st, args[0])
    return None


def shingles(cx, st, args):
    """The contract of shingles::Shingles with step 1, proved below from the source of that crate."""
    d, k = cx.deref(st, args[0]), args[1]
    cx.oblige(st, 'precondition of Shingles::new: at least size 1', k >= 1, 'precondition')
    return Iter(('seq', simp(If(d.n >= k, d.n - k + 1, iv(0))), memo(lambda i: Seq(k, lambda j: d.at(i + j), d.arr, simp(d.off + i) if d.arr is not None else None))))


def joined(cx, fr, st, c, own, m, args, atys):
    if own == 'Shingles' and m in ('new', 'into_iter'):
        return models.one(st, shingles(cx, st, args) if m == 'new' else args[0])
    if m == 'join':
        return models.one(st, Tup([cx.deref(st, args[0]), cx.deref(st, args[1])]))
    if m == 'concat':
        return models.one(st, Tup([cx.deref(st, args[0]), z3.Const('str:""', usort('Str'))]))
    return None


def result(cx, s, v):
    v = cx.deref(s, v)
    if isinstance(v, Tup) and len(v.f) == 1:
        v = cx.deref(s, v.f[0])
    if isinstance(v, Seq):
        return v
    if not isinstance(v, Iter):
        raise Unsupported('tokens as %s' % type(v).__name__)
    return models.mat(cx, s, v)


# ---- word splitting
def j_words(key):
    def run(cx):
        r = Run(cx, key, ['text'])
        text = cx.deref(r.st, r.args[0])
        ps = split(cx, r.st, text, SEP)
        k = gensym('k', I)
        cnt, sel = models.spec_fold(cx, r.st, k, ps.s(k) != ps.e(k), ps.m)
        i, j, q = gensym('i', I), gensym('j', I), gensym('q', I)
        for s, v in r.body():
            out = result(cx, s, v)
            models.spec_fold(cx, s, k, ps.s(k) != ps.e(k), ps.m)
            n = cnt(ps.m)
            ok = And(i >= 0, i < n)
            a, b = ps.s(sel(i)), ps.e(sel(i))
            ob = lambda nm, g, kind='post': cx.oblige(s, nm, g, kind)
            ob('as many tokens as maximal runs of token characters', out.n == n)
            ob('the i-th token is the i-th run', Implies(ok, out.at(i).n == b - a))
            ob('the i-th token has the characters of the i-th run', Implies(And(ok, j >= 0, j < b - a), out.at(i).at(j) == text.at(a + j)))
            # what the runs are
            sep = lambda x: SEP(text.at(x))
            ob('a run is not empty and lies in the text', Implies(ok, And(0 <= a, a < b, b <= text.n)))
            ob('a run has no separator', Implies(And(ok, a <= q, q < b), Not(sep(q))))
            ob('a run is maximal', Implies(ok, And(Or(a == 0, sep(a - 1)), Or(b == text.n, sep(b)))))
            ob('runs come in order', Implies(And(ok, j > i, j < n), b < ps.s(sel(j))))
            w = ps.of(q)
            ob('every token character is in a run', Implies(And(q >= 0, q < text.n, Not(sep(q))),
                                                           And(cnt(w) >= 0, cnt(w) < n, ps.s(sel(cnt(w))) <= q, q < ps.e(sel(cnt(w))))))
    return run


# ---- fixed-size shingles
def j_fixed(key):
    def run(cx):
        r = Run(cx, key, ['text', 'size'])
        text = cx.deref(r.st, r.args[0])
        k = r.args[1]
        r.st.fact(k >= 1)
        i, j = gensym('i', I), gensym('j', I)
        for s, v in r.body():
            out = result(cx, s, v)
            n = If(text.n >= k, text.n - k + 1, iv(0))
            ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
            ob('one shingle for every position it fits at', out.n == n)
            it = out.at(i)
            if isinstance(it, Tup):
                sep = it.f[1]
                ob('tokens are joined without separator', Implies(And(i >= 0, i < n), sep.n == 0 if isinstance(sep, Seq) else sep == z3.Const('str:""', sep.sort())))
                it = it.f[0]
            ob('a shingle has the given size', Implies(And(i >= 0, i < n), it.n == k))
            ob('a shingle is the run at its position', Implies(And(i >= 0, i < n, j >= 0, j < k), cx.deref(s, it.at(j)) == cx.deref(r.st, text.at(i + j))))
    return run


# ---- the crate shingles
def setup_dep(over):
    return lambda: new_ctx(over, {}, package='shingles')


def fields(cx, st, v, ty):
    sh = cx.shape(mir.parse_type(ty))
    f = lambda n: v.f[field_index(sh, n)]
    return cx.deref(st, f('data')), f('size'), f('step')


def j_dep_slice(cx):
    r = Run(cx, '<Shingles as Iterator>::next', ['self'], module=lambda f: '[T]' in f.name)
    ty = 'Shingles<[T]>'
    d, size, step = fields(cx, r.st, r.st.roots['self'], ty)
    r.st.fact(And(step == 1, size >= 1))
    j = gensym('j', I)
    for s, v in r.body():
        d1, size1, step1 = fields(cx, s, s.roots['self'], ty)
        ret = cx.deref(s, v.alts[1][0]) if 1 in v.alts else Seq(iv(0), lambda i: z3.Const('junk_t', T))
        ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
        ob('a shingle as long as one fits', (v.tag == 1) == (d.n >= size))
        ob('size and step stay', And(size1 == size, step1 == step))
        ob('the first tokens are returned', Implies(v.tag == 1, ret.n == size))
        ob('the first tokens are returned', Implies(And(v.tag == 1, j >= 0, j < size), ret.at(j) == d.at(j)))
        ob('all tokens but the first are left', Implies(v.tag == 1, d1.n == d.n - 1))
        ob('all tokens but the first are left', Implies(And(v.tag == 1, j >= 0, j < d1.n), d1.at(j) == d.at(j + 1)))
        ob('nothing comes after the end', Implies(v.tag == 0, d1.n < size))


def lead(b):
    return Or(b < 128, b >= 192)


def j_dep_str(cx):
    r = Run(cx, '<Shingles as Iterator>::next', ['self'], module=lambda f: 'str' in f.name)
    ty = 'Shingles<str>'
    d, size, step = fields(cx, r.st, r.st.roots['self'], ty)
    nb = d.n
    k = gensym('k', I)
    cnt, sel = models.spec_fold(cx, r.st, k, lead(d.at(k)), nb)
    n = cnt(nb)
    r.st.fact(And(step == 1, size >= 1))
    r.st.fact(Implies(nb > 0, lead(d.at(iv(0)))))
    M = z3.Function('MENTION', I, B)
    for c in (iv(0), iv(1), size):
        r.st.fact(M(sel(c)))
    j = gensym('j', I)
    for s, v in r.body():
        d1, size1, step1 = fields(cx, s, s.roots['self'], ty)
        ret = cx.deref(s, v.alts[1][0]) if 1 in v.alts else Seq(iv(0), lambda i: iv(0))
        models.spec_fold(cx, r.st, k, lead(d.at(k)), nb)
        o = nb - d1.n
        pos = lambda c: If(c < n, sel(c), nb)
        ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
        ob('a shingle as long as one fits', (v.tag == 1) == (n >= size))
        ob('size and step stay', And(size1 == size, step1 == step))
        ob('the first characters are returned', Implies(v.tag == 1, ret.n == pos(size)))
        ob('the first characters are returned', Implies(And(v.tag == 1, j >= 0, j < ret.n), ret.at(j) == d.at(j)))
        ob('all characters but the first are left', Implies(v.tag == 1, o == pos(iv(1))))
        ob('all characters but the first are left', Implies(And(v.tag == 1, j >= 0, j < d1.n), d1.at(j) == d.at(j + o)))
        ob('nothing comes after the end', Implies(v.tag == 0, And(o >= 0, Or(o == 0, d1.n == 0, o == pos(iv(1))))))


def j_dep_new(cx):
    r = Run(cx, 'Shingles::new', ['data', 'size'])
    for s, v in r.body():
        d, size, step = fields(cx, s, v, 'Shingles<T>')
        cx.oblige(s, 'starts with the whole text, in steps of one',
                  And(size == r.args[1], step == 1, d == cx.deref(r.st, r.args[0])), 'post')


PX = P('P21')
JOBS = [JOB('whitespace_split', j_words('whitespace_split'), PX, setup),
        JOB('whitespace_split_boxed', j_words('whitespace_split_boxed'), PX, setup),
        JOB('shingle_text', j_fixed('shingle_text'), PX, setup),
        JOB('shingle_text_boxed', j_fixed('shingle_text_boxed'), PX, setup),
        JOB('shingle_tokens', j_fixed('shingle_tokens'), PX, setup_tokens),
        JOB('shingles::Shingles<[T]>::next', j_dep_slice, PX, setup_dep({'T': sh_u('U_T')}), package='shingles'),
        JOB('shingles::Shingles<str>::next', j_dep_str, PX, setup_dep({'str': sh_seq(sh_int(0, 255))}), package='shingles'),
        JOB('shingles::Shingles::new', j_dep_new, PX, setup_dep({'T': sh_u('U_T')}), package='shingles')]
