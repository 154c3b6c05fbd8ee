"""Range shingles (P16)."""
from common import *

TT = usort('U_T')


def setup_slice():
    return new_ctx({'T': sh_u('U_T')}, {})


def setup_str():
    return new_ctx({'str': sh_seq(sh_int(0, 255))}, {})


class State:
    """The fields of an iterator; n tokens (or characters) are left, size is the next size to try."""

    def __init__(self, cx, st, root, ty):
        v = st.roots[root]
        sh = cx.shape(mir.parse_type(ty))
        f = lambda n: v.f[field_index(sh, n)]
        self.data, self.frm, self.to, self.size, self.step = cx.deref(st, f('data')), f('from_size'), f('to_size'), f('size'), f('step')

    def ok(self, n):
        """What holds between calls: 1 <= from <= size <= to, and only a start size may be too long."""
        return And(self.step == 1, self.frm >= 1, self.frm <= self.size, self.size <= self.to,
                   Or(self.size <= n, self.size == self.frm))


def fits(s, n, q, u):
    return And(q >= 0, s.frm <= u, u <= s.to, q + u <= n)


def obliges(cx, s, ret, a, b, n, n1, ln, d, q, u):
    """One step. a, b: state before and after, with n and n1 tokens left; ln: size of the shingle returned (Some) at
    position 0; d: tokens consumed. Positions are counted from the old state. Everything that fits and comes before the
    state in (position, size) order has been returned, everything from there on has not."""
    some_ = ret.tag == 1
    at = lambda q, u: Or(q > 0, u >= a.size)            # not yet returned before
    fit = fits(a, n, q, u)
    ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
    ob('nothing is returned only when no shingle is left', Implies(And(Not(some_), fit), Not(at(q, u))))
    ob('a returned shingle fits and was not returned before', Implies(some_, And(fits(a, n, iv(0), ln), at(iv(0), ln))))
    ob('no shingle is passed over', Implies(And(some_, fit, at(q, u), q == 0), u >= ln))
    ob('the range of sizes does not change', And(b.frm == a.frm, b.to == a.to, b.step == a.step))
    ob('the rest is a tail of the text', Implies(some_, And(d >= 0, d <= n, n1 == n - d)))
    left = Or(q > d, And(q == d, u >= b.size))
    ob('exactly the shingles after the returned one are left', Implies(And(some_, fit), left == Or(q > 0, u > ln)))
    ob('the state stays well formed', Implies(some_, b.ok(n1)))


def j_slice(cx):
    r = Run(cx, '<MultiShingles as Iterator>::next', ['self'], module=lambda f: '[T]' in f.name)
    ty = 'MultiShingles<[T]>'
    a = State(cx, r.st, 'self', ty)
    n = a.data.n
    r.st.fact(a.ok(n))
    q, u, j = gensym('q', I), gensym('u', I), gensym('j', I)
    for s, v in r.body():
        b = State(cx, s, 'self', ty)
        n1 = b.data.n
        d = n - n1
        ret = cx.deref(s, v.alts[1][0]) if 1 in v.alts else Seq(iv(0), lambda i: z3.Const('junk_t', TT))
        obliges(cx, s, v, a, b, n, n1, ret.n, d, q, u)
        inn = lambda m: And(v.tag == 1, j >= 0, j < m)
        cx.oblige(s, 'a returned shingle is the run of tokens at its position', Implies(inn(ret.n), ret.at(j) == a.data.at(j)), 'post')
        cx.oblige(s, 'the tokens left are the tail of the tokens', Implies(inn(n1), b.data.at(j) == a.data.at(j + d)), 'post')


def lead(b):
    """A byte that begins a character (UTF-8)."""
    return Or(b < 128, b >= 192)


def j_str(cx):
    r = Run(cx, '<MultiShingles as Iterator>::next', ['self'], module=lambda f: 'str' in f.name)
    ty = 'MultiShingles<str>'
    a = State(cx, r.st, 'self', ty)
    nb = a.data.n
    k = gensym('k', I)
    cnt, sel = cx.models.spec_fold(cx, r.st, k, lead(a.data.at(k)), nb)
    n = cnt(nb)
    pos = lambda c: If(c < n, sel(c), nb)               # where character c begins
    r.st.fact(Implies(nb > 0, lead(a.data.at(iv(0)))))  # a text begins with a character
    r.st.fact(a.ok(n))
    r.st.fact(a.to < 2**64 - 1)
    M = z3.Function('MENTION', I, B)                    # (brings terms to the solver, says nothing)
    for c in (iv(0), iv(1), a.size):
        r.st.fact(M(sel(c)))
    q, u, j = gensym('q', I), gensym('u', I), gensym('j', I)
    for s, v in r.body():
        b = State(cx, s, 'self', ty)
        nb1 = b.data.n
        o = nb - nb1
        ret = cx.deref(s, v.alts[1][0]) if 1 in v.alts else Seq(iv(0), lambda i: iv(0))
        cx.models.spec_fold(cx, r.st, k, lead(a.data.at(k)), nb)    # relates the counts of the code to it
        cnt1, _ = cx.models.spec_fold(cx, s, k, lead(b.data.at(k)), nb1)
        val = lambda t: cnt(o + t) - cnt(o)
        inn = lambda m: And(v.tag == 1, j >= 0, j < m)
        ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
        ob('the text left is the tail of the text', Implies(v.tag == 1, And(o >= 0, o <= nb)))
        ob('the text left is the tail of the text', Implies(inn(nb1), b.data.at(j) == a.data.at(j + o)))
        cx.models.relate_folds(cx, s, k, [], If(lead(a.data.at(o + k)), iv(1), iv(0)), val, nb1)
        ln, d = cnt(ret.n), cnt(o)
        ob('a returned shingle is the run of characters at its position', Implies(inn(ret.n), ret.at(j) == a.data.at(j)))
        ob('a returned shingle ends at a character boundary', Implies(v.tag == 1, And(ret.n <= nb, ret.n == pos(ln))))
        ob('the text left begins with a character', Implies(And(v.tag == 1, nb1 > 0), lead(b.data.at(iv(0)))))
        obliges(cx, s, v, a, b, n, cnt1(nb1), ln, d, q, u)


def j_new(cx):
    r = Run(cx, 'MultiShingles::new', ['data', 'from', 'to'])
    for s, v in r.body():
        sh = cx.shape(mir.parse_type('MultiShingles<T>'))
        f = lambda n: v.f[field_index(sh, n)]
        cx.oblige(s, 'starts at the first token with the smallest size',
                  And(f('from_size') == r.args[1], f('to_size') == r.args[2], f('size') == r.args[1], f('step') == 1,
                      cx.deref(s, f('data')) == cx.deref(r.st, r.args[0])), 'post')


def j_wrap(key, ty, module=None):
    def run(cx):
        r = Run(cx, key, ['data', 'from', 'to'], module=module)
        for s, v in r.body():
            sh = cx.shape(mir.parse_type(ty))
            f = lambda n: v.f[field_index(sh, n)]
            d, e = cx.deref(s, f('data')), cx.deref(r.st, r.args[0])
            j = gensym('j', I)
            ob = lambda nm, g: cx.oblige(s, nm, g, 'post')
            ob('starts with the smallest size', And(f('from_size') == r.args[1], f('to_size') == r.args[2], f('size') == r.args[1], f('step') == 1))
            ob('starts with the whole text', And(d.n == e.n, Implies(And(j >= 0, j < e.n), d.at(j) == e.at(j))))
    return run


JOBS = [JOB('MultiShingles<[T]>::next', j_slice, P('P16'), setup_slice),
        JOB('MultiShingles<str>::next', j_str, P('P16'), setup_str),
        JOB('shingle_text_range', j_wrap('shingle_text_range', 'MultiShingles<str>'), P('P16'), setup_str),
        JOB('<[T] as AsShingles>::as_shingles', j_wrap('<slice as AsShingles>::as_shingles', 'MultiShingles<[T]>'), P('P16'), setup_slice),
        JOB('<str as AsShingles>::as_shingles', j_wrap('<str as AsShingles>::as_shingles', 'MultiShingles<str>'), P('P16'), setup_str),
        JOB('MultiShingles::new', j_new, P('P16'), setup_slice)]
