"""The native classes behind the Python package (P20): every method forwards faithfully. The core index is seen through what
P01-P14 prove of it: its state is a value, changed by insertion and removal, asked with a signature; bulk insertion is
insertion in turn (P05, P14); bulk queries are queries position by position (P04, P13). Signatures are a function of the
hasher and the tokens (P08, P12); tokens are a function of the document, the analyzer and the n-gram range (P16)."""
from common import *
import models

CORE, SIG, TOK, HSH, STR, RES = usort('Core'), usort('Sig'), usort('Tok'), usort('Hsh'), usort('Str'), usort('Res')
TN = z3.Function('tok_len', TOK, I)
TAT = z3.Function('tok_at', TOK, I, STR)
WORDS = z3.Function('words', STR, TOK)                  # whitespace_split
CHARS = z3.Function('char_ngrams', STR, I, I, TOK)      # character n-grams, all lengths from..=to
GRAMS = z3.Function('word_ngrams', TOK, I, I, TOK)      # word n-grams, all lengths from..=to
LOWER = z3.Function('lowercase', STR, STR)
MK = z3.Function('signature', HSH, TOK, SIG)
LEN = z3.Function('siglen', SIG, I)
NH = z3.Function('num_hashes', HSH, I)
CNH = z3.Function('index_num_hashes', CORE, I)
INS = z3.Function('insert', CORE, I, SIG, CORE)
REM = z3.Function('remove', CORE, I, CORE)
SIZE = z3.Function('size', CORE, I)
QM = z3.Function('query', CORE, SIG, I, B)
QS = z3.Function('query_scored', CORE, SIG, RES)
NEWI = z3.Function('new_index', I, I, R, CORE)
NEWS = z3.Function('new_simhash_index', I, I, CORE)
NEWH = z3.Function('new_hasher', I, HSH)
NEWSH = z3.Function('new_simhasher', I, I, HSH)
BANDS = z3.Function('best_bands', R, I, I)
ROWS = z3.Function('best_rows', R, I, I)
PP = P('P20')
CLASSES = [('MinHash%s%s' % (w, c), 'Vec<u%s>' % w, h) for w, h in (('64', 'MinHasher64V1'), ('32', 'MinHasher32'), ('16', 'MinHasher16'), ('8', 'MinHasher8'))
           for c in ('StringIntIndexHashSet', 'StringIntIndexVec', 'StringIntIndexSmallVec')]
SIMS = [('SimHash%sStringIntIndex' % w, 'u' + w) for w in ('64', '128')]
strc = lambda s: z3.Const('str:"%s"' % s, STR)


def tokseq(t):
    return Seq(TN(t), lambda i: TAT(t, i))


def tok_of(cx, st, v):
    """The token list a sequence or an iterator stands for."""
    v = cx.deref(st, v)
    if is_scalar(v) and v.sort() == TOK:
        return v
    if isinstance(v, Iter):
        im = models.items(cx, st, v, order=True)
        if not z3.is_true(im.guard):
            raise Unsupported('tokens of a filtered list')
        v = Seq(im.n, im.at)
    if isinstance(v, Seq):
        g = gensym('g', I)
        e = cx.deref(st, v.at(g))
        if is_scalar(e):
            e = simp(e)
            n = simp(v.n)
            if z3.is_app(e) and e.decl().eq(TAT) and e.arg(1).eq(g) and z3.is_app(n) and n.decl().eq(TN) and n.arg(0).eq(e.arg(0)):
                return e.arg(0)
            if e.sort() == STR:
                # made in another way: the token list with this content
                t = cx.func(st, 'made', [], TOK)()
                i = gensym('i', I)
                d = [decl_name(t)]
                cx.axiom(st, TN(t) == v.n, [], None, d)
                cx.axiom(st, Implies(And(i >= 0, i < v.n), TAT(t, i) == z3.substitute(e, (g, i))), [i], [[TAT(t, i)]], d)
                return t
    raise Unsupported('tokens made by other means')


def seq_of(cx, st, v):
    v = cx.deref(st, v)
    if not isinstance(v, Seq):
        raise Unsupported('not a list')
    return v


def c_sign(cx, st, args):
    return Spec(result=MK(cx.deref(st, args[0]), tok_of(cx, st, args[1])))


def c_bulk_sign(cx, st, args):
    h, v = cx.deref(st, args[0]), seq_of(cx, st, args[1])
    return Spec(result=Seq(v.n, memo(lambda i: MK(h, tok_of(cx, st, v.at(i))))))


def c_insert(cx, st, args):
    p, x, s = args[0], cx.deref(st, args[1]), cx.deref(st, args[2])
    c = cx.deref(st, p)
    return Spec(panics=LEN(s) != CNH(c), writes=[(p, INS(c, x, s))])


def c_remove(cx, st, args):
    p, x = args[0], cx.deref(st, args[1])
    return Spec(writes=[(p, REM(cx.deref(st, p), x))])


def c_bulk_insert(cx, st, args):
    """Insertion in turn. The result is compared with what the method's contract asks for by induction over the pairs."""
    p, ids, sigs = args[0], seq_of(cx, st, args[1]), seq_of(cx, st, args[2])
    c = cx.deref(st, p)
    if cx.params:
        raise Unsupported('bulk insertion in a loop')
    F = cx.func(st, 'inserted', [I], CORE)
    k = gensym('k', I)
    d = [F.decl.name()]
    cx.axiom(st, F(iv(0)) == c, [], [[F(iv(0))]], d)
    cx.axiom(st, Implies(And(k >= 0, k < ids.n), F(k + 1) == INS(F(k), ids.at(k), sigs.at(k))), [k], [[F(k + 1)]], d)
    cx.axiom(st, Implies(And(k >= 0, k <= ids.n), CNH(F(k)) == CNH(c)), [k], [[CNH(F(k))]], d)
    j = gensym('j', I)
    if cx.want is not None:
        G = cx.want
        cx.oblige(st, 'bulk insertion starts from the index as it is', F(iv(0)) == G(iv(0)), 'post')
        cx.oblige(st, 'bulk insertion inserts the same pair at the same position', F(j + 1) == G(j + 1), 'post', [j >= 0, j < ids.n, F(j) == G(j)])
        st.fact(z3.ForAll([k], Implies(And(k >= 0, k <= ids.n), F(k) == G(k)), patterns=[F(k)]))
    return Spec(requires=[('as many ids as signatures', ids.n == sigs.n)],
                may_panic=z3.Exists([k], And(k >= 0, k < ids.n, LEN(sigs.at(k)) != CNH(c))), writes=[(p, F(ids.n))])


def set_of(c, s):
    return SetV(lambda y: QM(c, s, y))


def c_query(cx, st, args):
    c, s = cx.deref(st, args[0]), cx.deref(st, args[1])
    return Spec(panics=LEN(s) != CNH(c), result=set_of(c, s))


def c_scored(cx, st, args):
    c, s = cx.deref(st, args[0]), cx.deref(st, args[1])
    return Spec(panics=LEN(s) != CNH(c), result=QS(c, s))


def c_bulk(one):
    def spec(cx, st, args):
        c, v = cx.deref(st, args[0]), seq_of(cx, st, args[1])
        k = gensym('k', I)
        return Spec(may_panic=z3.Exists([k], And(k >= 0, k < v.n, LEN(v.at(k)) != CNH(c))), result=Seq(v.n, memo(lambda i: one(c, v.at(i)))))
    return spec


def c_shingle(cx, st, args):
    return Spec(result=CHARS(cx.deref(st, args[0]), args[1], args[1]))


def c_shingles(cx, st, args):
    return Spec(result=CHARS(cx.deref(st, args[0]), args[1], args[2]))


def c_split(cx, st, args):
    t = WORDS(cx.deref(st, args[0]))
    return Spec(result=Iter(('seq', TN(t), memo(lambda i: TAT(t, i)))))


def c_gram(cx, st, args):
    v = cx.deref(st, args[0])
    if is_scalar(v) and v.sort() == STR:
        return c_shingle(cx, st, args)
    return Spec(result=GRAMS(tok_of(cx, st, v), args[1], args[1]))


def c_grams(cx, st, args):
    v = cx.deref(st, args[0])
    if is_scalar(v) and v.sort() == STR:
        return c_shingles(cx, st, args)
    return Spec(result=GRAMS(tok_of(cx, st, v), args[1], args[2]))


def c_index(cx, st, args):
    b, r, thr = args
    return Spec(requires=[('bands and rows are positive', And(b >= 1, r >= 1))], result=NEWI(b, r, thr))


CT = {
    'whitespace_split': c_split, 'shingle_text': c_shingle, 'shingle_text_range': c_shingles, 'Shingles::new': c_gram, 'MultiShingles::new': c_grams,
    'MinHashIndex::new': c_index, 'MinHashIndex::new_index': c_index, 'MinHashIndex::insert': c_insert, 'MinHashIndex::remove': c_remove,
    'MinHashIndex::par_bulk_insert': c_bulk_insert, 'MinHashIndex::query': c_query, 'MinHashIndex::query_owned': c_query,
    'MinHashIndex::query_owned_return_similarity': c_scored, 'MinHashIndex::par_bulk_query': c_bulk(set_of),
    'MinHashIndex::par_bulk_query_return_similarity': c_bulk(QS), 'MinHashIndex::size': lambda cx, st, a: Spec(result=SIZE(cx.deref(st, a[0]))),
    'calculate_minhash_params': lambda cx, st, a: Spec(result=Tup([BANDS(a[0], a[1]), ROWS(a[0], a[1])], '')),
    'SimHashIndex::new': lambda cx, st, a: Spec(result=NEWS(a[0], a[1])), 'SimHashIndex::insert': c_insert,
    'SimHashIndex::par_bulk_insert': c_bulk_insert, 'SimHashIndex::query': c_query, 'SimHashIndex::query_owned': c_query,
    'SimHashIndex::query_return_distance': c_scored, 'SimHashIndex::par_bulk_query': c_bulk(set_of),
    'SimHashIndex::par_bulk_query_return_distance': c_bulk(QS), 'SimHashIndex::size': lambda cx, st, a: Spec(result=SIZE(cx.deref(st, a[0]))),
    'SimHash::new': lambda cx, st, a: Spec(result=cx.deref(st, a[0])), 'SimHash::create_signature': c_sign,
}
for _, _, h in CLASSES:
    CT['%s::new' % h] = lambda cx, st, a: Spec(result=NEWH(a[0]))
    CT['<%s as MinHasher>::create_signature' % h] = c_sign
    CT['<%s as MinHasher>::bulk_create_signature' % h] = c_bulk_sign
for h in ('SimSipHasher64', 'SimSipHasher128'):
    CT['%s::new' % h] = lambda cx, st, a: Spec(result=NEWSH(a[0], a[1]))


def strings(cx, fr, st, c, own, m, args, atys):
    if m == 'to_lowercase' and args:
        return models.one(st, LOWER(cx.deref(st, args[0])))
    if m in ('as_str', 'to_string', 'to_owned', 'into', 'from', 'clone', 'as_ref', 'borrow', 'deref', 'as_slice', 'iter', 'into_iter', 'collect', 'to_vec') and args:
        v = cx.deref(st, args[0])
        if is_scalar(v) and v.sort() in (STR, TOK, SIG, RES):
            return models.one(st, v)
    if own == 'PyErr' and m == 'new' or m == 'new_err':
        return models.one(st, cx.fresh(st, 'err', usort('Error')))
    return None


def setup(sig, sim):
    def go():
        o = {'MinHashIndex': sh_u('Core'), 'SimHashIndex': sh_u('Core'), 'SimHash': sh_u('Hsh'), 'SimSipHasher64': sh_u('Hsh'),
             'SimSipHasher128': sh_u('Hsh'), 'Shingles': sh_u('Tok'), 'MultiShingles': sh_u('Tok'), 'PyErr': sh_u('Error')}
        o.update({h: sh_u('Hsh') for _, _, h in CLASSES})
        cx = new_ctx(o, {n: Contract(n, f) for n, f in CT.items()}, package='pygaoya')
        cx.tenv.whole[sig] = sh_u('Sig')
        cx.tenv.whole['Vec<(i64, %s)>' % ('usize' if sim else 'f64')] = sh_u('Res')
        cx.extra_models.append(strings)
        cx.want = None
        h, t, c, x, s, thr = gensym('h', HSH), gensym('t', TOK), gensym('c', CORE), gensym('x', I), gensym('s', SIG), gensym('thr', R)
        b, r = gensym('b', I), gensym('r', I)
        ax = lambda vs, f, p: cx.axioms.append((z3.ForAll(vs, f, patterns=[p]), frozenset([p.decl().name()])))
        # SimHash signatures have a fixed width: length 0 throughout
        ax([h, t], LEN(MK(h, t)) == NH(h), MK(h, t))
        ax([c, x, s], CNH(INS(c, x, s)) == CNH(c), INS(c, x, s))
        ax([c, x], CNH(REM(c, x)) == CNH(c), REM(c, x))
        ax([t], And(TN(t) >= 0, TN(t) < 2**63), TN(t))
        ax([b, r, thr], CNH(NEWI(b, r, thr)) == b * r, NEWI(b, r, thr))
        ax([x], NH(NEWH(x)) == x, NEWH(x))
        ax([b, r], CNH(NEWS(b, r)) == 0, NEWS(b, r))
        ax([b, r], NH(NEWSH(b, r)) == 0, NEWSH(b, r))
        ax([thr, x], Implies(x >= 1, And(BANDS(thr, x) >= 1, ROWS(thr, x) >= 1, BANDS(thr, x) * ROWS(thr, x) <= x)), BANDS(thr, x))
        t2, df = gensym('t', TOK), z3.Function('tok_diff', TOK, TOK, I)
        cx.axioms.append((z3.ForAll([t, t2], Or(t == t2, TN(t) != TN(t2), And(df(t, t2) >= 0, df(t, t2) < TN(t), TAT(t, df(t, t2)) != TAT(t2, df(t, t2)))),
                                    patterns=[z3.MultiPattern(TN(t), TN(t2))]), frozenset([TN.name()])))
        cx.axioms.append((strc('char') != strc('word'), frozenset([strc('char').decl().name()])))
        return cx
    return go


class Self:
    """The fields of a class."""

    def __init__(self, cx, cls, v):
        sh = cx.shape(mir.parse_type(cls))
        self.cx, self.v = cx, v
        at = lambda nm: v.f[field_index(sh, nm)]
        self.inner, self.tok, self.low = at('inner'), at('tokenizer'), at('lowercase')
        self.h = at('sim_hash' if cls.startswith('Sim') else 'min_hash')

    def tokens(self, doc):
        """The tokens of a document: the analyzer's, of the document as given or in lower case."""
        a = self.tok
        fr = lambda n: a.alts[n][0].f[0]
        op = lambda n: a.alts[n][0].f[1]
        to = lambda n: If(op(n).tag == 1, op(n).alts[1][0], fr(n))
        return If(a.tag == 0, CHARS(doc, fr(0), to(0)), If(a.tag == 1, WORDS(doc), GRAMS(WORDS(doc), fr(2), to(2))))

    def sig(self, doc):
        return MK(self.h, self.tokens(If(self.low, LOWER(doc), doc)))

    def inv(self):
        return [NH(self.h) == CNH(self.inner)] + [And(self.tok.tag >= 0, self.tok.tag <= 2)]


def same_enum(a, b):
    return And(a.tag == b.tag, *[Implies(a.tag == n, And(a.alts[n][0].f[0] == b.alts[n][0].f[0], a.alts[n][0].f[1].tag == b.alts[n][0].f[1].tag,
                                                         Implies(a.alts[n][0].f[1].tag == 1, a.alts[n][0].f[1].alts[1][0] == b.alts[n][0].f[1].alts[1][0])))
                                 for n in (0, 2)])


def arg(cx, st, ty, nm):
    """Symbolic argument; a list of token lists and a token list are made of token values."""
    if nm == 'tokens' and repr(ty) == 'Vec<&str>':
        return tokseq(cx.fresh(st, 'tokens', TOK))
    if nm == 'tokens' and repr(ty) == 'Vec<Vec<&str>>':
        n, f = cx.fresh(st, 'num', I), cx.func(st, 'toks', [I], TOK)
        st.fact(And(n >= 0, n < 2**63))
        return Seq(n, memo(lambda i: tokseq(f(i))))
    return arg_value(cx, st, ty, nm)


class Call:
    """One method under contract."""

    def __init__(self, cx, cls, m, names, contract=False):
        self.cx, self.cls, self.m = cx, cls, m
        cx.contracts.pop('%s::%s' % (cls, m), None)
        self.r = r = Run.__new__(Run)
        r.cx, r.st, r.sub, r.name = cx, St(), {}, '%s::%s' % (cls, m)
        r.fn = find(cx, r.name)
        r.args = [arg(cx, r.st, ty, nm) for (_, ty), nm in zip(r.fn.args, ['self'] + names)]
        v = r.st.roots['self'] if isinstance(r.args[0], Ptr) else r.args[0]
        self.A = Self(cx, cls, v)
        for f in self.A.inv():
            r.st.fact(f)
        self.args = r.args[1:]
        self.st = r.st

    def outs(self):
        for s, v in self.r.body():
            C = None
            if isinstance(self.r.args[0], Ptr):
                C = Self(self.cx, self.cls, s.roots['self'])
                A = self.A
                self.cx.oblige(s, 'hasher, analyzer and case setting are kept', And(C.h == A.h, C.low == A.low, same_enum(C.tok, A.tok)), 'post')
                self.cx.oblige(s, 'signatures keep the length the index expects', NH(C.h) == CNH(C.inner), 'invariant')
            yield s, v, C


def t_tokenize(cls, fname):
    def run(cx):
        k = Call(cx, cls, fname, ['doc'])
        for s, v, _ in k.outs():
            cx.oblige(s, 'the signature is that of the tokens the analyzer describes', v == MK(k.A.h, k.A.tokens(k.args[0])), 'post')
    return run


def t_insert(cls, tokens):
    def run(cx):
        k = Call(cx, cls, 'insert_tokens' if tokens else 'insert_document', ['id', 'tokens' if tokens else 'doc'])
        for s, v, C in k.outs():
            want = MK(k.A.h, tok_of(cx, s, k.args[1])) if tokens else k.A.sig(k.args[1])
            cx.oblige(s, 'the core index gets the id with the signature of the document', C.inner == INS(k.A.inner, k.args[0], want), 'post')
    return run


def t_remove(cls):
    def run(cx):
        k = Call(cx, cls, 'remove', ['id'])
        for s, v, C in k.outs():
            cx.oblige(s, 'the id is removed from the core index', C.inner == REM(k.A.inner, k.args[0]), 'post')
    return run


def t_size(cls):
    def run(cx):
        k = Call(cx, cls, 'size', [])
        for s, v, C in k.outs():
            cx.oblige(s, 'the size of the core index', v == SIZE(k.A.inner), 'post')
    return run


def sig_at(cx, k, tokens, st):
    if tokens:
        return lambda v, i: MK(k.A.h, tok_of(cx, st, v.at(i)))
    return lambda v, i: k.A.sig(v.at(i))


def t_bulk_insert(cls, m, tokens):
    def run(cx):
        k = Call(cx, cls, m, ['ids', 'tokens' if tokens else 'docs'])
        ids, docs = k.args
        k.st.fact(ids.n == docs.n)
        sg = sig_at(cx, k, tokens, k.st)
        G = cx.func(k.st, 'in_turn', [I], CORE)
        t = gensym('t', I)
        d = [G.decl.name()]
        cx.axiom(k.st, G(iv(0)) == k.A.inner, [], [[G(iv(0))]], d)
        cx.axiom(k.st, Implies(And(t >= 0, t < ids.n), G(t + 1) == INS(G(t), ids.at(t), sg(docs, t))), [t], [[G(t + 1)]], d)
        cx.want = G

        def give(cx, st0, item):
            def at(s, kk):
                C = Self(cx, cls, s.roots['self'])
                A = k.A
                return [('the index holds the first documents', [], C.inner == G(kk), None),
                        ('lengths', [], CNH(C.inner) == NH(C.h), None)]
            return at
        cx.loop_inv = give
        for s, v, C in k.outs():
            cx.oblige(s, 'as if the documents were inserted one by one, in order', C.inner == G(ids.n), 'post')
    return run


def lists(cx, s, v, c, sg, hy=()):
    """v lists the answer of the core index, every id once."""
    j, j2, x = gensym('j', I), gensym('j', I), gensym('x', I)
    rng = And(j >= 0, j < v.n)
    cx.oblige(s, 'only ids the core index returns', QM(c, sg, v.at(j)), 'post', list(hy) + [rng])
    cx.oblige(s, 'every id the core index returns', z3.Exists([j], And(rng, v.at(j) == x)), 'post', list(hy) + [QM(c, sg, x)] + cx.models.hints(cx, x, ()))
    cx.oblige(s, 'no id twice', v.at(j) != v.at(j2), 'post', list(hy) + [rng, j2 >= 0, j2 < v.n, j != j2])


def t_query(cls, m, tokens, scored, bulk):
    def run(cx):
        k = Call(cx, cls, m, ['tokens' if tokens else ('docs' if bulk else 'doc')])
        q = k.args[0]
        for s, v, _ in k.outs():
            if bulk:
                i = gensym('i', I)
                hy = [i >= 0, i < q.n]
                sg = sig_at(cx, k, tokens, s)(q, i)
                cx.oblige(s, 'one answer for every document', v.n == q.n, 'post')
                w = v.at(i)
            else:
                hy = []
                sg = MK(k.A.h, tok_of(cx, s, q)) if tokens else k.A.sig(q)
                w = v
            if scored:
                cx.oblige(s, 'the scored answer of the core index', w == QS(k.A.inner, sg), 'post', hy)
            else:
                lists(cx, s, w, k.A.inner, sg, hy)
    return run


def t_new(cls, sim):
    def run(cx):
        names = ['blocks', 'distance'] if sim else ['thr', 'bands', 'rows', 'hashes']
        r = Run(cx, cls + '::new', names + ['analyzer', 'lowercase', 'ngrams'])
        an, low, ng = r.args[len(names):]
        some = lambda o: o.tag == 1
        val = lambda o: o.alts[1][0]
        if sim:
            ok, inner = TRUE, NEWS(r.args[0], r.args[1])
        else:
            thr, b, w, n = r.args[:4]
            both = And(some(b), some(w))
            ok = Or(both, some(n))
            r.st.fact(Implies(both, And(val(b) >= 1, val(w) >= 1, val(b) * val(w) < 2**63)))
            r.st.fact(Implies(some(n), And(val(n) >= 1, val(n) < 2**63)))
            inner = If(both, NEWI(val(b), val(w), thr), NEWI(BANDS(thr, val(n)), ROWS(thr, val(n)), thr))
        for s, v in r.body():
            cx.oblige(s, 'an index exactly when enough parameters are given', (v.tag == 0) == ok, 'post')
            if not v.alts.get(0):
                continue
            C = Self(cx, cls, v.alts[0][0])
            hy = [v.tag == 0]
            cx.oblige(s, 'the core index has the parameters given', C.inner == inner, 'post', hy)
            cx.oblige(s, 'signatures have the length the index expects', NH(C.h) == CNH(C.inner), 'invariant', hy)
            cx.oblige(s, 'lower case when asked', C.low == And(some(low), val(low)), 'post', hy)
            d = gensym('doc', STR)
            char = And(some(an), val(an) == strc('char'))
            f, t = val(ng).f
            cx.oblige(s, 'the analyzer given: characters or words', (C.tok.tag == 0) == char, 'post', hy)
            cx.oblige(s, 'n-grams of all the lengths given', C.tokens(d) == If(char, CHARS(d, f, t), GRAMS(WORDS(d), f, t)), 'post', hy + [some(ng)])
            cx.oblige(s, 'words without n-gram lengths', C.tokens(d) == WORDS(d), 'post', hy + [Not(some(ng)), Not(char)])
    return run


JOBS = []


def add(cls, m, run, sig, sim, **kw):
    JOBS.append(JOB('%s::%s' % (cls, m), run, PP, setup(sig, sim), package='pygaoya'))


def methods(cls, sig, sim):
    sc = 'distance' if sim else 'similarity'
    add(cls, 'new', t_new(cls, sim), sig, sim)
    add(cls, 'tokenize_and_simhash' if sim else 'tokenize_and_minhash', t_tokenize(cls, 'tokenize_and_simhash' if sim else 'tokenize_and_minhash'), sig, sim)
    add(cls, 'insert_document', t_insert(cls, False), sig, sim)
    add(cls, 'insert_tokens', t_insert(cls, True), sig, sim)
    add(cls, 'par_bulk_insert_docs', t_bulk_insert(cls, 'par_bulk_insert_docs', False), sig, sim)
    add(cls, 'par_bulk_insert_tokens', t_bulk_insert(cls, 'par_bulk_insert_tokens', True), sig, sim)
    for m, t, s, b in (('query', 0, 0, 0), ('query_tokens', 1, 0, 0), ('query_return_' + sc, 0, 1, 0), ('query_tokens_return_' + sc, 1, 1, 0),
                       ('par_bulk_query', 0, 0, 1), ('par_bulk_query_tokens', 1, 0, 1), ('par_bulk_query_return_' + sc, 0, 1, 1),
                       ('par_bulk_query_tokens_return_similarity', 1, 1, 1)):
        add(cls, m, t_query(cls, m, t, s, b), sig, sim)
    if not sim:
        add(cls, 'bulk_insert_tokens', t_bulk_insert(cls, 'bulk_insert_tokens', True), sig, sim)
        add(cls, 'remove', t_remove(cls), sig, sim)
        add(cls, 'size', t_size(cls), sig, sim)


for cls, sig, _ in CLASSES:
    methods(cls, sig, False)
for cls, sig in SIMS:
    methods(cls, sig, True)
