"""The string index (P19). The MinHash index inside is seen as a map from id to signature, through the contracts that
P01, P02, P04 and P05 prove of it; signatures are values of their own, made from the token set of a text (P08)."""
from common import *
import models

SIG, TOK, HSH, STR, RDR = usort('Sig'), usort('Tok'), usort('Hsh'), usort('Str'), usort('Rdr')
U64 = sh_int(0, 2**64 - 1)
LEN = z3.Function('siglen', SIG, I)
NH = z3.Function('num_hashes', HSH, I)
TOKS = z3.Function('tokens', STR, TOK)             # the token set of a text
MK = z3.Function('signature', HSH, TOK, SIG)       # P08: a function of hasher and token set
SIMV = z3.Function('simv', SIG, SIG, R)            # fraction of equal positions
ANS = z3.Function('answer', I, I, B)
IDX = Sh('tup', fields=[Sh('map', key=U64, ksort=I, val=sh_u('Sig')), sh_int(0, 2**63 - 1), Sh('scalar', sort=R, rng=None)],
         names=['sigs', 'num_hashes', 'threshold'], name='MinHashIndex')
PP = P('P19')


def c_split(cx, st, args):
    return Spec(result=TOKS(cx.deref(st, args[0])))


def c_sign(cx, st, args):
    return Spec(result=MK(cx.deref(st, args[0]), cx.deref(st, args[1])))


def c_hasher(cx, st, args):
    h = cx.fresh(st, 'hasher', HSH)
    cx.axiom(st, NH(h) == args[0], defs=[decl(h)])
    return Spec(result=h)


def decl(e):
    return e.decl().name()


def c_index(cx, st, args):
    b, r, thr = args
    return Spec(requires=[('bands and rows are positive', And(b >= 1, r >= 1))],
                result=Tup([MapV(lambda x: FALSE, lambda x: z3.Const('nosig', SIG)), b * r, thr], 'MinHashIndex'))


def c_insert(cx, st, args):
    p, x, s = args[0], cx.deref(st, args[1]), cx.deref(st, args[2])
    m, nh, thr = cx.deref(st, p).f
    new = MapV(lambda y: Or(y == x, m.has(y)), lambda y: If(y == x, s, m.get(y)), m.kty)
    return Spec(panics=LEN(s) != nh, writes=[(Ptr(p.root, list(p.path) + [('f', 0)]), new)])


def c_bulk(cx, st, args):
    """Inserting the pairs one after another (P05): the last binding of an id counts."""
    p, items = args[0], cx.deref(st, args[1])
    m, nh, thr = cx.deref(st, p).f
    j, j2 = gensym('j', I), gensym('j', I)
    idf, sgf = (lambda t: items.at(t).f[0]), (lambda t: items.at(t).f[1])
    rng = lambda t: And(t >= 0, t < items.n)
    listed = lambda y: z3.Exists([j], And(rng(j), idf(j) == y))
    hf, gf = cx.func(st, 'bulkhas', [I], B), cx.func(st, 'bulksig', [I], SIG)
    y = gensym('y', I)
    d = [hf.decl.name(), gf.decl.name()]
    cx.axiom(st, hf(y) == Or(m.has(y), listed(y)), [y], [[hf(y)]], d)
    cx.axiom(st, Implies(And(rng(j), z3.ForAll([j2], Implies(And(j2 > j, j2 < items.n), idf(j2) != idf(j)))), gf(idf(j)) == sgf(j)), [j], None, d)
    cx.axiom(st, Implies(Not(listed(y)), gf(y) == m.get(y)), [y], [[gf(y)]], d)
    return Spec(panics=z3.Exists([j], And(rng(j), LEN(sgf(j)) != nh)),
                writes=[(Ptr(p.root, list(p.path) + [('f', 0)]), MapV(lambda x: hf(x), lambda x: gf(x), m.kty))])


def c_query(cx, st, args):
    """P01 and P02: stored ids at or above the threshold; among them those whose signature agrees with the query throughout."""
    m, nh, thr = cx.deref(st, args[0]).f
    q = cx.deref(st, args[1])
    mem = cx.func(st, 'found', [I], B)
    x = gensym('x', I)
    d = [mem.decl.name()]
    cx.axiom(st, Implies(mem(x), And(m.has(x), SIMV(m.get(x), q) >= thr)), [x], [[mem(x)]], d)
    cx.axiom(st, Implies(And(m.has(x), m.get(x) == q, thr <= 1), mem(x)), [x], [[m.has(x)]], d)
    return Spec(panics=LEN(q) != nh, result=SetV(lambda y: mem(y)))


CT = {n: Contract(n, f) for n, f in {
    'whitespace_split': c_split, '<MinHasher64V1 as MinHasher>::create_signature': c_sign, 'MinHasher64V1::new': c_hasher,
    'MinHashIndex::new': c_index, 'MinHashIndex::insert': c_insert, 'MinHashIndex::par_bulk_insert_pairs': c_bulk,
    'MinHashIndex::query': c_query}.items()}


NL = z3.Function('num_lines', RDR, I)
LOK = z3.Function('line_ok', RDR, I, B)
LINE = z3.Function('line', RDR, I, STR)
ERR = z3.Function('line_err', RDR, I, usort('Error'))


def io(cx, fr, st, c, own, m, args, atys):
    """Readers: a finite list of lines, each readable or not."""
    if own in ('String', 'str', 'ToString', 'ToOwned', 'Into', 'From') and m in ('as_str', 'to_string', 'to_owned', 'into', 'from', 'clone') and args:
        v = cx.deref(st, args[0])
        if is_scalar(v) and v.sort() == STR:
            return models.one(st, v)
    if m == 'lines' and args:
        r = cx.deref(st, args[0])
        return models.one(st, Iter(('seq', NL(r), memo(lambda i: Enum(If(LOK(r, i), iv(0), iv(1)), {0: [LINE(r, i)], 1: [ERR(r, i)]}, 'Result')))))
    if own == 'File' and m == 'open':
        ok, f = cx.fresh(st, 'opens', B), cx.fresh(st, 'file', RDR)
        cx.opened = ok, f
        return models.one(st, Enum(If(ok, iv(0), iv(1)), {0: [f], 1: [cx.fresh(st, 'err', usort('Error'))]}, 'Result'))
    if own == 'BufReader' and m == 'new':
        return models.one(st, cx.deref(st, args[0]))
    return None


def setup():
    cx = new_ctx({'MinHashIndex': IDX, 'MinHasher64V1': sh_u('Hsh'), 'BufReader': sh_u('Rdr'), 'File': sh_u('Rdr'), 'Error': sh_u('Error')}, dict(CT))
    cx.extra_models.append(io)
    h, t, s, r, i = gensym('h', HSH), gensym('t', TOK), gensym('s', SIG), gensym('r', RDR), gensym('i', I)
    cx.axioms.append((z3.ForAll([h, t], LEN(MK(h, t)) == NH(h), patterns=[MK(h, t)]), frozenset([MK.name()])))
    cx.axioms.append((z3.ForAll([r], And(NL(r) >= 0, NL(r) < 2**63), patterns=[NL(r)]), frozenset([NL.name()])))
    return cx


class Doc:
    def __init__(self, cx, v):
        sh = cx.shape(find(cx, 'MinHashStringIndex::new').ret)
        at = lambda nm: v.f[field_index(sh, nm)]
        self.ix, self.h, self.docs, self.id = at('lsh_index'), at('min_hash'), at('doc_map'), at('doc_id')
        self.has, self.sig = self.ix.f[0].has, self.ix.f[0].get
        self.nh, self.thr = self.ix.f[1], self.ix.f[2]
        self.dhas = self.docs.has
        self.text = lambda x: z3.Const('notext', STR) if isinstance(self.docs.get(x), Undef) else self.docs.get(x)

    def inv(self):
        x = gensym('x', I)
        live = And(x >= 1, x <= self.id)
        return [('the ids given out are exactly those with a document', [x], self.dhas(x) == live, [[self.dhas(x)]]),
                ('the documents are exactly those indexed', [x], self.has(x) == live, [[self.has(x)]]),
                ('a document is indexed under the signature of its text', [x], Implies(live, self.sig(x) == MK(self.h, TOKS(self.text(x)))),
                 [[self.sig(x)], [self.text(x)]]),
                ('signatures have the length the index expects', [], self.nh == NH(self.h), None),
                ('counter', [], self.id >= 0, None)]

    def assume(self, st):
        for nm, vs, f, pats in self.inv():
            ps = [z3.MultiPattern(*q) if len(q) > 1 else q[0] for q in pats or ()]
            st.fact(ForAll(vs, f, ps or None) if vs else f)


def pre(cx, r):
    v = r.st.roots['self'] if isinstance(r.args[0], Ptr) else r.args[0]
    d = Doc(cx, v)
    d.assume(r.st)
    return d


def hint(*es):
    return z3.And(*[z3.Function('hint_%s' % e.sort(), e.sort(), B)(e) for e in es])


def keep(cx, s, A, C, hints=lambda x: []):
    """Nothing about earlier documents changes."""
    x = gensym('x', I)
    for nm, vs, f, _ in C.inv():
        cx.oblige(s, 'invariant: ' + nm, simp(f), 'invariant', hints(vs[0]) if vs else [])
    cx.oblige(s, 'earlier documents keep id, text and signature', And(C.dhas(x), C.text(x) == A.text(x), C.sig(x) == A.sig(x)), 'post',
              [A.dhas(x), C.has(x) == C.has(x)])
    cx.oblige(s, 'hasher and threshold are kept', And(C.h == A.h, C.thr == A.thr), 'post')


def j_new(cx):
    r = Run(cx, 'MinHashStringIndex::new', ['b', 'r', 'thr'])
    b, w, thr = r.args
    r.st.fact(And(b >= 1, w >= 1, b * w < 2**63))
    for s, v in r.body():
        C = Doc(cx, v)
        for nm, vs, f, _ in C.inv():
            cx.oblige(s, 'invariant: ' + nm, simp(f), 'invariant')
        cx.oblige(s, 'no document yet', C.id == 0, 'post')
        cx.oblige(s, 'the threshold is the given one', C.thr == thr, 'post')


def j_insert(cx):
    r = Run(cx, 'MinHashStringIndex::insert', ['self', 'text'])
    A = pre(cx, r)
    r.st.fact(A.id < 2**64 - 1)
    for s, v in r.body():
        C = Doc(cx, s.roots['self'])
        keep(cx, s, A, C)
        cx.oblige(s, 'the document gets the next id', And(C.id == A.id + 1, Not(A.dhas(C.id))), 'post')
        cx.oblige(s, 'the document is kept under its id', And(C.dhas(A.id + 1), C.text(A.id + 1) == r.args[1]), 'post')


def j_query(cx):
    r = Run(cx, 'MinHashStringIndex::query', ['self', 'text'])
    A = pre(cx, r)
    q = r.args[1]
    sq = MK(A.h, TOKS(q))
    for s, v in r.body():
        j, x = gensym('j', I), gensym('x', I)
        rng = And(j >= 0, j < v.n)
        cx.oblige(s, 'only inserted documents that reach the threshold',
                  z3.Exists([x], And(A.dhas(x), A.text(x) == v.at(j), SIMV(A.sig(x), sq) >= A.thr)), 'post', [rng])
        cx.oblige(s, 'every inserted document with the same token set', z3.Exists([j], And(rng, v.at(j) == A.text(x))), 'post',
                  [A.dhas(x), TOKS(A.text(x)) == TOKS(q), A.thr <= 1] + cx.models.hints(cx, x, ()))


def loaded(cx, s, A, C, rd, all_ok=False):
    """The readable lines, in order, each under the next id."""
    j = gensym('j', I)
    if all_ok:
        S = sel = lambda t: t
    else:
        S, sel = cx.models.spec_fold(cx, s, j, LOK(rd, j), NL(rd))
    x, t = gensym('x', I), gensym('t', I)

    def line_of(x, t):
        """The line a new document comes from."""
        return Implies(And(x > A.id, x <= C.id), And(t >= 0, t < NL(rd), LOK(rd, t), S(t) == x - A.id - 1))
    cx.oblige(s, 'a new document comes from a line', line_of(x, t), 'post', [t == sel(x - A.id - 1)])
    keep(cx, s, A, C, lambda x: [line_of(x, t), t == sel(x - A.id - 1)])
    cx.oblige(s, 'as many documents are added as lines can be read', C.id == A.id + S(NL(rd)), 'post')
    cx.oblige(s, 'a line is kept as a document of its own', And(C.dhas(A.id + 1 + S(j)), C.text(A.id + 1 + S(j)) == LINE(rd, j)), 'post',
              [j >= 0, j < NL(rd), LOK(rd, j)])
    return S


def j_lines(cx):
    r = Run(cx, 'MinHashStringIndex::load_from_lines', ['self', 'reader'])
    A = pre(cx, r)
    rd = r.st.roots['reader']
    r.st.fact(A.id + NL(rd) < 2**64)
    for s, v in r.body():
        C = Doc(cx, s.roots['self'])
        loaded(cx, s, A, C, rd)


def j_size(cx):
    r = Run(cx, 'MinHashStringIndex::size', ['self'])
    A = pre(cx, r)
    for s, v in r.body():
        cx.oblige(s, 'the size is the number of ids given out', v == A.id, 'post')


def j_file(key, parallel):
    def run(cx):
        r = Run(cx, key, ['self', 'name'])
        A = pre(cx, r)
        cx.opened = None
        rd, i = gensym('r', RDR), gensym('i', I)
        r.st.fact(z3.ForAll([rd], A.id + NL(rd) < 2**64, patterns=[NL(rd)]))
        if parallel:
            # stated in DESIGN: the parallel form stops the program at an unreadable line
            r.st.fact(z3.ForAll([rd, i], Implies(And(i >= 0, i < NL(rd)), LOK(rd, i)), patterns=[LOK(rd, i)]))
        for s, v in r.body():
            if cx.opened is None:
                raise Unsupported('no file is opened')
            ok, f = cx.opened
            C = Doc(cx, s.roots['self'])
            cx.oblige(s, 'an error exactly when the file cannot be opened', (v.tag == 0) == ok, 'post')
            x = gensym('x', I)
            cx.oblige(s, 'nothing changes without the file', And(C.id == A.id, C.dhas(x) == A.dhas(x), C.has(x) == A.has(x)), 'post', [Not(ok)])
            if cx.feasible(s, ok):
                t = s.copy()
                t.fact(ok)
                S = loaded(cx, t, A, C, f, parallel)
                cx.oblige(t, 'the number of documents added is returned', v.alts[0][0] == S(NL(f)), 'post')
    return run


JOBS = [JOB('MinHashStringIndex::load_from_file', j_file('MinHashStringIndex::load_from_file', False), PP, setup),
        JOB('MinHashStringIndex::load_from_file_parallel', j_file('MinHashStringIndex::load_from_file_parallel', True), PP, setup),
        JOB('MinHashStringIndex::new', j_new, PP, setup), JOB('MinHashStringIndex::insert', j_insert, PP, setup),
        JOB('MinHashStringIndex::query', j_query, PP, setup), JOB('MinHashStringIndex::load_from_lines', j_lines, PP, setup),
        JOB('MinHashStringIndex::size', j_size, PP, setup)]
