"""Searches for an input on which the Python classes do not forward faithfully (P20).
Usage: py_harness.py <package dir> <seed> <ms>   |   py_harness.py <package dir> case <seed>"""
import random, re, string, sys, time

sys.path.insert(0, sys.argv[1])
import gaoya
from gaoya.gaoya import minhash as nm, simhash as ns

WORDS = ['alpha', 'beta', 'gamma', 'Delta', 'EPS', 'zeta', 'eta', 'Theta', 'iota', 'kappa', 'x', 'Y', 'omega', 'ÉTÉ', 'naïve', 'жук', 'ЖУК', '1', '22']
SPLIT = re.compile('[' + re.escape(string.punctuation) + r'\s]+')


class Bad(Exception):
    pass


def need(c, what):
    if not c:
        raise Bad(what)


def words(d):
    return [w for w in SPLIT.split(d) if w]


def grams(ws, f, t):
    return [tuple(ws[i:i + n]) for n in range(f, t + 1) for i in range(len(ws) - n + 1)]


def chars(d, f, t):
    return [d[i:i + n] for n in range(f, t + 1) for i in range(len(d) - n + 1)]


def doc(r):
    n = r.choice([1, 2, 3, 5, 8, 12]) if r.random() < 0.97 else r.choice([100, 400])
    out = r.choice(WORDS)
    for _ in range(n):
        out += r.choice([' ', ' ', ' ', ', ', '. ', '  ', '-', '\n']) + (r.choice(WORDS) if n < 50 else str(r.randrange(500)))
    return out


def family(r):
    """A document and some of its relatives."""
    d = doc(r)
    ws = words(d)
    out = [d, d.swapcase(), d.lower(), ' '.join(reversed(ws)), ' '.join(ws[:-1] or ws), ' '.join(ws + [r.choice(WORDS)])]
    return r.sample(out, r.randint(2, len(out)))


def same(a, b, what):
    need(sorted(a) == sorted(b), '%s: %r against %r' % (what, sorted(a)[:20], sorted(b)[:20]))


def pairs(l, scored, what, best):
    """Scored and plain answers agree; the best come first."""
    same([p[0] for p in scored], l, what + ', ids')
    sc = [p[1] for p in scored]
    need(sc == sorted(sc, reverse=best), what + ', order: %r' % sc[:10])


def case(seed):
    r = random.Random(seed)
    sim = r.random() < 0.4
    an = r.choice(['word', 'word', 'char'])
    ng = r.choice([None, None, (1, 1), (2, 2), (1, 2), (1, 3), (2, 3), (3, 3), (2, 4)])
    low = r.random() < 0.5
    docs = []
    size = r.choice([1, 3, 3, 6, 6, 6, 20, 99, 100, 101, 130, 300])
    while len(docs) < size:
        docs += family(r)
    docs = docs[:size]
    if r.random() < 0.2:
        docs[r.randrange(size)] = r.choice(['', ' ', '...'])
    ids = [r.choice([i, i, i * 7 - 50, -i]) for i in range(len(docs))]
    if r.random() < 0.8:
        ids = list(range(len(docs)))
        r.shuffle(ids)
    ids = [x + (1 << 40) if r.random() < 0.05 else x for x in ids]
    if len(set(ids)) != len(ids):
        ids = list(range(100, 100 + len(docs)))
    if sim:
        size = r.choice([64, 128])
        nb = r.randint(3, 8)
        hd = r.randint(0, nb - 1)
        cls = ns.SimHash64StringIntIndex if size == 64 else ns.SimHash128StringIntIndex
        make = lambda a=an, l=low, g=ng: cls(nb, hd, a, l, g)
        wrap = lambda a=an, l=low, g=ng: gaoya.simhash.SimHashStringIndex(size, nb, hd, a, l, g)
        best = False
        score1 = 0
    else:
        size, cont = r.choice([8, 16, 32, 64]), r.choice(['set', 'vec', 'smallvec'])
        cls = getattr(nm, 'MinHash%dStringIntIndex%s' % (size, {'set': 'HashSet', 'vec': 'Vec', 'smallvec': 'SmallVec'}[cont]))
        thr = r.choice([0.0, 0.3, 0.5, 0.7, 0.9, 1.0])
        if r.random() < 0.8:
            par = (r.choice([5, 20, 42, 60]), r.choice([1, 2, 3]), None)
        else:
            par = (None, None, r.choice([10, 64, 128]))
            thr = max(thr, 0.3)
            thr = min(thr, 0.9)
        make = lambda a=an, l=low, g=ng: cls(thr, par[0], par[1], par[2], a, l, g)
        wrap = lambda a=an, l=low, g=ng: gaoya.minhash.MinHashStringIndex(size, thr, par[0], par[1], par[2], a, l, g, cont)
        best = True
        score1 = 1.0
    one, blk, py = make(), make(), wrap()
    for i, d in zip(ids, docs):
        one.insert_document(i, d)
        py.insert_document(i, d)
    blk.par_bulk_insert_docs(ids, docs)
    qs = docs if len(docs) < 12 else r.sample(docs, 12) + [doc(r) for _ in range(3)]
    dist = 'query_return_distance' if sim else 'query_return_similarity'
    bdist = 'par_bulk_query_return_distance' if sim else 'par_bulk_query_return_similarity'
    tdist = 'query_tokens_return_distance' if sim else 'query_tokens_return_similarity'
    bulk, sbulk = one.par_bulk_query(qs), getattr(one, bdist)(qs)
    pbulk, psbulk = py.par_bulk_query(qs), py.par_bulk_query(qs, return_similarity=True)
    need(len(bulk) == len(sbulk) == len(pbulk) == len(psbulk) == len(qs), 'one answer for every document')
    where = dict(zip(docs, ids))
    for k, q in enumerate(qs):
        a = one.query(q)
        need(len(set(a)) == len(a), 'no id twice')
        same(a, blk.query(q), 'bulk insertion, query %r' % q)
        same(a, bulk[k], 'bulk query %r' % q)
        same(a, py.query(q), 'Python query %r' % q)
        same(a, pbulk[k], 'Python bulk query %r' % q)
        s = getattr(one, dist)(q)
        pairs(a, s, 'scored query %r' % q, best)
        for nme, o in (('bulk scored', sbulk[k]), ('Python bulk scored', psbulk[k]),
                       ('Python scored', py.query(q, return_hamming_distance=True) if sim else py.query(q, return_similarity=True)),
                       ('scored after bulk insertion', getattr(blk, dist)(q))):
            same(s, o, '%s query %r' % (nme, q))
            pairs(a, o, '%s query %r' % (nme, q), best)
        if q in where:
            long_enough = bool(words(q)) if an == 'word' else bool(q)
            if long_enough:
                need((where[q], score1) in [tuple(p) for p in s], 'a document finds itself: %r' % q)
    # the same with tokens made here
    toks = None
    lower = (lambda d: d.lower()) if low else (lambda d: d)
    if an == 'word' and ng is None:
        toks = lambda d: words(lower(d))
    elif an == 'char' and ng is not None:
        toks = lambda d: chars(lower(d), *ng)
    if toks:
        t1, t2, pc = make(), make(), wrap(a=toks)
        for i, d in zip(ids, docs):
            t1.insert_tokens(i, toks(d))
            pc.insert_document(i, d)
        t2.par_bulk_insert_tokens(ids, [toks(d) for d in docs])
        extra = []
        if not sim:
            t3, t4 = make(), wrap(a=toks)
            t3.bulk_insert_tokens(ids, [toks(d) for d in docs])
            t4.par_bulk_insert_docs(ids, docs)
            extra = [t3, t4]
        tb, tsb = t1.par_bulk_query_tokens([toks(q) for q in qs]), t1.par_bulk_query_tokens_return_similarity([toks(q) for q in qs])
        cb, csb = pc.par_bulk_query(qs), pc.par_bulk_query(qs, return_similarity=True)
        for k, q in enumerate(qs):
            a, s = one.query(q), getattr(one, dist)(q)
            for nme, x in (('tokens', t1.query_tokens(toks(q))), ('bulk tokens', t2.query_tokens(toks(q))), ('document against tokens', t1.query(q)),
                           ('bulk token query', tb[k]), ('callable', pc.query(q)), ('callable bulk query', cb[k])) + \
                    tuple(('bulk tokens', (e.query_tokens(toks(q)) if e is extra[0] else e.query(q))) for e in extra):
                same(a, x, '%s, query %r' % (nme, q))
            for nme, x in (('tokens', getattr(t1, tdist)(toks(q))), ('bulk token query', tsb[k]), ('callable bulk query', csb[k]),
                           ('callable', pc.query(q, return_hamming_distance=True) if sim else pc.query(q, return_similarity=True))):
                same(s, x, '%s, scored query %r' % (nme, q))
    # lower case is what a lower-case document gives
    if low:
        pl = make(l=False)
        for i, d in zip(ids, docs):
            pl.insert_document(i, d.lower())
        for q in qs:
            same(getattr(one, dist)(q), getattr(pl, dist)(q.lower()), 'lower case, query %r' % q)
    # n-gram ranges mean all the lengths
    if an == 'word' and ng is not None and not low:
        f, t = ng
        for d in docs[:6]:
            for e in docs[:6]:
                A, Bs = grams(words(d), f, t), grams(words(e), f, t)
                if not A or not Bs or max(len(words(d)), len(words(e))) < t:
                    continue
                if sim and sorted(A) == sorted(Bs) or not sim and set(A) == set(Bs):
                    need(any(p[0] == where[e] and p[1] == score1 for p in getattr(one, dist)(d)), 'equal n-grams of %r and %r' % (d, e))
                elif not sim and len(set(A) & set(Bs)) <= 0.6 * len(set(A) | set(Bs)) and size >= 32 and par[0] is not None and par[0] * par[1] >= 60 and \
                        any(p[0] == where[e] and p[1] == 1.0 for p in getattr(one, dist)(d)):
                    need(False, 'different n-grams of %r and %r' % (d, e))
                elif not sim and not set(A) & set(Bs) and size >= 32 and thr >= 0.3 and par[0] != None and par[0] * par[1] >= 40:
                    need(where[e] not in one.query(d), 'no common n-gram of %r and %r' % (d, e))
    if not sim:
        need(one.size() == blk.size() == py.size() == len(ids), 'size')
        gone = r.sample(range(len(ids)), max(1, r.choice([len(ids) // 3, len(ids) // 3, len(ids)])))
        left = make()
        for k, (i, d) in enumerate(zip(ids, docs)):
            if k in gone:
                one.remove(i)
                py.remove(i)
            else:
                left.insert_document(i, d)
        need(one.size() == py.size() == len(ids) - len(gone), 'size after removals')
        for q in qs:
            same(left.query_return_similarity(q), one.query_return_similarity(q), 'after removals, query %r' % q)
            same(left.query(q), py.query(q), 'after removals, Python query %r' % q)
        for k in gone:
            one.insert_document(ids[k], docs[k])
        for q in qs[:5]:
            same(blk.query(q), one.query(q), 'inserted again, query %r' % q)


def attempt(seed):
    try:
        case(seed)
    except Bad as e:
        return str(e)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return '%s: %s' % (type(e).__name__, e)
    return None


if sys.argv[2] == 'case':
    e = attempt(int(sys.argv[3]))
    if e:
        print('FAILING-INPUT property=P20 case %s: %s' % (sys.argv[3], e))
        sys.exit(1)
    sys.exit(0)
seed, end = int(sys.argv[2]), time.time() + int(sys.argv[3]) / 1000
n = 0
while time.time() < end:
    e = attempt(seed * 100000 + n)
    if e:
        print('FAILING-INPUT property=P20 case %d: %s' % (seed * 100000 + n, e))
        sys.exit(1)
    n += 1
print('cases %d' % n)
