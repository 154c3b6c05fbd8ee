"""Key types with hand-written Eq and Hash: the maps and sets of the proofs compare them by the fields that count.
Equality is equality of those fields, and hashing feeds the hasher with a function of them (so equal keys hash equally)."""
from common import *
import models

HS = usort('HasherState')


def feed(cx, fr, st, c, own, m, args, atys):
    """Feeding a hasher: the new state is a function of the old one, the method and what is fed."""
    if not (m == 'hash' or m.startswith('write')) or len(args) != 2:
        return None
    for p, v in ((args[0], args[1]), (args[1], args[0])):
        if isinstance(p, Ptr) and is_scalar(cx.deref(st, p)) and cx.deref(st, p).sort() == HS:
            x = cx.deref(st, v)
            if not is_scalar(x):
                return None
            f = z3.Function('%s_%s' % ('hash' if m == 'hash' else m, x.sort().name()), HS, x.sort(), HS)
            cx.write(st, p.root, p.path, f(cx.deref(st, p), x))
            return models.one(st, UNIT)
    return None


def setup(over):
    def go():
        cx = new_ctx(dict(over, H=sh_u('HasherState')), {}, without='clusterer_parallel')
        cx.extra_models.append(feed)
        return cx
    return go


def part(cx, fn, v, field):
    sh = cx.shape(fn.args[0][1].args[0])
    return v.f[field_index(sh, field)]


def j_eq(key, field):
    def run(cx):
        r = Run(cx, key, ['self', 'other'])
        a, b = [part(cx, r.fn, cx.deref(r.st, x), field) for x in r.args]
        for s, v in r.body():
            cx.oblige(s, 'keys are equal exactly if their %s is' % field, v == (a == b), 'post')
    return run


def j_hash(key, field):
    def run(cx):
        r = Run(cx, key, ['self', 'state'])
        a = part(cx, r.fn, cx.deref(r.st, r.args[0]), field)
        r2 = Run(cx, key, ['other', 'state'])
        b = part(cx, r.fn, cx.deref(r2.st, r2.args[0]), field)
        outs = r.body()
        outs2 = run_body(cx, r2.fn, r2.args, r2.st)
        for s, _ in outs:
            for s2, _ in outs2:
                cx.oblige(s, 'keys with the same %s hash alike' % field, s.roots['state'] == s2.roots['state'], 'post',
                          list(s2.conds()) + [a == b])
    return run


# ---- the pass-through hasher of the band tables: a function of the key alone
def j_build(cx):
    r = Run(cx, '<NoOpHashBuilder as BuildHasher>::build_hasher', ['self'])
    r2 = Run(cx, '<NoOpHashBuilder as BuildHasher>::build_hasher', ['other'])
    outs2 = run_body(cx, r2.fn, r2.args, r2.st)
    for s, v in r.body():
        for s2, v2 in outs2:
            cx.oblige(s, 'every builder builds the same hasher', And(*[a == b for a, b in zip(v.f, v2.f)]), 'post', list(s2.conds()))


def j_noop_write(cx):
    key = '<NoOpHasher as Hasher>::write_u64'
    r, r2 = Run(cx, key, ['self', 'h']), Run(cx, key, ['self', 'h'])
    outs2 = run_body(cx, r2.fn, r2.args, r2.st)
    for s, _ in r.body():
        for s2, _ in outs2:
            cx.oblige(s, 'the state after a write is a function of the state before and of the key',
                      And(*[a == b for a, b in zip(s.roots['self'].f, s2.roots['self'].f)]), 'post', list(s2.conds()))


def j_noop_finish(cx):
    """A hash of zero fails a debug assertion (not in release builds); apart from that `finish` never panics."""
    key = '<NoOpHasher as Hasher>::finish'
    r, r2 = Run(cx, key, ['self']), Run(cx, key, ['self'])
    cx.panic_ok = part(cx, r.fn, cx.deref(r.st, r.args[0]), 'hash') == 0
    outs2 = run_body(cx, r2.fn, r2.args, r2.st)
    for s, v in r.body():
        for s2, v2 in outs2:
            cx.oblige(s, 'the hash is a function of what was written', v == v2, 'post', list(s2.conds()))


BK = P('P01', 'P02', 'P03', 'P04', 'P05', 'P06')
JOBS = [JOB('BandKey::eq', j_eq('<BandKey as PartialEq>::eq', 'hash'), BK, setup({})),
        JOB('NoOpHashBuilder::build_hasher', j_build, BK, setup({})),
        JOB('NoOpHasher::write_u64', j_noop_write, BK, setup({})),
        JOB('NoOpHasher::finish', j_noop_finish, BK, setup({})),
        JOB('BandKey::hash', j_hash('<BandKey as Hash>::hash', 'hash'), BK, setup({})),
        JOB('ClusterPointInner::eq', j_eq('<ClusterPointInner as PartialEq>::eq', 'id'), P('P17'), setup({'Id': sh_u('U_Id')})),
        JOB('ClusterPointInner::hash', j_hash('<ClusterPointInner as Hash>::hash', 'id'), P('P17'), setup({'Id': sh_u('U_Id')}))]
