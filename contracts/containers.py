"""The three id containers against the bag contract that MinHashIndex uses (P07)."""
from common import *

KINDS = ['HashSetContainer', 'VecContainer', 'SmallVecContainer']


class CView:
    """What a container holds: mem(x), and once(x) = x is held at most once."""

    def __init__(self, cx, v):
        v = v.f[0]
        self.cx = cx
        self.seq = v if isinstance(v, Seq) and not isinstance(v.at(z3.Int('probe')), Undef) else None
        if isinstance(v, SetV):
            self.mem = v.mem
            self.once = lambda x: TRUE
        elif isinstance(v, Seq) and isinstance(v.at(z3.Int('probe')), Undef):
            self.mem, self.once = (lambda x: And(v.n != 0, z3.Const('unknown_mem', B))), (lambda x: v.n == 0)
        elif isinstance(v, Seq):
            def mem(x):
                i = gensym('i', I)
                return z3.Exists([i], And(i >= 0, i < v.n, v.at(i) == x))

            def once(x):
                i, j = gensym('i', I), gensym('j', I)
                return z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < v.n), Not(And(v.at(i) == x, v.at(j) == x))))
            self.mem, self.once = mem, once
        else:
            raise Unsupported('container of %s' % type(v).__name__)


EL = usort('U_T')


def setup():
    return new_ctx({'T': sh_u('U_T')}, {})


def find_m(cx, kind, m):
    """The container's own method or the trait's default."""
    fs = cx.by_key.get('<%s as IdContainer>::%s' % (kind, m), [])
    if len(fs) == 1:
        return fs[0], {}
    fs = cx.by_key.get('IdContainer::' + m, [])
    if len(fs) == 1:
        ty = mir.parse_type('%s<T>' % kind if kind != 'SmallVecContainer' else 'SmallVecContainer<T, N>')
        return fs[0], {'Self': ty}
    raise Unsupported('no method %s of %s' % (m, kind))


def j_new(kind):
    def run(cx):
        fn, sub = find_m(cx, kind, 'new')
        r = Run(cx, kind + '::new', [], fn=fn, sub=sub)
        for s, v in r.body():
            x = gensym('x', EL)
            cx.oblige(s, 'a new container holds nothing', Not(CView(cx, v).mem(x)), 'post')
    return run


def j_push(kind):
    def run(cx):
        fn, sub = find_m(cx, kind, 'push')
        r = Run(cx, kind + '::push', ['self', 'item'], fn=fn, sub=sub)
        pre, it = CView(cx, r.st.roots['self']), r.args[1]
        for s, v in r.body():
            post = CView(cx, s.roots['self'])
            x = gensym('x', EL)
            cx.oblige(s, 'exactly the pushed id is added', post.mem(x) == Or(pre.mem(x), x == it), 'post')
            cx.oblige(s, 'other ids are not duplicated', post.once(x), 'post', [x != it, pre.once(x)])
            cx.oblige(s, 'an id that was absent is held once', post.once(it), 'post', [Not(pre.mem(it))])
    return run


def j_remove(kind):
    def run(cx):
        fn, sub = find_m(cx, kind, 'remove')
        r = Run(cx, kind + '::remove', ['self', 'item'], fn=fn, sub=sub)
        pre, it = CView(cx, r.st.roots['self']), r.args[1]
        for s, v in r.body():
            post = CView(cx, s.roots['self'])
            x = gensym('x', EL)
            if pre.seq is None or post.seq is None:
                cx.oblige(s, 'other ids stay', post.mem(x) == pre.mem(x), 'post', [x != it])
            else:
                p = gensym('p', I)
                for nm, A, C in (('other ids stay', pre.seq, post.seq), ('no id is added', post.seq, pre.seq)):
                    # (the instances are implied by the existential; they only suggest where to look)
                    inst = [And(t >= 0, t < C.n, C.at(t) == x) for t in (p, p - 1, p + 1, A.n - 1, C.n - 1)]
                    cx.oblige(s, nm, Or((post if C is post.seq else pre).mem(x), *inst), 'post',
                              [x != it, p >= 0, p < A.n, A.at(p) == x])
            cx.oblige(s, 'an id held once is gone', Not(post.mem(it)), 'post', [pre.once(it)])
            cx.oblige(s, 'an absent id stays absent', Not(post.mem(it)), 'post', [Not(pre.mem(it))])
            cx.oblige(s, 'no id is duplicated', post.once(x), 'post', [pre.once(x)])
    return run


def j_copy(kind, m):
    def run(cx):
        fn, sub = find_m(cx, kind, m)
        r = Run(cx, kind + '::' + m, ['self', 'set'], fn=fn, sub=sub)
        pre, t0 = CView(cx, r.args[0]), r.st.roots['set']
        for s, v in r.body():
            t1 = s.roots['set']
            x = gensym('x', EL)
            cx.oblige(s, 'the target gains exactly the held ids', t1.mem(x) == Or(t0.mem(x), pre.mem(x)), 'post')
    return run


def j_empty(kind):
    def run(cx):
        fn, sub = find_m(cx, kind, 'is_empty')
        r = Run(cx, kind + '::is_empty', ['self'], fn=fn, sub=sub)
        v0 = r.args[0] if not isinstance(r.args[0], Ptr) else r.st.roots['self']
        pre = CView(cx, v0)
        for s, v in r.body():
            x = gensym('x', EL)
            cx.oblige(s, 'an empty container holds no id', Not(pre.mem(x)), 'post', [v])
            cx.oblige(s, 'a container that is not empty holds an id', z3.Exists([x], pre.mem(x)), 'post', [Not(v)])
    return run


def j_len(kind):
    """len() == 0 exactly when nothing is held (MinHashIndex may test either)."""
    def run(cx):
        fn, sub = find_m(cx, kind, 'len')
        r = Run(cx, kind + '::len', ['self'], fn=fn, sub=sub)
        pre = CView(cx, r.args[0])
        for s, v in r.body():
            x = gensym('x', EL)
            cx.oblige(s, 'a container of length zero holds no id', Not(pre.mem(x)), 'post', [v == 0])
            cx.oblige(s, 'a container of positive length holds an id', z3.Exists([x], pre.mem(x)), 'post', [v != 0])
            cx.oblige(s, 'length is not negative', v >= 0, 'post')
    return run


JOBS = []
for K in KINDS:
    for m, f in (('new', j_new(K)), ('push', j_push(K)), ('remove', j_remove(K)), ('copy_to', j_copy(K, 'copy_to')),
                 ('copy_refs_to', j_copy(K, 'copy_refs_to')), ('is_empty', j_empty(K)), ('len', j_len(K))):
        JOBS.append(JOB('%s::%s' % (K, m), f, P('P07'), setup))
