"""Verification jobs: symbolic arguments, contract obligations, discharge."""
import copy, os, sys, time, traceback
import z3
import mir
from vals import *
import exec as ex
from exec import Ctx, St, Obl, Impure, decl_name
from loops import has_quant
import prove

_crate = {}


def crate(package='gaoya'):
    if package not in _crate:
        _crate[package] = mir.Crate.load(package=package)
    return _crate[package]


ID = usort('U_Id')
T = usort('U_T')


class Contract:
    """Functional contract. `spec(cx, st, args)` returns a Spec over the pre-state."""

    def __init__(self, name, spec, applies=None):
        self.name, self.spec, self._applies = name, spec, applies

    def applies(self, cx, c, args):
        return self._applies is None or self._applies(cx, c, args)

    def use(self, cx, st, args, c):
        sp = self.spec(cx, st, args)
        held = []
        for n, (nm, f) in enumerate(sp.requires):
            cx.oblige(st, 'precondition of %s: %s' % (self.name, nm), f, 'precondition')
            if cx.params and has_quant(f):
                # named, so that what the contract ensures is not guarded by a quantified formula
                pre = cx.func(st, 'pre%d' % n, [], B)()
                cx.axiom(st, pre == f, pats=[[pre]], defs=[decl_name(pre)], guard=False)
                f = pre
            st.fact(f)
            held.append(f)
        sp.held = held, list(cx.params)
        if not z3.is_false(sp.panics):
            cx.oblige(st, 'no panic in %s' % self.name, Or(Not(sp.panics), cx.panic_ok), 'panic')
            st.fact(Not(sp.panics))
        if not z3.is_false(sp.may_panic):
            cx.oblige(st, 'no panic in %s' % self.name, Or(Not(sp.may_panic), cx.panic_ok), 'panic')
        for p, v in sp.writes:
            cx.write(st, p.root, p.path, v)
        res = sp.result
        if sp.result_shape is not None:
            res = cx.fresh_value(st, sp.result_shape, 'res_' + self.name.split('::')[-1])
            for nm, vs, f, pats in sp.ensures(res):
                cx.axiom(st, f, vs, pats, defs=())
        return [(st, res)]


class Spec:
    def __init__(self, requires=(), panics=FALSE, writes=(), result=UNIT, result_shape=None, ensures=None, may_panic=FALSE):
        self.may_panic = may_panic
        self.requires, self.panics, self.writes, self.result = list(requires), panics, list(writes), result
        self.result_shape, self.ensures = result_shape, ensures


class Job:
    """One function (or lemma) to verify. run(j) sets everything up and calls j.* helpers."""

    def __init__(self, name, run, over=None, contracts=None, fn=None):
        self.name, self.run, self.over, self.contracts, self.fn = name, run, over or {}, contracts or {}, fn or name


def new_ctx(over, contracts, timeout=20000, without=None, package='gaoya'):
    """without: a module whose items bear names that occur elsewhere too and are not meant here."""
    cr = crate(package)
    if without:
        cr = copy.copy(cr)
        out = lambda x: (x.module or '').split('::')[-1] == without
        cr.fns = [f for f in cr.fns if not out(f)]
        cr.structs = {n: [s for s in l if not out(s)] or l for n, l in cr.structs.items()}
    te = TypeEnv(cr, over)
    cx = Ctx(cr, te, contracts, prove.Prover(timeout))
    cx.bag_ksort = ID
    return cx


def find(cx, key, n=None, module=None):
    fs = cx.by_key.get(key, [])
    if n is not None:
        fs = [f for f in fs if len(f.args) == n]
    if module:
        fs = [f for f in fs if module(f)]
    if len(fs) != 1:
        raise Unsupported('function %s not found (%d candidates)' % (key, len(fs)))
    return fs[0]


def arg_value(cx, st, ty, name, sub=None):
    """Symbolic argument of a MIR type."""
    if ty.k == 'ref' and ty.mut:
        r = name
        st.types[r] = ex.subst_ty(ty.args[0], sub)
        st.roots[r] = arg_value(cx, st, ty.args[0], name, sub)
        return Ptr(r, [])
    sh = cx.shape(ty, sub)
    return cx.fresh_value(st, sh, name)


def run_body(cx, fn, args, st, sub=None):
    cx.curfn = ex.strip_generics(fn.name)
    return cx.run_fn(fn, args, st, sub or {}, 'top')
