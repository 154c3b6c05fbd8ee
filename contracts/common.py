"""Shared pieces of the contract modules."""
import z3
from vals import *
import exec as ex
import lib
import mir
from verify import *

P = lambda *xs: frozenset(xs)


class Run:
    """One function under contract: symbolic pre-state, body execution, post obligations."""

    def __init__(self, cx, key, names, n=None, module=None, sub=None, fn=None):
        self.cx = cx
        self.fn = fn or find(cx, key, n, module)
        self.st = St()
        self.sub = sub or {}
        self.args = [arg_value(cx, self.st, ty, nm, self.sub) for (_, ty), nm in zip(self.fn.args, names)]
        self.name = key

    def body(self):
        self.outs = run_body(self.cx, self.fn, self.args, self.st, self.sub)
        for n, (s, _) in enumerate(self.outs):
            # vacuity guard: the path must not be contradictory
            self.cx.oblige(s, 'a normal return is reachable (%s)' % self.name, FALSE, 'vacuity', props=self.cx.props)
            self.cx.obls[-1].expect = False
        return self.outs


def run_again(cx, r):
    """A second, independent execution of the same body on the same arguments (its obligations are those of the first)."""
    n = len(cx.obls)
    cx.stack.append('again')
    try:
        return run_body(cx, r.fn, r.args, St())
    finally:
        cx.stack.pop()
        del cx.obls[n:]


def JOB(name, run, props, setup, **kw):
    return dict(name=name, run=run, props=frozenset(props), setup=setup, **kw)
