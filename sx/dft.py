"""Building dataflow trees and judging state conditions (pyverilog/controlflow) over bit-vectors."""
import z3
from . import engine as E, target, vlog as V


def b2z(x):
    if isinstance(x, E.SymBool):
        return x.t
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def num(bv):
    """unsigned number of a bit-vector value"""
    w = bv.size()
    return E.mk(z3.ZeroExt(1, bv), 0, (1 << w) - 1)


class B(object):
    """trees over the signals W (name -> width) of module TOP"""

    def __init__(self, ctx, W, top='TOP'):
        t = target.load()
        self.ctx, self.W, self.top = ctx, W, top
        self.d, self.s = t.dataflow, t.scope
        self.env = {}
        self.n = 0

    def name(self, n):
        return self.s.ScopeChain([self.s.ScopeLabel(self.top, 'module'), self.s.ScopeLabel(n, 'signal')])

    def val(self, n):
        full = '%s.%s' % (self.top, n)
        if full not in self.env:
            self.env[full] = V.Val(self.ctx.sig(n, self.W[n]))
        return self.env[full].b

    def sig(self, n):
        self.val(n)
        return self.d.DFTerminal(self.name(n))

    def ev(self, v, w=32):
        return self.d.DFEvalValue(v, w)

    def const(self, lo, hi, w=32):
        self.n += 1
        return self.ev(self.ctx.int('k%d' % self.n, lo, hi), w)

    def op(self, o, *a):
        return self.d.DFOperator(tuple(a), o)

    def bit(self, n, i):
        return self.d.DFPartselect(self.sig(n), self.ev(i), self.ev(i))

    def truth(self, tree):
        """z3: the tree is true as a condition"""
        c, us = V.Sem(self.env).truth(V.df2e(tree, None))
        assert not us
        return c

    def value(self, tree, w):
        return V.vext(V.Sem(self.env).ev(V.df2e(tree, None), w), w).b


def in_pairs(pairs, v):
    out = [z3.And(b2z(lo <= v), b2z(v <= hi)) for lo, hi in pairs]
    return z3.Or(*out) if out else z3.BoolVal(False)


def node_pred(b, node, v):
    """z3: StateNode / StateNodeList (or None) covers the state value v under the signal values of b"""
    tr = target.load().transition
    if node is None:
        return z3.BoolVal(False)
    if isinstance(node, tr.StateNodeList):
        ps = [node_pred(b, n, v) for n in node.nodelist]
        return z3.Or(*ps) if ps else z3.BoolVal(False)
    p = z3.BoolVal(True) if node.isany else in_pairs(node.range_pairs, v)
    if node.transcond is not None:
        p = z3.And(p, b.truth(node.transcond))
    return p
