"""Exact-integer reference semantics of dataflow trees (used for the optimizer).

Every value is a non-negative integer (or, in signed mode, an integer) that fits its Verilog width; `side` collects the
conditions under which no intermediate result leaves its width.  Works on Python ints and on symbolic ints alike."""
import re
from . import engine as E


def tob(x):
    """truth value as SymBool/bool without forking"""
    return x != 0 if not isinstance(x, bool) else x


def band(*xs):
    r = True
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r = x if r is True else (r & x)
    return r


def bnot(x):
    if x is True:
        return False
    if x is False:
        return True
    import z3
    return E.mkbool(z3.Not(x.t))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def ite(c, a, b):
    if type(c) is E.SymBool:
        return E.sym_ite(c.t, a, b)
    return a if c else b


def imax(a, b):
    return ite(a >= b, a, b)


def b2i(c):
    return ite(c, 1, 0)


def ones(w):
    return (1 << w) - 1


class V(object):
    __slots__ = ('v', 'w', 'u', 'cx')

    def __init__(self, v, w, u=0, cx=False):
        self.v, self.w, self.u, self.cx = v, w, u, cx   # value, width, undefined bits, context-width dependent


class Unsupported(Exception):
    pass


class Exact(object):
    """env: signal name -> (value, width, lsb);  consts: name -> V;  arrays: name -> (function index->value, width)"""

    def __init__(self, t, env, consts=None, arrays=None, signed=False, ranges=None):
        self.t, self.env, self.consts, self.arrays, self.signed = t, env, consts or {}, arrays or {}, signed
        self.ranges = ranges or {}          # declared range of a constant
        self.side = []

    def ok(self, *c):
        self.side.extend(x for x in c if x is not True)

    def fits(self, v, w):
        if self.signed:
            h = 1 << (w - 1)
            self.ok(v >= -h, v < h)
        else:
            self.ok(v >= 0, v <= ones(w))

    def const(self, s):
        m = re.match(r"^(\d+)?'[sS]?([bodhBODH])([0-9a-fA-F_]+)$", s)
        from . import target
        if m is None:
            return V(target.IntShim(s.replace('_', '')), 32)
        base = {'b': 2, 'o': 8, 'd': 10, 'h': 16}[m.group(2).lower()]
        return V(target.IntShim(m.group(3), base), target.IntShim(m.group(1)) if m.group(1) else 32)

    def ev(self, n):
        d = self.t.dataflow
        if isinstance(n, d.DFEvalValue):
            return V(n.value, 32 if n.width is None else n.width)
        if isinstance(n, d.DFUndefined):
            return V(0, n.width, ones(n.width))
        if isinstance(n, d.DFIntConst):
            return self.const(n.value)
        if isinstance(n, d.DFTerminal):
            k = str(n.name)
            if k in self.consts:
                return self.consts[k]
            v, w, _ = self.env[k]
            return V(v, w)
        if isinstance(n, d.DFBranch):
            c = self.ev(n.condnode)
            x, y = self.ev(n.truenode), self.ev(n.falsenode)
            w = imax(x.w, y.w)
            b = tob(c.v)
            v, u = ite(b, x.v, y.v), ite(b, x.u, y.u)
            if not (type(c.u) is int and c.u == 0):
                u = ite(c.u != 0, ones(w), u)
            return V(v, w, u, x.cx or y.cx)
        if isinstance(n, d.DFConcat):
            v, w, u = 0, 0, 0
            for k in n.nextnodes:
                x = self.ev(k)
                v, u, w = (v << x.w) | x.v, (u << x.w) | x.u, w + x.w
            return V(v, w, u)
        if isinstance(n, d.DFPartselect):
            return self.select(n.var, self.ev(n.msb).v, self.ev(n.lsb).v)
        if isinstance(n, d.DFPointer):
            if isinstance(n.var, d.DFTerminal) and str(n.var.name) in self.arrays:
                f, w = self.arrays[str(n.var.name)]
                return V(f(self.ev(n.ptr).v), w)
            p = self.ev(n.ptr)
            r = self.select(n.var, p.v, p.v)
            return r
        if isinstance(n, d.DFOperator):
            return self.op(n)
        raise Unsupported(type(n).__name__)

    def select(self, var, msb, lsb):
        x = self.ev(var)
        d = self.t.dataflow
        if isinstance(var, d.DFTerminal) and str(var.name) in self.env:
            l0 = self.env[str(var.name)][2]
            msb, lsb = msb - l0, lsb - l0
        if isinstance(var, d.DFTerminal) and str(var.name) in self.ranges:
            m0, l0 = self.ranges[str(var.name)]
            msb, lsb = (l0 - msb, l0 - lsb) if m0 < l0 else (msb - l0, lsb - l0)
        w = msb - lsb + 1
        self.ok(lsb >= 0, w >= 1)
        lsb = ite(lsb >= 0, lsb, 0)
        w = ite(w >= 1, w, 1)
        v = (x.v >> lsb) & ones(w)
        # bits beyond the top are undefined
        full = x.u | (ones(16) << x.w)
        u = (full >> lsb) & ones(w)
        return V(v & ((ones(w)) ^ u), w, u)

    def op(self, n):
        o = n.operator
        xs = [self.ev(k) for k in n.nextnodes]
        und = 0
        for x in xs:
            if not (type(x.u) is int and x.u == 0):
                und = ite(x.u != 0, 1, und)
        r = self._op(o, xs)
        if not (type(und) is int and und == 0):
            r.u = ite(und != 0, ones(r.w), 0)
        return r

    def _op(self, o, xs):
        a = xs[0]
        if o in ('Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor'):
            if o == 'Ulnot':
                return V(b2i(a.v == 0), 1)
            allones = a.v == ones(a.w)
            if self.signed:
                allones = a.v == -1
            if o == 'Uand':
                return V(b2i(allones), 1)
            if o == 'Unand':
                return V(1 - b2i(allones), 1)
            if o == 'Uor':
                return V(b2i(a.v != 0), 1)
            if o == 'Unor':
                return V(b2i(a.v == 0), 1)
            p = 0
            lim = a.w.hi if type(a.w) is E.SymInt else a.w
            for i in range(lim):
                p = p ^ ((a.v >> i) & 1)
            return V(p if o == 'Uxor' else 1 - p, 1)
        if o == 'Uplus':
            return V(a.v, a.w, 0, a.cx)
        if o == 'Uminus':
            r = -a.v
            self.fits(r, a.w)
            return V(r, a.w, 0, True)
        if o == 'Unot':
            if self.signed:
                self.ok(False)
                return V(-a.v - 1, a.w, 0, True)
            return V(ones(a.w) - a.v, a.w, 0, True)
        b = xs[1]
        if o in ('Sll', 'Srl', 'Sla', 'Sra', 'Power'):
            w = a.w
            if o == 'Power':
                self.ok(b.v >= 0)
                r = a.v ** ite(b.v >= 0, b.v, 0)
                self.fits(r, w)
                return V(r, w, 0, True)
            self.ok(b.v >= 0)
            s = ite(b.v >= 0, b.v, 0)
            if o in ('Sll', 'Sla'):
                r = a.v << s
                self.fits(r, w)
                return V(r, w, 0, True)
            if o == 'Srl' and self.signed:
                self.ok(a.v >= 0)
            return V(a.v >> s, w, 0, a.cx)
        w = imax(a.w, b.w)
        if a.cx or b.cx:
            if o not in ('Land', 'Lor'):
                self.ok(a.w == b.w)
        cx = a.cx or b.cx
        if o == 'Plus':
            r = a.v + b.v
        elif o == 'Minus':
            r = a.v - b.v
        elif o == 'Times':
            r = a.v * b.v
        elif o in ('Divide', 'Mod'):
            self.ok(b.v != 0)
            bv = ite(b.v != 0, b.v, 1)
            if not self.signed:
                r = a.v // bv if o == 'Divide' else a.v % bv
            else:
                aa, bb = ite(a.v < 0, -a.v, a.v), ite(bv < 0, -bv, bv)
                if o == 'Divide':
                    q = aa // bb
                    r = ite((a.v < 0) != (bv < 0), -q, q)
                else:
                    m = aa % bb
                    r = ite(a.v < 0, -m, m)
        elif o == 'And':
            r = a.v & b.v
        elif o == 'Or':
            r = a.v | b.v
        elif o == 'Xor':
            r = a.v ^ b.v
        elif o == 'Xnor':
            if self.signed:
                self.ok(False)
            r, cx = ones(w) ^ (a.v ^ b.v), True
        elif o in ('Land', 'Lor'):
            p, q = tob(a.v), tob(b.v)
            return V(b2i(band(p, q) if o == 'Land' else bor(p, q)), 1)
        else:
            c = {'LessThan': lambda: a.v < b.v, 'GreaterThan': lambda: a.v > b.v, 'LessEq': lambda: a.v <= b.v,
                 'GreaterEq': lambda: a.v >= b.v, 'Eq': lambda: a.v == b.v, 'Eql': lambda: a.v == b.v,
                 'NotEq': lambda: a.v != b.v, 'NotEql': lambda: a.v != b.v}.get(o)
            if c is None:
                raise Unsupported('operator ' + o)
            return V(b2i(c()), 1)
        if o in ('Plus', 'Minus', 'Times', 'Divide', 'Mod'):
            self.fits(r, w)
            cx = True
        return V(r, w, 0, cx)
