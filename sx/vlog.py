"""Small Verilog programs as Python tuples, their text, their meaning (z3 bit-vectors), and the real pipeline that turns
the text into dataflow trees.  The meaning is IEEE 1364-2005 (unsigned operands, two-state values plus an undefined mask).

Expressions: ('s',name) ('k',value,width|None,base) ('x',width,text) ('u',op,e) ('b',op,l,r) ('?',c,t,f) ('cat',[e])
('rep',n,[e]) ('sel',e,msb,lsb) ('idx',e,i) ('call',f,[args]) ('hold',) ('undef',w)
Statements:  ('=',lv,e) ('<=',lv,e) ('if',c,s,s|None) ('case'|'casex'|'casez',e,[([labels]|None,s)]) ('seq',[s],name|None)
L-values:    ('s',n) ('sel',..) ('idx',..) ('cat',[..])
"""
import contextlib
import io
import os
import re
import sys
import z3
from . import engine as E
from . import target

UOP = {'Uminus': '-', 'Uplus': '+', 'Ulnot': '!', 'Unot': '~', 'Uand': '&', 'Unand': '~&', 'Uor': '|', 'Unor': '~|',
       'Uxor': '^', 'Uxnor': '~^'}
BOP = {'Power': '**', 'Times': '*', 'Divide': '/', 'Mod': '%', 'Plus': '+', 'Minus': '-', 'Sll': '<<', 'Srl': '>>',
       'Sla': '<<<', 'Sra': '>>>', 'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eq': '==',
       'NotEq': '!=', 'Eql': '===', 'NotEql': '!==', 'And': '&', 'Xor': '^', 'Xnor': '~^', 'Or': '|', 'Land': '&&',
       'Lor': '||'}
# IEEE 1364-2005 table 5-4, highest first
PREC = [['Power'], ['Times', 'Divide', 'Mod'], ['Plus', 'Minus'], ['Sll', 'Srl', 'Sla', 'Sra'],
        ['LessThan', 'LessEq', 'GreaterThan', 'GreaterEq'], ['Eq', 'NotEq', 'Eql', 'NotEql'], ['And'],
        ['Xor', 'Xnor'], ['Or'], ['Land'], ['Lor']]
REDUCE = ('Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
COMPARE = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
SHIFT = ('Sll', 'Srl', 'Sla', 'Sra')
CTXBIN = ('Times', 'Divide', 'Mod', 'Plus', 'Minus', 'And', 'Xor', 'Xnor', 'Or')


def S(n): return ('s', n)
def K(v, w=None, base=10): return ('k', v, w, base)


# ---------------------------------------------------------------------------- text
BASECH = {10: 'd', 16: 'h', 8: 'o', 2: 'b'}


def emit(e):
    k = e[0]
    if k == 's':
        return e[1]
    if k == 'k':
        d = E.cur().digits(e[1], e[3])
        if e[2] is None:
            return d if e[3] == 10 else "'%s%s" % (BASECH[e[3]], d)
        return "%s'%s%s" % (E.cur().digits(e[2], 10), BASECH[e[3]], d)
    if k == 'x':
        return e[2]
    if k == 'u':
        return '(%s%s)' % (UOP[e[1]], emit(e[2]))
    if k == 'b':
        return '(%s %s %s)' % (emit(e[2]), BOP[e[1]], emit(e[3]))
    if k == '?':
        return '(%s ? %s : %s)' % (emit(e[1]), emit(e[2]), emit(e[3]))
    if k == 'cat':
        return '{%s}' % ', '.join(emit(x) for x in e[1])
    if k == 'rep':
        return '{%s{%s}}' % (emit(e[1]), ', '.join(emit(x) for x in e[2]))
    if k == 'sel':
        return '%s[%s:%s]' % (emit(e[1]), emit(e[2]), emit(e[3]))
    if k == 'idx':
        return '%s[%s]' % (emit(e[1]), emit(e[2]))
    if k == 'call':
        return '%s(%s)' % (e[1], ', '.join(emit(x) for x in e[2]))
    raise AssertionError(e)


def emit_stmt(s, ind='    '):
    k = s[0]
    if k in ('=', '<='):
        return '%s%s %s %s;\n' % (ind, emit(s[1]), k, emit(s[2]))
    if k == 'if':
        t = s[2]
        if s[3] is not None and open_if(t):
            t = ('seq', [t], None)
        r = '%sif (%s)\n%s' % (ind, emit(s[1]), emit_stmt(t, ind + '  '))
        if s[3] is not None:
            r += '%selse\n%s' % (ind, emit_stmt(s[3], ind + '  '))
        return r
    if k in ('case', 'casex', 'casez'):
        r = '%s%s (%s)\n' % (ind, k, emit(s[1]))
        for labs, b in s[2]:
            r += '%s  %s:\n%s' % (ind, 'default' if labs is None else ', '.join(emit(x) for x in labs),
                                  emit_stmt(b, ind + '    '))
        return r + ind + 'endcase\n'
    if k == 'seq':
        return '%sbegin%s\n%s%send\n' % (ind, ' : ' + s[2] if s[2] else '',
                                          ''.join(emit_stmt(x, ind + '  ') for x in s[1]), ind)
    if k == 'for':      # ('for', var, init, cond, step, body)
        return '%sfor (%s = %s; %s; %s = %s)\n%s' % (ind, s[1], emit(s[2]), emit(s[3]), s[1], emit(s[4]),
                                                   emit_stmt(s[5], ind + '  '))
    if k == 'while':    # as 'for'
        return '%s%s = %s;\n%swhile (%s)\n%s  begin\n%s%s    %s = %s;\n%s  end\n' % (
            ind, s[1], emit(s[2]), ind, emit(s[3]), ind, emit_stmt(s[5], ind + '    '), ind, s[1], emit(s[4]), ind)
    if k == 'null':
        return ind + ';\n'
    raise AssertionError(s)


def open_if(s):
    """does an else after s belong to an if inside s?"""
    if s[0] == 'if':
        return s[3] is None or open_if(s[3])
    if s[0] == 'for':
        return open_if(s[5])
    return False


# ---------------------------------------------------------------------------- values
class Val(object):
    """bit-vector value and mask of undefined bits (None = all defined)"""
    __slots__ = ('b', 'u')

    def __init__(self, b, u=None):
        self.b, self.u = b, u

    @property
    def w(self):
        return self.b.size()


class Unsupported(Exception):
    pass


def zext(x, w):
    n = x.size()
    if n == w:
        return x
    if n > w:
        return z3.Extract(w - 1, 0, x)
    return z3.ZeroExt(w - n, x)


def vext(v, w):
    return Val(zext(v.b, w), None if v.u is None else zext(v.u, w))


def vite(c, a, b):
    u = None
    if a.u is not None or b.u is not None:
        z = z3.BitVecVal(0, a.w)
        u = z3.If(c, a.u if a.u is not None else z, b.u if b.u is not None else z)
    return Val(z3.If(c, a.b, b.b), u)


def anyu(*vs):
    us = [v.u != 0 for v in vs if v.u is not None]
    return us


def poison(w, us, b):
    """b, all bits undefined when any condition in us holds"""
    if not us:
        return Val(b)
    return Val(b, z3.If(z3.Or(us), z3.BitVecVal(-1, w), z3.BitVecVal(0, w)))


def kint(x):
    """concrete value of an int (forks on a symbolic one)"""
    return E.concretize(x) if isinstance(x, E.SymInt) else int(x)


class Sem(object):
    """env: name -> Val | callable() -> Val ; widths: name -> width; lsbs: name -> lsb; consts: name -> int
    arrays: name -> (z3 function from 32-bit index to value, width); funcs: name -> callable(list of Val)->Val"""

    def __init__(self, env, consts=None, arrays=None, lsbs=None, funcs=None, hold=None, descending=True):
        self.env, self.consts, self.arrays = env, consts or {}, arrays or {}
        self.lsbs, self.funcs, self.hold = lsbs or {}, funcs or {}, hold

    wild = False        # dataflow trees: == against a literal with x/z/? digits is a casex match

    def lookup(self, n):
        v = self.env.get(n)
        if v is None:
            raise Unsupported('no value for signal %s' % n)
        if callable(v):
            v = v()
            self.env[n] = v
        if not isinstance(v, Val):
            v = Val(v)
        return v

    # constant integers (bounds, replication counts)
    def cint(self, e):
        k = e[0]
        if k == 'k':
            return e[1]
        if k == 's' and e[1] in self.consts:
            return self.consts[e[1]]
        if k == 'b':
            a, b = self.cint(e[2]), self.cint(e[3])
            op = e[1]
            if op == 'Plus':
                return a + b
            if op == 'Minus':
                return a - b
            if op == 'Times':
                return a * b
            if op == 'Divide':
                return kint(a) // kint(b)
            if op == 'Mod':
                return kint(a) % kint(b)
            if op == 'Sll':
                return a << b
            if op == 'Srl':
                return a >> b
            if op in COMPARE:
                a, b = kint(a), kint(b)
                return int({'LessThan': a < b, 'GreaterThan': a > b, 'LessEq': a <= b, 'GreaterEq': a >= b, 'Eq': a == b,
                            'NotEq': a != b, 'Eql': a == b, 'NotEql': a != b}[op])
        if k == 'u' and e[1] == 'Uminus':
            return -self.cint(e[2])
        if k == 'u' and e[1] == 'Uplus':
            return self.cint(e[2])
        if k == '?':
            return self.cint(e[2]) if kint(self.cint(e[1])) != 0 else self.cint(e[3])
        raise Unsupported('not a constant: %r' % (e,))

    def is_const(self, e):
        k = e[0]
        if k == 'k':
            return True
        if k == 's':
            return e[1] in self.consts
        if k in ('b', 'u', '?'):
            return all(self.is_const(x) for x in e[1:] if isinstance(x, tuple))
        return False

    def width(self, e):
        k = e[0]
        if k == 's':
            if e[1] in self.consts and e[1] not in self.env:
                return 32
            return self.lookup(e[1]).w
        if k == 'k':
            return 32 if e[2] is None else kint(e[2])
        if k == 'x':
            return e[1]
        if k == 'u':
            return 1 if e[1] in REDUCE or e[1] == 'Ulnot' else self.width(e[2])
        if k == 'b':
            if e[1] in COMPARE or e[1] in ('Land', 'Lor'):
                return 1
            if e[1] in SHIFT or e[1] == 'Power':
                return self.width(e[2])
            return max(self.width(e[2]), self.width(e[3]))
        if k == '?':
            return max(self.width(e[2]), self.width(e[3]))
        if k == 'cat':
            return sum(self.width(x) for x in e[1])
        if k == 'rep':
            return kint(self.cint(e[1])) * sum(self.width(x) for x in e[2])
        if k == 'sel':
            return abs(kint(self.cint(e[2])) - kint(self.cint(e[3]))) + 1
        if k == 'idx':
            if e[1][0] == 's' and e[1][1] in self.arrays:
                return self.arrays[e[1][1]][1]
            return 1
        if k == 'call':
            return self.funcs[e[1]][0]
        if k == 'hold':
            return self.hold.w
        if k == 'undef':
            return kint(e[1])
        raise Unsupported(k)

    def truth(self, e):
        """(z3 condition 'true', undefined conditions)"""
        v = self.ev(e)
        return v.b != 0, anyu(v)

    def ev(self, e, W=None):
        w = self.width(e)
        W = w if W is None else max(W, w)
        k = e[0]
        if k == 's':
            if e[1] in self.consts and e[1] not in self.env:
                return Val(E.as_bv(self.consts[e[1]], W))
            return vext(self.lookup(e[1]), W)
        if k == 'k':
            return vext(Val(E.as_bv(e[1], w)), W)
        if k == 'x':
            return vext(Val(z3.BitVecVal(0, w), z3.BitVecVal(-1, w)), W)
        if k == 'hold':
            return vext(self.hold, W)
        if k == 'undef':
            return vext(Val(z3.BitVecVal(0, w), z3.BitVecVal(-1, w)), W)
        if k == 'u':
            op = e[1]
            if op in REDUCE or op == 'Ulnot':
                a = self.ev(e[2])
                n = a.w
                if op in ('Uand', 'Unand'):
                    c = a.b == z3.BitVecVal(-1, n)
                elif op in ('Uor', 'Unor', 'Ulnot'):
                    c = a.b != 0
                else:
                    x = z3.Extract(0, 0, a.b)
                    for i in range(1, n):
                        x = x ^ z3.Extract(i, i, a.b)
                    c = x == 1
                if op in ('Unand', 'Unor', 'Uxnor', 'Ulnot'):
                    c = z3.Not(c)
                return vext(poison(1, anyu(a), z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))), W)
            a = self.ev(e[2], W)
            if op == 'Unot':
                return Val(~a.b, a.u)
            if op == 'Uminus':
                return poison(W, anyu(a), -a.b)
            if op == 'Uplus':
                return a
            raise Unsupported(op)
        if k == 'b':
            op = e[1]
            if op in ('Land', 'Lor'):
                a, b = self.ev(e[2]), self.ev(e[3])
                f = z3.And if op == 'Land' else z3.Or
                return vext(poison(1, anyu(a, b), z3.If(f(a.b != 0, b.b != 0), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))), W)
            if op in COMPARE and 'x' in (e[2][0], e[3][0]) and self.wild:
                x, l = (e[3], e[2]) if e[2][0] == 'x' else (e[2], e[3])
                m = max(self.width(x), self.width(l))
                care, val = pattern(l)
                c = (self.ev(x, m).b & z3.BitVecVal(care | ~((1 << l[1]) - 1), m)) == z3.BitVecVal(val, m)
                return vext(Val(z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))), W)
            if op in COMPARE:
                m = max(self.width(e[2]), self.width(e[3]))
                a, b = self.ev(e[2], m), self.ev(e[3], m)
                c = {'LessThan': lambda: z3.ULT(a.b, b.b), 'GreaterThan': lambda: z3.UGT(a.b, b.b),
                     'LessEq': lambda: z3.ULE(a.b, b.b), 'GreaterEq': lambda: z3.UGE(a.b, b.b),
                     'Eq': lambda: a.b == b.b, 'NotEq': lambda: a.b != b.b, 'Eql': lambda: a.b == b.b,
                     'NotEql': lambda: a.b != b.b}[op]()
                return vext(poison(1, anyu(a, b), z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))), W)
            if op in SHIFT:
                a, b = self.ev(e[2], W), self.ev(e[3])
                n = max(a.w, b.w)
                x, y = zext(a.b, n), zext(b.b, n)
                r = x << y if op in ('Sll', 'Sla') else z3.LShR(x, y)
                if n > W:
                    r = z3.Extract(W - 1, 0, r)
                return poison(W, anyu(a, b), r)
            if op == 'Power':
                a = self.ev(e[2], W)
                n = kint(self.cint(e[3]))
                r = z3.BitVecVal(1, W)
                for _ in range(n):
                    r = r * a.b
                return poison(W, anyu(a), r)
            a, b = self.ev(e[2], W), self.ev(e[3], W)
            us = anyu(a, b)
            if op in ('And', 'Xor', 'Or', 'Xnor'):
                r = {'And': lambda: a.b & b.b, 'Or': lambda: a.b | b.b, 'Xor': lambda: a.b ^ b.b,
                     'Xnor': lambda: ~(a.b ^ b.b)}[op]()
                if us:
                    z = z3.BitVecVal(0, W)
                    return Val(r, (a.u if a.u is not None else z) | (b.u if b.u is not None else z))
                return Val(r)
            r = {'Plus': lambda: a.b + b.b, 'Minus': lambda: a.b - b.b, 'Times': lambda: a.b * b.b,
                 'Divide': lambda: z3.UDiv(a.b, b.b), 'Mod': lambda: z3.URem(a.b, b.b)}[op]()
            return poison(W, us, r)
        if k == '?':
            c, us = self.truth(e[1])
            r = vite(c, self.ev(e[2], W), self.ev(e[3], W))
            if us:
                z = z3.BitVecVal(0, W)
                r = Val(r.b, z3.If(z3.Or(us), z3.BitVecVal(-1, W), r.u if r.u is not None else z))
            return r
        if k in ('cat', 'rep'):
            items = list(e[1]) if k == 'cat' else list(e[2]) * kint(self.cint(e[1]))
            vs = [self.ev(x) for x in items]
            if len(vs) == 1:
                return vext(vs[0], W)
            b = z3.Concat(*[v.b for v in vs])
            u = None
            if any(v.u is not None for v in vs):
                u = z3.Concat(*[v.u if v.u is not None else z3.BitVecVal(0, v.w) for v in vs])
            return vext(Val(b, u), W)
        if k == 'sel':
            m, l = kint(self.cint(e[2])), kint(self.cint(e[3]))
            return vext(self.part(self.holding(e[1], max(m, l)), m, l, self.lsb_of(e[1])), W)
        if k == 'idx':
            if e[1][0] == 's' and e[1][1] in self.arrays:
                f, aw = self.arrays[e[1][1]]
                i = self.ev(e[2], 32)
                return vext(poison(aw, anyu(i), f(zext(i.b, 32))), W)
            if self.is_const(e[2]):
                i = kint(self.cint(e[2]))
                return vext(self.part(self.holding(e[1], i), i, i, self.lsb_of(e[1])), W)
            a, i = self.ev(e[1]), self.ev(e[2])
            l = self.lsb_of(e[1])
            n = max(a.w, i.w) + 1
            y = z3.BitVecVal(l[1], n) - zext(i.b, n) if isinstance(l, tuple) else zext(i.b, n) - z3.BitVecVal(l, n)
            b = z3.Extract(0, 0, z3.LShR(zext(a.b, n), y))
            inb = z3.ULT(y, z3.BitVecVal(a.w, n))
            u = z3.If(inb, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1))
            if a.u is not None:
                u = u | z3.Extract(0, 0, z3.LShR(zext(a.u, n), y))
            if i.u is not None:
                u = z3.If(i.u != 0, z3.BitVecVal(1, 1), u)
            return vext(Val(b, u), W)
        if k == 'call':
            rw, f = self.funcs[e[1]]
            return vext(f([self.ev(x) if pw is None else vext(self.ev(x, pw), pw)
                           for x, pw in zip(e[2], self.funcs[e[1] + '.ports'])]), W)
        raise Unsupported(k)

    def holding(self, e, bit):
        """operand of a select.  A select from an operator exists only in dataflow trees (it takes a part of an assigned
        value): the operator is then evaluated wide enough to contain the selected bits, as the assignment does."""
        return self.ev(e, bit + 1 if self.wild and e[0] in ('u', 'b', '?') else None)

    def lsb_of(self, e):
        return self.lsbs.get(e[1], 0) if e[0] == 's' else 0

    def part(self, v, msb, lsb, base=0):
        if isinstance(base, tuple):      # ascending range: ('up', index of the LSB)
            m, l = base[1] - msb, base[1] - lsb
        else:
            m, l = msb - base, lsb - base
        if m < l:
            m, l = l, m
        n = m - l + 1
        outs, outu = [], []
        undef = v.u is not None
        for i in range(l, m + 1):
            if 0 <= i < v.w:
                outs.append(z3.Extract(i, i, v.b))
                outu.append(z3.Extract(i, i, v.u) if v.u is not None else z3.BitVecVal(0, 1))
            else:
                undef = True
                outs.append(z3.BitVecVal(0, 1))
                outu.append(z3.BitVecVal(1, 1))
        if not undef and n > 1:
            return Val(z3.Extract(m, l, v.b))
        b = outs[0] if n == 1 else z3.Concat(*reversed(outs))
        u = outu[0] if n == 1 else z3.Concat(*reversed(outu))
        return Val(b, u if undef else None)


def same(a, b):
    """equal values: same undefined bits, same value on the defined ones"""
    w = max(a.w, b.w)
    a, b = vext(a, w), vext(b, w)
    if a.u is None and b.u is None:
        return a.b == b.b
    z = z3.BitVecVal(0, w)
    au = a.u if a.u is not None else z
    bu = b.u if b.u is not None else z
    return z3.And(au == bu, (a.b & ~au) == (b.b & ~bu))


def refines(ref, got):
    """got has the value of ref on every bit that ref defines"""
    w = max(ref.w, got.w)
    a, b = vext(ref, w), vext(got, w)
    z = z3.BitVecVal(0, w)
    au = a.u if a.u is not None else z
    bu = b.u if b.u is not None else z
    return z3.And((bu & ~au) == 0, (a.b & ~au) == (b.b & ~au))


# ---------------------------------------------------------------------------- statements
class Exec(object):
    """Executes a statement; cur = blocking state, nxt = scheduled nonblocking values (whole signals)."""

    def __init__(self, env, widths, lsbs=None, consts=None, arrays=None, funcs=None):
        self.widths, self.lsbs, self.consts = widths, lsbs or {}, consts or {}
        self.arrays, self.funcs = arrays, funcs
        self.cur = dict(env)
        self.nxt = {}

    def sem(self, cur):
        return Sem(dict(cur), self.consts, self.arrays, self.lsbs, self.funcs)

    def run(self, s):
        self.cur, self.nxt = self._run(s, self.cur, self.nxt)
        out = dict(self.cur)
        out.update(self.nxt)
        return out

    def lvwidth(self, lv, cur):
        return self.sem(cur).width(lv)

    def store(self, lv, v, cur, dst):
        """dst[...] updated functionally; bits not named keep their value"""
        if lv[0] == 'cat':
            pos = sum(self.lvwidth(x, cur) for x in lv[1])
            for x in lv[1]:
                n = self.lvwidth(x, cur)
                pos -= n
                sub = Val(z3.Extract(pos + n - 1, pos, v.b), None if v.u is None else z3.Extract(pos + n - 1, pos, v.u))
                dst = self.store(x, sub, cur, dst)
            return dst
        n = lv[1] if lv[0] == 's' else lv[1][1]
        w = self.widths[n]
        dst = dict(dst)
        old = dst.get(n, cur[n])
        if lv[0] == 's':
            dst[n] = vext(v, w)
            return dst
        sem = self.sem(cur)
        base = self.lsbs.get(n, 0)
        if lv[0] == 'idx':
            if not sem.is_const(lv[2]):
                i = sem.ev(lv[2])
                b, u = old.b, old.u
                for j in range(w):
                    hit = i.b == z3.BitVecVal(j + base, i.w) if (j + base) < (1 << i.w) else z3.BoolVal(False)
                    m = z3.BitVecVal(1 << j, w)
                    b = z3.If(hit, (b & ~m) | (zext(v.b, w) << j), b)
                dst[n] = Val(b, u)
                return dst
            msb = lsb = kint(sem.cint(lv[2]))
        else:
            msb, lsb = kint(sem.cint(lv[2])), kint(sem.cint(lv[3]))
        m, l = (base[1] - msb, base[1] - lsb) if isinstance(base, tuple) else (msb - base, lsb - base)
        m, l = max(m, l), min(m, l)
        dst[n] = overlay(old, vext(v, m - l + 1), l, w)
        return dst

    def _run(self, s, cur, nxt):
        k = s[0]
        if k == 'null':
            return cur, nxt
        if k == 'seq':
            for x in s[1]:
                cur, nxt = self._run(x, cur, nxt)
            return cur, nxt
        if k in ('=', '<='):
            w = self.lvwidth(s[1], cur)
            v = vext(self.sem(cur).ev(s[2], w), w)
            if k == '=':
                return self.store(s[1], v, cur, cur), nxt
            return cur, self.store(s[1], v, cur, nxt)
        if k == 'if':
            c, us = self.sem(cur).truth(s[1])
            return self._merge(c, self._run(s[2], cur, nxt), self._run(s[3], cur, nxt) if s[3] else (cur, nxt), cur)
        if k in ('case', 'casex', 'casez'):
            items = [x for x in s[2] if x[0] is not None] + [x for x in s[2] if x[0] is None]
            return self._case(k, s[1], items, cur, nxt)
        if k in ('for', 'while'):
            sem = self.sem(cur)
            i = kint(sem.cint(s[2]))
            n = 0
            while True:
                saved = dict(self.consts)
                self.consts = dict(self.consts)
                self.consts[s[1]] = i
                go = kint(self.sem(cur).cint(s[3]))
                if not go:
                    self.consts = saved
                    return cur, nxt
                cur, nxt = self._run(s[5], cur, nxt)
                i = kint(self.sem(cur).cint(s[4]))
                self.consts = saved
                n += 1
                assert n < 64
        raise Unsupported(k)

    def _case(self, kind, e, items, cur, nxt):
        if not items:
            return cur, nxt
        labs, body = items[0]
        if labs is None:
            return self._run(body, cur, nxt)
        sem = self.sem(cur)
        cs = []
        wmax = max([sem.width(e)] + [sem.width(l) for ls, _ in items if ls for l in ls])
        for l in labs:
            if l[0] == 'x':
                care, val = pattern(l)
                a = sem.ev(e, wmax).b
                cs.append((a & z3.BitVecVal(care | ~((1 << l[1]) - 1), wmax)) == z3.BitVecVal(val, wmax))
            else:
                cs.append(sem.ev(e, wmax).b == sem.ev(l, wmax).b)
        return self._merge(z3.Or(cs), self._run(body, cur, nxt), self._case(kind, e, items[1:], cur, nxt), cur)

    def _merge(self, c, a, b, cur):
        out = []
        for x, y in zip(a, b):
            m = {}
            for n in set(x) | set(y):
                p, q = x.get(n), y.get(n)
                p = p if p is not None else cur[n]      # a register not scheduled keeps its value
                q = q if q is not None else cur[n]
                m[n] = p if p is q else vite(c, p, q)
            out.append(m)
        return tuple(out)


def pattern(l):
    t = l[2].split("'")[1][1:].replace('_', '')
    care = int(''.join('0' if ch in 'xXzZ?' else '1' for ch in t), 2)
    val = int(''.join('0' if ch in 'xXzZ?' else ch for ch in t), 2)
    return care, val


def overlay(old, v, l, w):
    """bits l.. of old replaced by v"""
    h = l + v.w

    def put(o, x):
        parts = []
        if h < w:
            parts.append(z3.Extract(w - 1, h, o))
        parts.append(x)
        if l > 0:
            parts.append(z3.Extract(l - 1, 0, o))
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)
    if l >= w or l < 0:
        return old
    if h > w:
        v = vext(v, w - l)
        h = w
    z = z3.BitVecVal(0, w)
    u = None
    if old.u is not None or v.u is not None:
        u = put(old.u if old.u is not None else z, v.u if v.u is not None else z3.BitVecVal(0, v.w))
    return Val(put(old.b, v.b), u)


# ---------------------------------------------------------------------------- the real pipeline
_parser = None


def setup_parser():
    """One real parser (LALR tables take a second), built before the workers fork."""
    global _parser
    if _parser is None:
        t = target.load()
        with quiet():
            _parser = t.vparser.VerilogParser(outputdir=target.scratch(), debug=False)
    return _parser


@contextlib.contextmanager
def quiet():
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def parse(text):
    p = setup_parser()
    lx = p.lexer
    lx.reset_lineno()
    lx.directives = []
    lx.default_nettype = 'wire'
    try:
        lx.lexer.begin('INITIAL')
    except Exception:
        pass
    with quiet():
        return p.parse(text)


class Flow(object):
    """result of the dataflow analysis of one text"""

    def __init__(self, analyzer, raw=False):
        self.an = analyzer
        self.terms_raw = analyzer.getTerms()
        self.binds_raw = analyzer.getBinddict()
        if raw:
            return
        self.terms = {str(k): v for k, v in self.terms_raw.items()}
        self.binds = {}
        for k, v in self.binds_raw.items():
            self.binds.setdefault(str(k), []).extend(v)

    def term(self, n):
        return self.terms['TOP.' + n] if 'TOP.' + n in self.terms else self.terms[n]


def analyze(text, top='TOP', noreorder=False, raw=False):
    """text: source text, or a tree that has been parsed already"""
    t = target.load()
    cp = t.vparser.VerilogCodeParser
    orig = cp.__init__

    class A(t.dataflow_analyzer.VerilogDataflowAnalyzer):
        def parse(self, *a, **k):
            return parse(text) if isinstance(text, str) else text
    cp.__init__ = lambda self, *a, **k: None
    try:
        an = A([text], topmodule=top, noreorder=noreorder)
    finally:
        cp.__init__ = orig
    with quiet():
        an.generate()
    return Flow(an, raw)


# ---------------------------------------------------------------------------- dataflow trees
def lit(text):
    """literal text -> mini AST"""
    ctx = E.cur()
    t = text.replace('_', '')
    if "'" not in t:
        v = ctx.str2num(t)
        return ('k', int(t) if v is None else v, None, 10)
    size, rest = t.split("'", 1)
    if rest[:1] in 'sS':
        rest = rest[1:]
    base = {'d': 10, 'h': 16, 'o': 8, 'b': 2}[rest[0].lower()]
    digs = rest[1:]
    w = None
    if size:
        w = ctx.str2num(size)
        w = int(size) if w is None else w
    v = ctx.str2num(digs)
    if v is None:
        if any(c in 'xXzZ?' for c in digs):
            ww = 32 if w is None else kint(w)
            if base == 2 and len(digs) <= ww:
                return ('x', ww, text)
            return ('x', ww, text)
        v = int(digs, base)
    return ('k', v, w, base)


def df2e(t, d):
    """dataflow tree -> mini AST (names are full dotted names)"""
    n = type(t).__name__
    if t is None:
        return ('hold',)
    if n == 'DFTerminal':
        return ('s', str(t.name))
    if n == 'DFIntConst':
        return lit(str_(t.value))
    if n == 'DFEvalValue':
        if t.isstring or t.isfloat:
            raise Unsupported('string/real')
        return ('k', t.value, t.width, 10)
    if n == 'DFUndefined' or n == 'DFHighImpedance':
        return ('undef', t.width)
    if n == 'DFOperator':
        ch = [df2e(x, d) for x in t.nextnodes]
        return ('u', t.operator, ch[0]) if len(ch) == 1 else ('b', t.operator, ch[0], ch[1])
    if n == 'DFBranch':
        return ('?', df2e(t.condnode, d), df2e(t.truenode, d), df2e(t.falsenode, d))
    if n == 'DFConcat':
        return ('cat', [df2e(x, d) for x in t.nextnodes])
    if n == 'DFPartselect':
        m, l = df2e(t.msb, d), df2e(t.lsb, d)
        v = df2e(t.var, d)
        if m == l or (t.msb == t.lsb) is True:
            return ('idx', v, m)
        return ('sel', v, m, l)
    if n == 'DFPointer':
        return ('idx', df2e(t.var, d), df2e(t.ptr, d))
    raise Unsupported(n)


def str_(x):
    return x if isinstance(x, str) else str(x)


def leaves(t, acc=None):
    """names of the terminals of a dataflow tree"""
    acc = set() if acc is None else acc
    if t is None:
        return acc
    if type(t).__name__ == 'DFTerminal':
        acc.add(str(t.name))
        return acc
    for a in ('condnode', 'truenode', 'falsenode', 'var', 'msb', 'lsb', 'ptr', 'nextnode'):
        if hasattr(t, a):
            leaves(getattr(t, a), acc)
    for x in getattr(t, 'nextnodes', None) or ():
        leaves(x, acc)
    return acc


class DFEval(object):
    """Evaluates the recorded drivers of signals.  env: full name -> Val of the signals that are given."""

    def __init__(self, flow, env, consts=None, arrays=None, lsbs=None, default_hold=None):
        self.flow = flow
        self.given = dict(env)
        self.consts = consts or {}
        self.arrays = arrays or {}
        self.lsbs = dict(lsbs or {})
        self.memo = {}
        self.stack = []
        self.free = ()      # signals undefined before the block that computes them (locals of functions)

    def term_width(self, n):
        t = self.flow.terms[n]
        if t.msb is None:
            return 1
        s = Sem({}, self.consts)
        a, b = kint(s.cint(df2e(t.msb, None))), kint(s.cint(df2e(t.lsb, None)))
        return abs(a - b) + 1

    def term_lsb(self, n):
        t = self.flow.terms[n]
        if t.lsb is None:
            return 0
        return kint(Sem({}, self.consts).cint(df2e(t.lsb, None)))

    def env(self):
        d = {}
        for n in self.flow.terms:
            if n in self.given:
                d[n] = self.given[n]
            elif n in self.consts:
                continue
            elif n in self.flow.binds:
                d[n] = (lambda n=n: self.driven(n))
        return d

    def sem(self, hold):
        s = Sem(self.env(), self.consts, self.arrays, self.lsbs, hold=hold)
        s.wild = True
        return s

    def tree(self, tree, w, hold=None):
        """value of a tree assigned to w bits"""
        e = df2e(tree, None)
        return self.assigned(self.sem(hold), e, w)

    def assigned(self, sem, e, w):
        # conditionals at the root are procedural branches: every arm is an assignment of its own
        if e[0] == '?':
            c, us = sem.truth(e[1])
            a = self.assigned(sem, e[2], w)
            b = self.assigned(sem, e[3], w)
            r = vite(c, a, b)
            if us:
                z = z3.BitVecVal(0, w)
                r = Val(r.b, z3.If(z3.Or(us), z3.BitVecVal(-1, w), r.u if r.u is not None else z))
            return r
        return vext(sem.ev(e, w), w)

    def driven(self, n, old=None):
        """value the recorded drivers give signal n (old: value kept / base value; default undefined)"""
        if n in self.memo and old is None:
            return self.memo[n]
        if n in self.stack:
            if n in self.free:
                w = self.term_width(n)
                return Val(z3.BitVecVal(0, w), z3.BitVecVal(-1, w))
            raise Unsupported('cyclic drivers of %s' % n)
        self.stack.append(n)
        try:
            w = self.term_width(n)
            cur = old if old is not None else Val(z3.BitVecVal(0, w), z3.BitVecVal(-1, w))
            for b in self.flow.binds.get(n, []):
                if b.ptr is not None:
                    raise Unsupported('array element')
                if b.msb is None:
                    cur = self.tree(b.tree, w, cur)
                else:
                    s = Sem({}, self.consts)
                    m, l = kint(s.cint(df2e(b.msb, None))), kint(s.cint(df2e(b.lsb, None)))
                    base = self.lsbs.get(n, 0)
                    m, l = (base[1] - m, base[1] - l) if isinstance(base, tuple) else (m - base, l - base)
                    if m < l:
                        m, l = l, m
                    part = Sem({}).part(cur, m, l)
                    v = self.tree(b.tree, m - l + 1, part)
                    cur = overlay(cur, v, l, w)
        finally:
            self.stack.pop()
        if old is None:
            self.memo[n] = cur
        return cur


def text_module(decls, body, name='TOP', ports=None):
    return 'module %s(%s);\n%s%sendmodule\n' % (name, ', '.join(ports or []), decls, body)


def rng(w):
    """[w-1:0] text; one bit has no range"""
    return '' if w == 1 else '[%d:0] ' % (w - 1)


def walker(flow, top='TOP'):
    """the real optimizer and walker over an analysis result"""
    t = target.load()
    o = t.optimizer.VerilogDataflowOptimizer(flow.terms_raw, flow.binds_raw)
    o.resolveConstant()
    w = t.walker.VerilogDataflowWalker(top, flow.terms_raw, flow.binds_raw, o.getResolvedTerms(), o.getResolvedBinddict(),
                                       o.getConstlist())
    w.resolver = o
    return w


def name_of(flow, full):
    for k in flow.terms_raw:
        if str(k) == full:
            return k
    raise KeyError(full)
