"""A small symbolic-execution engine for Python code, deciding with z3.

The code under analysis is the real, imported Python code.  Inputs are proxies (SymInt, SymBool, SymStr ...)
whose operations build z3 terms; whenever the code needs a concrete truth value, the engine asks the solver
which outcomes are possible under the path condition and explores all of them (depth-first re-execution).
At the end of every path the harness states an assertion over the remaining symbolic values; the engine asks
the solver for a counterexample over *all* of them.

A SymInt models Python's unbounded integers exactly: it carries an interval and a two's-complement bit-vector
wide enough for that interval, and widens on every operation, so nothing ever wraps.
"""
import time
import sys
import z3


class Inconclusive(BaseException):
    """The path cannot be followed symbolically (engine limit).  Never a violation."""


class Infeasible(BaseException):
    """An assumption is false on this path."""


class Violation(BaseException):
    """Raised in concrete replay when the assertion is false."""


MAXBITS = 400
CTX = None          # the active context


def cur():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def bits_for(lo, hi):
    """Number of two's complement bits that hold every integer in [lo, hi]."""
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def ext(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


def mk(term, lo, hi):
    """SymInt from a bit-vector term and an interval (a plain int if only one value is possible)."""
    if lo == hi:
        return lo
    w = bits_for(lo, hi)
    if w > MAXBITS:
        raise Inconclusive('integer wider than %d bits' % MAXBITS)
    term = ext(term, w)
    if z3.is_bv_value(term):
        return term.as_signed_long()
    return SymInt(term, lo, hi)


def lift(x):
    """(term, lo, hi) of an int-like value, or None."""
    if isinstance(x, SymInt):
        return x.t, x.lo, x.hi
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    if x is True or x is False:
        x = int(x)
    if type(x) is int:
        return z3.BitVecVal(x, bits_for(x, x)), x, x
    return None


def sym_ite(c, a, b):
    """Integer if-then-else on a z3 Bool."""
    la, lb = lift(a), lift(b)
    lo, hi = min(la[1], lb[1]), max(la[2], lb[2])
    w = bits_for(lo, hi)
    return mk(z3.If(c, ext(la[0], w), ext(lb[0], w)), lo, hi)


class SymBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return CTX.branch(self.t)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t)
        if o is True:
            return self
        if o is False:
            return mkbool(z3.Not(self.t))
        return SymInt.__eq__(_b2i(self), o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.t, o.t))
        if o is True:
            return self
        if o is False:
            return False
        return _b2i(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.t, o.t))
        if o is True:
            return True
        if o is False:
            return self
        return _b2i(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.t, o.t))
        return _b2i(self) ^ o
    __rxor__ = __xor__

    def __add__(self, o): return _b2i(self) + o
    def __radd__(self, o): return o + _b2i(self)
    def __sub__(self, o): return _b2i(self) - o
    def __rsub__(self, o): return o - _b2i(self)
    def __mul__(self, o): return _b2i(self) * o
    __rmul__ = __mul__
    def __lshift__(self, o): return _b2i(self) << o
    def __lt__(self, o): return _b2i(self) < o
    def __le__(self, o): return _b2i(self) <= o
    def __gt__(self, o): return _b2i(self) > o
    def __ge__(self, o): return _b2i(self) >= o
    def __neg__(self): return -_b2i(self)
    def __invert__(self): return ~_b2i(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return repr(bool(self))
    __str__ = __repr__

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def _b2i(b):
    return mk(z3.If(b.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def _isint(x):
    return isinstance(x, (SymInt, SymBool)) or type(x) is int or x is True or x is False


class SymRatio(object):
    """a / b on integers, to be truncated by int()."""

    def __init__(self, a, b):
        self.a, self.b = a, b

    @property
    def __class__(self):
        return float

    def trunc(self):
        q = abs(self.a) // abs(self.b)
        neg = bool((self.a < 0) != (self.b < 0)) if not _always_nonneg(self.a, self.b) else False
        return -q if neg else q

    def __int__(self): return int(concretize(self.trunc()))
    __trunc__ = __int__

    def __float__(self):
        return float(concretize(self.a)) / float(concretize(self.b))

    def __mod__(self, o):
        return self.__float__() % o

    def __eq__(self, o):
        if isinstance(o, SymRatio):
            return self.a * o.b == o.a * self.b
        if _isint(o):
            return self.a == self.b * o
        return float(self) == o

    def __hash__(self):
        return hash(float(self))

    def __bool__(self):
        return bool(self.a != 0)

    def __floor__(self):
        return self.a // self.b

    def __ceil__(self):
        return -((-self.a) // self.b)


def _always_nonneg(*xs):
    return all(lift(x)[1] >= 0 for x in xs)


class SymLog2(object):
    """math.log(x, 2) / math.log2(x) for a positive symbolic integer."""

    def __init__(self, x):
        self.x = x

    @property
    def __class__(self):
        return float

    def __mod__(self, o):
        if o == 1 or o == 1.0:
            x = self.x
            if (x & (x - 1)) == 0:
                return 0.0
            return 0.5
        raise Inconclusive('log2 % n')

    def is_integer(self):
        return bool((self.x & (self.x - 1)) == 0)

    def floor(self):
        return self.x.bit_length() - 1

    def __floor__(self): return self.floor()
    def __int__(self): return int(self.floor())
    __trunc__ = __int__

    def __ceil__(self):
        return (self.x - 1).bit_length()

    def __eq__(self, o):
        if _isint(o) or (isinstance(o, float) and o == int(o)):
            return self.x == (1 << int(o))
        return False

    def __hash__(self):
        raise Inconclusive('hash of log')


class SymInt(object):
    __slots__ = ('t', 'lo', 'hi')

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    # -- type tests -------------------------------------------------------
    @property
    def __class__(self):
        return int

    # -- arithmetic -------------------------------------------------------
    def _bin(self, o, lo, hi, f, rev=False):
        lo_ = lift(o)
        w = max(bits_for(lo, hi), self.t.size(), lo_[0].size())
        if w > MAXBITS:
            raise Inconclusive('integer wider than %d bits' % MAXBITS)
        a, b = ext(self.t, w), ext(lo_[0], w)
        if rev:
            a, b = b, a
        return mk(z3.simplify(f(a, b)), lo, hi)

    def __add__(self, o):
        if not _isint(o):
            return NotImplemented
        l = lift(o)
        return self._bin(o, self.lo + l[1], self.hi + l[2], lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if not _isint(o):
            return NotImplemented
        l = lift(o)
        return self._bin(o, self.lo - l[2], self.hi - l[1], lambda a, b: a - b)

    def __rsub__(self, o):
        if not _isint(o):
            return NotImplemented
        l = lift(o)
        return self._bin(o, l[1] - self.hi, l[2] - self.lo, lambda a, b: a - b, rev=True)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        return sym_ite(self.t < 0, n, self) if self.hi > 0 else n

    def __mul__(self, o):
        if not _isint(o):
            if isinstance(o, (str, tuple, list)):
                return o * concretize(self)
            return NotImplemented
        l = lift(o)
        c = [self.lo * l[1], self.lo * l[2], self.hi * l[1], self.hi * l[2]]
        return self._bin(o, min(c), max(c), lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _isint(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError('division by zero')
        return SymRatio(self, o)

    def __rtruediv__(self, o):
        if not _isint(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError('division by zero')
        return SymRatio(o, self)

    def __floordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(o, self)[0]

    def __mod__(self, o):
        if not _isint(o):
            return NotImplemented
        return _divmod(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        if not _isint(o):
            return NotImplemented
        return _divmod(o, self)[1]

    def __divmod__(self, o):
        return _divmod(self, o)

    def __rdivmod__(self, o):
        return _divmod(o, self)

    def __pow__(self, o, mod=None):
        if not _isint(o):
            return NotImplemented
        return _pow(self, o)

    def __rpow__(self, o):
        if not _isint(o):
            return NotImplemented
        return _pow(o, self)

    def __lshift__(self, o):
        if not _isint(o):
            return NotImplemented
        return _shl(self, o)

    def __rlshift__(self, o):
        if not _isint(o):
            return NotImplemented
        return _shl(o, self)

    def __rshift__(self, o):
        if not _isint(o):
            return NotImplemented
        return _shr(self, o)

    def __rrshift__(self, o):
        if not _isint(o):
            return NotImplemented
        return _shr(o, self)

    def __and__(self, o):
        if not _isint(o):
            return NotImplemented
        l = lift(o)
        if self.lo >= 0 and l[1] >= 0:
            lo, hi = 0, min(self.hi, l[2])
        elif self.lo >= 0:
            lo, hi = 0, self.hi
        elif l[1] >= 0:
            lo, hi = 0, l[2]
        else:
            w = max(self.t.size(), l[0].size())
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return self._bin(o, lo, hi, lambda a, b: a & b)
    __rand__ = __and__

    def _orx(self, o, f):
        l = lift(o)
        w = max(self.t.size(), l[0].size())
        lo = 0 if (self.lo >= 0 and l[1] >= 0) else -(1 << (w - 1))
        return self._bin(o, lo, (1 << (w - 1)) - 1, f)

    def __or__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._orx(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        if not _isint(o):
            return NotImplemented
        return self._orx(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return -1 - self

    # -- comparison -------------------------------------------------------
    def _cmp(self, o, f, ifnot=NotImplemented):
        if not _isint(o):
            if isinstance(o, SymRatio):
                return f(self.t, self.t) if False else NotImplemented
            if isinstance(o, float):
                if o == int(o):
                    o = int(o)
                else:
                    return f(concretize(self), o)
            else:
                return ifnot
        l = lift(o)
        w = max(self.t.size(), l[0].size())
        return mkbool(f(ext(self.t, w), ext(l[0], w)))

    def __eq__(self, o):
        if _isint(o):
            l = lift(o)
            if l[2] < self.lo or l[1] > self.hi:
                return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if _isint(o):
            l = lift(o)
            if l[2] < self.lo or l[1] > self.hi:
                return True
        r = self._cmp(o, lambda a, b: a != b)
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # -- conversions ------------------------------------------------------
    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return CTX.branch(self.t != 0)

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)
    __trunc__ = __int__

    def __float__(self):
        return float(concretize(self))

    def __hash__(self):
        return hash(concretize(self))

    def __str__(self):
        return CTX.num2str(self)
    __repr__ = __str__

    def __format__(self, spec):
        if spec in ('', 'd', 's'):
            return str(self)
        return format(concretize(self), spec)

    def bit_length(self):
        a = abs(self)
        n = 0
        while True:
            if a < (1 << n):
                return n
            n += 1

    def bit_count(self):
        r = 0
        a = abs(self)
        for i in range(lift(a)[0].size()):
            r = r + ((a >> i) & 1)
        return r

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    real = numerator
    imag = 0

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __reduce__(self):
        raise Inconclusive('pickling a symbolic integer')


def _divmod(a, b):
    la, lb = lift(a), lift(b)
    if b == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    m = max(abs(la[1]), abs(la[2]))
    if la[1] >= 0 and lb[1] >= 0:
        w = max(la[0].size(), lb[0].size())
        x, y = ext(la[0], w), ext(lb[0], w)
        return (mk(z3.UDiv(x, y), 0, la[2]), mk(z3.URem(x, y), 0, max(0, min(la[2], lb[2] - 1))))
    w = max(la[0].size(), lb[0].size()) + 1
    x, y = ext(la[0], w), ext(lb[0], w)
    q, r = x / y, z3.SRem(x, y)
    fix = z3.And(r != 0, (x < 0) != (y < 0))
    one = z3.BitVecVal(1, w)
    mb = max(abs(lb[1]), abs(lb[2]))
    return (mk(z3.If(fix, q - one, q), -m - 1, m), mk(z3.If(fix, r + y, r), -mb, mb))


def _pow(a, b):
    n = concretize(b)
    if n < 0:
        raise Inconclusive('negative exponent')
    r = 1
    for _ in range(n):
        r = r * a
    return r


def _shl(a, s):
    if s < 0:
        raise ValueError('negative shift count')
    la, ls = lift(a), lift(s)
    hs = ls[2]
    if bits_for(la[1], la[2]) + hs > MAXBITS:
        s = concretize(s)
        hs = s
        ls = lift(s)
    c = [la[1] << hs, la[2] << hs, la[1] << max(ls[1], 0), la[2] << max(ls[1], 0)]
    lo, hi = min(c), max(c)
    w = max(bits_for(lo, hi), ls[0].size())
    if w > MAXBITS:
        raise Inconclusive('shift too large')
    return mk(z3.simplify(ext(la[0], w) << ext(ls[0], w)), lo, hi)


def _shr(a, s):
    if s < 0:
        raise ValueError('negative shift count')
    la, ls = lift(a), lift(s)
    w = max(la[0].size(), ls[0].size())
    lo, hi = min(la[1], la[1] >> max(ls[1], 0), la[1] >> ls[2]), max(la[2], la[2] >> max(ls[1], 0), la[2] >> ls[2])
    lo = min(la[1], 0) if la[1] < 0 else 0
    hi = max(la[2] >> max(ls[1], 0), -1 if la[2] < 0 else 0)
    return mk(z3.simplify(ext(la[0], w) >> ext(ls[0], w)), lo, max(hi, lo))


def concretize(x):
    """Fork over the feasible values of x (solver models), returning a plain int."""
    if isinstance(x, SymBool):
        return int(bool(x))
    if isinstance(x, SymInt):
        return CTX.concretize(x)
    return x


def as_bv(x, width):
    """Value of an int-like modulo 2**width as a bit-vector term."""
    l = lift(x)
    return z3.simplify(ext(l[0], width))


# ---------------------------------------------------------------------------
def text(m):
    """messages and notes may be given as functions, called only when needed"""
    global TELLING
    if callable(m):
        was, TELLING = TELLING, True
        try:
            return m()
        except Exception as e:
            return '<no text: %r>' % (e,)
        finally:
            TELLING = was
    return m


TELLING = False       # a message is being made: symbolic values are not looked into


def note_text(n):
    return repr(tuple(text(x) for x in n))


class Counterexample(object):
    def __init__(self, msg, inputs, detail):
        self.msg, self.inputs, self.detail = text(msg), inputs, detail


class BaseCtx(object):
    symbolic = False

    def _uname(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)


NARROW = None        # set by symstr


class SymCtx(BaseCtx):
    """Explores every path of a harness."""
    symbolic = True

    def __init__(self, tier='quick', max_paths=100000, deadline=None, qtimeout=20000, conc_limit=300):
        self.tier = tier
        self.deadline = deadline
        self.max_paths = max_paths
        self.qtimeout = qtimeout
        self.conc_limit = conc_limit
        self.solver = z3.Solver()
        self.solver.set('timeout', qtimeout)
        self.log = []          # decisions: [kind, chosen, pending list, extra]
        self.nlev = 0
        self.stats = dict(paths=0, infeasible=0, inconclusive=0, branches=0, queries=0, checks=0,
                          discharged=0, unknown=0, solver_s=0.0, truncated=0)
        self.inc_reasons = {}
        self.covers = {}
        self.cexs = []
        self.known_hits = {}
        self.known_regions = {}
        self.samples = []
        self.modelcache = None

    # -- exploration --------------------------------------------------------
    def explore(self, fn, stop_on_cex=True):
        set_ctx(self)
        self.stop = False
        while True:
            self.begin_path()
            try:
                fn(self)
                self.stats['paths'] += 1
                if len(self.samples) < 2:
                    self.samples.append(dict(self.describe()))
            except Infeasible:
                self.stats['infeasible'] += 1
            except Inconclusive as e:
                self.stats['inconclusive'] += 1
                k = str(e)[:100]
                self.inc_reasons[k] = self.inc_reasons.get(k, 0) + 1
            except _StopPath:
                self.stats['paths'] += 1
            if self.cexs and stop_on_cex:
                break
            if self.stop:
                self.stats['truncated'] = 1
                break
            if not self.backtrack():
                break
            if self.stats['paths'] >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.stats['truncated'] = 1
                break
        set_ctx(None)

    def begin_path(self):
        self.pos = 0
        self.dom = {}         # character variable -> values still possible (see symstr)
        self.names = {}
        self.inputs = {}
        self.sigs = {}
        self.ph = {}          # placeholder digits -> SymInt
        self.phrev = {}
        self.notes = []
        self.sidecnt = 0

    def backtrack(self):
        while self.log:
            kind, chosen, pending, extra = self.log[-1]
            if kind != 'choose':
                self.solver.pop()
                self.nlev -= 1
            if pending:
                nxt = pending.pop(0)
                if kind == 'choose':
                    self.log[-1][1] = nxt
                else:
                    self.solver.push()
                    self.nlev += 1
                    self.solver.add(extra[1] if nxt is False else extra[0])
                    self.log[-1][1] = nxt
                return True
            self.log.pop()
        return False

    def _check(self, *assumptions):
        t0 = time.time()
        r = self.solver.check(*assumptions)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        return r

    def branch(self, cond):
        if TELLING:
            return False
        if isinstance(cond, SymBool):
            cond = cond.t
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'branch':
                raise Inconclusive('non-deterministic re-execution')
            self.pos += 1
            return e[1]
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget')
        self.stats['branches'] += 1
        neg = z3.Not(cond)
        self.solver.push()
        self.solver.add(cond)
        rt = self._check()
        if rt == z3.unsat:
            self.solver.pop()
            self.solver.push()
            self.solver.add(neg)
            self.nlev += 1
            self.log.append(['branch', False, [], (cond, neg)])
            self.pos += 1
            return False
        self.solver.pop()
        self.solver.push()
        self.solver.add(neg)
        rf = self._check()
        if rf == z3.unsat:
            self.solver.pop()
            self.solver.push()
            self.solver.add(cond)
            self.nlev += 1
            self.log.append(['branch', True, [], (cond, neg)])
            self.pos += 1
            return True
        self.solver.pop()
        self.solver.push()
        self.solver.add(cond)
        self.nlev += 1
        self.log.append(['branch', True, [False], (cond, neg)])
        self.pos += 1
        return True

    def choose(self, name, options):
        """Symbolic choice of a structural alternative: every option is explored."""
        options = list(options)
        name = self._uname(name)
        if len(options) == 1:
            self.inputs[name] = ('choice', 0, repr(options[0])[:60])
            return options[0]
        if self.pos < len(self.log):
            e = self.log[self.pos]
            if e[0] != 'choose':
                raise Inconclusive('non-deterministic re-execution')
            k = e[1]
        else:
            k = 0
            self.log.append(['choose', 0, list(range(1, len(options))), None])
        self.pos += 1
        self.inputs[name] = ('choice', k, repr(options[k])[:60])
        return options[k]

    def concretize(self, x):
        n = 0
        while True:
            if self.pos < len(self.log):
                e = self.log[self.pos]
                if e[0] != 'branch' or len(e[3]) < 3:
                    raise Inconclusive('non-deterministic re-execution')
                v = e[3][2]
                self.pos += 1
                if e[1]:
                    return v
            else:
                if self.deadline and time.time() > self.deadline:
                    raise Inconclusive('time budget')
                if self._check() != z3.sat:
                    raise Inconclusive('solver gave no model')
                m = self.solver.model()
                v = m.eval(x.t, model_completion=True).as_signed_long()
                c = x.t == z3.BitVecVal(v, x.t.size())
                neg = z3.Not(c)
                self.solver.push()
                self.solver.add(neg)
                rf = self._check()
                self.solver.pop()
                self.solver.push()
                self.solver.add(c)
                self.nlev += 1
                self.log.append(['branch', True, [] if rf == z3.unsat else [False], (c, neg, v)])
                self.pos += 1
                self.stats['branches'] += 1
                return v
            n += 1
            if n > self.conc_limit:
                raise Inconclusive('too many values to enumerate')

    # -- inputs ---------------------------------------------------------------
    def int(self, name, lo, hi):
        name = self._uname(name)
        if lo == hi:
            self.inputs[name] = ('const', lo)
            return lo
        w = bits_for(lo, hi)
        t = z3.BitVec(name, w)
        self.inputs[name] = ('int', t)
        full = (lo == 0 and hi == (1 << (w - 1)) - 1)
        if full:
            # represent as zero extension so that no side constraint is needed
            u = z3.BitVec(name, w - 1)
            self.inputs[name] = ('uint', u)
            return SymInt(z3.ZeroExt(1, u), lo, hi)
        self.assume(z3.And(t >= lo, t <= hi))
        return SymInt(t, lo, hi)

    def bool(self, name):
        name = self._uname(name)
        t = z3.Bool(name)
        self.inputs[name] = ('bool', t)
        return SymBool(t)

    def flag(self, name):
        """A boolean input decided (forked) right away."""
        return self.choose(name, [False, True])

    def sig(self, name, width):
        """The value of a signal: only the oracle sees it."""
        k = 'sig:%s' % name
        if k not in self.sigs:
            t = z3.BitVec(k, width)
            self.sigs[k] = t
            self.inputs[k] = ('uint', t)
        return self.sigs[k]

    def byte(self, name):
        name = self._uname(name)
        t = z3.BitVec(name, 8)
        self.inputs[name] = ('uint', t)
        return t

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if NARROW:
            NARROW(self, cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.pos < len(self.log):
            e = self.log[self.pos]
            self.pos += 1
            return
        self.solver.push()
        self.nlev += 1
        self.solver.add(cond)
        self.log.append(['assume', True, [], (cond,)])
        self.pos += 1
        if self._check() == z3.unsat:
            raise Infeasible()

    # -- text -------------------------------------------------------------------
    def num2str(self, x):
        """Decimal text of a symbolic integer: a unique run of the digits 0/1 standing for it."""
        if x.lo < 0:
            if x < 0:
                return '-' + self.num2str(-x) if isinstance(-x, SymInt) else str(-x)
            x = mk(x.t, 0, x.hi)
            if not isinstance(x, SymInt):
                return str(x)
        k = x.t.get_id()
        kk = (k, x.hi)
        for t2, s in self.phrev.get(k, []):
            if z3.eq(t2, x.t):
                return s
        n = len(self.ph)
        s = '1' + format(n, '022b') + '1'
        self.ph[s] = x
        self.phrev.setdefault(k, []).append((x.t, s))
        return s

    def digits(self, v, base=10):
        return str(v) if isinstance(v, SymInt) else _digits(v, base)

    def str2num(self, s):
        """SymInt denoted by a digit string, or None when it is an ordinary string."""
        if s in self.ph:
            return self.ph[s]
        if len(s) >= 24 and any(p in s for p in self.ph):
            raise Inconclusive('text operation inside a symbolic number')
        return None

    # -- assertions -------------------------------------------------------------
    def cover(self, label):
        self.covers[label] = self.covers.get(label, 0) + 1

    def note(self, *a):
        self.notes.append(a)

    def _model_inputs(self, m):
        out = {}
        for n, v in self.inputs.items():
            if v[0] == 'choice':
                out[n] = ['choice', v[1], v[2]]
            elif v[0] == 'const':
                out[n] = ['int', v[1]]
            elif v[0] == 'bool':
                out[n] = ['bool', bool(z3.is_true(m.eval(v[1], model_completion=True)))]
            else:
                x = m.eval(v[1], model_completion=True)
                out[n] = ['int', x.as_long() if v[0] == 'uint' else x.as_signed_long()]
        return out

    def describe(self):
        """A concrete input that follows the current path."""
        try:
            if self._check() != z3.sat:
                return {}
            m = self.solver.model()
            return {n: (v[2] if v[0] == 'choice' else v[1]) for n, v in self._model_inputs(m).items()}
        except z3.Z3Exception:
            return {}

    def check(self, prop, msg='assertion', known=None):
        """Assert prop (a z3 Bool / SymBool / bool) for every value of the remaining symbolic inputs.

        known: list of (finding id, z3 Bool region).  Inside a listed region a failure is the listed finding."""
        if isinstance(prop, SymBool):
            prop = prop.t
        if prop is True or prop is False:
            prop = z3.BoolVal(bool(prop))
        self.stats['checks'] += 1
        if known:
            for kid, region in known:
                if isinstance(region, SymBool):
                    region = region.t
                if region is True or region is False:
                    region = z3.BoolVal(region)
                if kid not in self.known_hits:
                    self.solver.push()
                    self.solver.add(region, z3.Not(prop))
                    if self._check() == z3.sat:
                        m = self._model_inputs(self.solver.model())
                        self.known_hits[kid] = (text(msg), m)
                    self.solver.pop()
                prop = z3.Or(prop, region)
        prop = z3.simplify(prop)
        if z3.is_true(prop):
            self.stats['discharged'] += 1
            return
        t0 = time.time()
        s = z3.SolverFor('QF_BV') if self._bvonly() else z3.Solver()
        s.set('timeout', self.qtimeout * 2)
        s.add(*self.solver.assertions())
        s.add(z3.Not(prop))
        r = s.check()
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return
        if r == z3.unknown:
            self.stats['unknown'] += 1
            return
        self.cexs.append(Counterexample(msg, self._model_inputs(s.model()), [note_text(n) for n in self.notes]))
        raise _StopPath()

    def _bvonly(self):
        return True

    def fail(self, msg, known=None):
        self.check(False, msg, known)

    def require(self, cond, msg='requirement', known=None):
        self.check(cond, msg, known)


class _StopPath(BaseException):
    pass


def _digits(v, base):
    if base == 10:
        return str(v)
    return {16: '%x', 8: '%o'}[base] % v if base in (16, 8) else bin(v)[2:]


class ConcCtx(BaseCtx):
    """Runs a harness on one concrete input, against the unmodified code."""
    symbolic = False

    def __init__(self, inputs, tier='quick'):
        self.given = inputs
        self.tier = tier
        self.names = {}
        self.sigs = {}
        self.notes = []
        self.known_hits = {}
        self.missing = []

    def _get(self, name, default=0):
        if name in self.given:
            return self.given[name][1]
        self.missing.append(name)
        return default

    def choose(self, name, options):
        options = list(options)
        return options[self._get(self._uname(name))]

    def flag(self, name):
        return self.choose(name, [False, True])

    def int(self, name, lo, hi):
        return int(self._get(self._uname(name), lo))

    def bool(self, name):
        return bool(self._get(self._uname(name)))

    def byte(self, name):
        return int(self._get(self._uname(name)))

    def sig(self, name, width):
        k = 'sig:%s' % name
        return z3.BitVecVal(self._get(k), width)

    def branch(self, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        raise Inconclusive('symbolic branch in a concrete run')

    def assume(self, cond):
        if cond is True or cond is False:
            ok = cond
        else:
            ok = z3.is_true(z3.simplify(cond))
        if not ok:
            raise Infeasible()

    def digits(self, v, base=10):
        return _digits(v, base)

    def str2num(self, s):
        return None

    def cover(self, label):
        pass

    def note(self, *a):
        self.notes.append(a)

    def check(self, prop, msg='assertion', known=None):
        if prop is True or prop is False:
            ok = bool(prop)
        else:
            ok = z3.is_true(z3.simplify(prop))
        if not ok:
            raise Violation(text(msg))

    def fail(self, msg, known=None):
        raise Violation(text(msg))

    def require(self, cond, msg='requirement', known=None):
        self.check(cond, msg, known)
