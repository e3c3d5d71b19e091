"""Symbolic strings (concrete length, symbolic characters) and a symbolic regular-expression matcher."""
import builtins
import re as _re
try:
    import re._parser as _sp
    import re._constants as _sc
except ImportError:                      # older Python
    import sre_parse as _sp
    import sre_constants as _sc
import z3
from . import engine as E

BV8 = z3.BitVecSort(8)


def bv(c):
    return z3.BitVecVal(c, 8)


def is_sym(s):
    return type(s) is SymStr


def chars_of(s):
    if type(s) is SymStr:
        return s.c
    return [ord(x) for x in s]


def cid(c):
    """z3 id of a character that is a variable, None for a compound term"""
    try:
        return c._cid
    except AttributeError:
        c._cid = None if c.num_args() else c.get_id()
        return c._cid


def mkstr(cs):
    out = []
    for c in cs:
        if not isinstance(c, int) and not hasattr(c, '_cid'):
            c = z3.simplify(c)
            if z3.is_bv_value(c):
                c = c.as_long()
            else:
                cid(c)
        out.append(c)
    if all(type(c) is int for c in out):
        return ''.join(chr(c) for c in out)
    return SymStr(out)


# predicates over one character variable: z3 id -> (expression, variable id, set of values as a bit mask).  Decisions that follow from earlier
# decisions of the same path about the same character need no query.
FULL = (1 << 256) - 1
_REG = {}
_MEMO = {}


def _unary(c, mask, build):
    """the predicate `c in mask`; build() makes its z3 term"""
    i = cid(c)
    if i is None:
        return build()
    k = (i, mask)
    e = _MEMO.get(k)
    if e is None:
        t = build()
        _MEMO[k] = e = (t, c)
        _REG[t.get_id()] = (t, i, mask)
        if len(_REG) > 400000:
            _REG.clear()
            _MEMO.clear()
    return e[0]


def _reg(t):
    return _REG.get(t.get_id())      # the entry keeps its expression alive, so the id is its own


def ceq(a, b):
    """z3 Bool / bool: two characters are equal."""
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        if b > 255:
            return False
        return _unary(a, 1 << b, lambda: a == bv(b))
    return a == b


def _merge(bs, op, f):
    """the combination of predicates over one variable is such a predicate"""
    rs = [_reg(b) for b in bs]
    if None in rs or len({r[1] for r in rs}) != 1:
        return f(*bs)
    m = rs[0][2]
    for r in rs[1:]:
        m = op(m, r[2])
    if m == 0:
        return False
    if m == FULL:
        return True
    t = f(*bs)
    _REG[t.get_id()] = (t, rs[0][1], m)
    return t


def conj(bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is not True:
            out.append(b)
    if not out:
        return True
    return _merge(out, int.__and__, z3.And) if len(out) > 1 else out[0]


def disj(bs):
    out = []
    for b in bs:
        if b is True:
            return True
        if b is not False:
            out.append(b)
    if not out:
        return False
    return _merge(out, int.__or__, z3.Or) if len(out) > 1 else out[0]


def br(c):
    if c is True or c is False:
        return c
    if E.TELLING:
        return False
    r = _reg(c)
    if r is None:
        return E.CTX.branch(c)
    ctx = E.CTX
    d = getattr(ctx, 'dom', None)
    if d is None:
        return ctx.branch(c)
    cur = d.get(r[1], FULL)
    if not cur & r[2]:
        return False
    if not cur & ~r[2]:
        return True
    res = ctx.branch(c)
    d[r[1]] = cur & (r[2] if res else FULL & ~r[2])
    return res


def narrowed(ctx, c):
    """called by assume()"""
    r = None if c is True or c is False else _reg(c)
    if r is not None and getattr(ctx, 'dom', None) is not None:
        ctx.dom[r[1]] = ctx.dom.get(r[1], FULL) & r[2]


def inrange(c, lo, hi):
    if type(c) is int:
        return lo <= c <= hi
    if lo > 255:
        return False
    hi = min(hi, 255)
    if lo > hi:
        return False
    if lo == 0 and hi == 255:
        return True
    return _unary(c, (1 << (hi + 1)) - (1 << lo), lambda: c == bv(lo) if lo == hi else z3.And(z3.UGE(c, bv(lo)), z3.ULE(c, bv(hi))))


def inset(c, chars):
    """c is one of the characters of the ordinary string chars."""
    if type(c) is int:
        return chr(c) in chars
    k = (c.get_id() if cid(c) is None else cid(c), chars)
    e = _MEMO.get(k)
    if e is not None:
        return e[0]
    t = _inset(c, chars)
    if t is not True and t is not False:
        _MEMO[k] = (t, c)
    return t


def _inset(c, chars):
    cs = sorted(set(ord(x) for x in chars))
    # merge into ranges
    rs, i = [], 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        rs.append((cs[i], cs[j]))
        i = j + 1
    return disj([inrange(c, a, b) for a, b in rs])


E.NARROW = narrowed


class SymStr(object):
    # h: a fixed hash, for names that are assumed to differ from every concrete name
    __slots__ = ('c', 'h')

    def __init__(self, c):
        self.c = list(c)
        self.h = None

    @property
    def __class__(self):
        return str

    def __len__(self):
        return len(self.c)

    def __iter__(self):
        for x in self.c:
            yield mkstr([x])

    def __getitem__(self, i):
        if type(i) is E.SymInt:
            i = E.concretize(i)
        if isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr([self.c[i]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.c + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * n)

    def eqt(self, o):
        oc = chars_of(o)
        if len(oc) != len(self.c):
            return False
        return conj([ceq(a, b) for a, b in zip(self.c, oc)])

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        t = self.eqt(o)
        return t if t is True or t is False else E.mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is True or r is False:
            return not r
        return E.mkbool(z3.Not(r.t))

    def _lt(self, o, eq):
        oc = chars_of(o)
        for a, b in zip(self.c, oc):
            if br(ceq(a, b)):
                continue
            if type(a) is int and type(b) is int:
                return a < b
            a = bv(a) if type(a) is int else a
            b = bv(b) if type(b) is int else b
            return br(z3.ULT(a, b))
        return len(self.c) < len(oc) or (eq and len(self.c) == len(oc))

    def __lt__(self, o): return self._lt(o, False)
    def __le__(self, o): return self._lt(o, True)
    def __gt__(self, o): return not self._lt(o, True)
    def __ge__(self, o): return not self._lt(o, False)

    def concrete(self):
        """Fork over the possible texts."""
        if E.TELLING:
            return repr(self)
        out = []
        for c in self.c:
            if type(c) is int:
                out.append(c)
            else:
                out.append(E.CTX.concretize(E.SymInt(z3.ZeroExt(1, c), 0, 255)))
        return ''.join(chr(x) for x in out)

    def __hash__(self):
        return hash(self.concrete()) if self.h is None else self.h

    def __bool__(self):
        return len(self.c) > 0

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return ''.join(chr(c) if type(c) is int else '\u25a1' for c in self.c)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __contains__(self, o):
        oc = chars_of(o)
        n = len(oc)
        r = disj([conj([ceq(a, b) for a, b in zip(self.c[i:i + n], oc)])
                  for i in range(0, len(self.c) - n + 1)])
        return br(r)

    def find(self, o, start=0, end=None):
        oc = chars_of(o)
        n = len(oc)
        end = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, end - n + 1):
            if br(conj([ceq(a, b) for a, b in zip(self.c[i:i + n], oc)])):
                return i
        return -1

    def rfind(self, o):
        oc = chars_of(o)
        n = len(oc)
        for i in range(len(self.c) - n, -1, -1):
            if br(conj([ceq(a, b) for a, b in zip(self.c[i:i + n], oc)])):
                return i
        return -1

    def index(self, o, start=0):
        r = self.find(o, start)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, o, start=0, end=None):
        s = mkstr(self.c[start:end])
        if not is_sym(s):
            return s.count(o)
        n, pos = 0, 0
        while True:
            k = s.find(o, pos)
            if k < 0:
                return n
            n += 1
            pos = k + max(1, len(o))

    def replace(self, a, b, cnt=-1):
        ac, bc = chars_of(a), chars_of(b)
        out, i, n = [], 0, len(ac)
        while i < len(self.c):
            if cnt != 0 and i + n <= len(self.c) and \
                    br(conj([ceq(x, y) for x, y in zip(self.c[i:i + n], ac)])):
                out.extend(bc)
                i += n
                cnt -= 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def _case(self, lo, hi, delta):
        out = []
        for c in self.c:
            if type(c) is int:
                out.append(c + delta if lo <= c <= hi else c)
            else:
                out.append(z3.If(inrange(c, lo, hi), c + z3.BitVecVal(delta & 255, 8), c))
        return mkstr(out)

    def lower(self): return self._case(65, 90, 32)
    casefold = lower
    def upper(self): return self._case(97, 122, -32)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return any(self.startswith(x) for x in p)
        pc = chars_of(p)
        return len(pc) <= len(self.c) and br(conj([ceq(x, y) for x, y in zip(self.c, pc)]))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        pc = chars_of(p)
        return len(pc) <= len(self.c) and (not pc or br(conj([ceq(x, y) for x, y in zip(self.c[-len(pc):], pc)])))

    def lstrip(self, chars=' \t\n\r\x0b\x0c'):
        i = 0
        while i < len(self.c) and br(inset(self.c[i], chars)):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=' \t\n\r\x0b\x0c'):
        i = len(self.c)
        while i > 0 and br(inset(self.c[i - 1], chars)):
            i -= 1
        return mkstr(self.c[:i])

    def strip(self, chars=' \t\n\r\x0b\x0c'):
        r = self.lstrip(chars)
        return r.rstrip(chars) if is_sym(r) else r.rstrip(chars)

    def isdigit(self):
        return len(self.c) > 0 and br(conj([inrange(c, 48, 57) for c in self.c]))
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return len(self.c) > 0 and br(conj([disj([inrange(c, 65, 90), inrange(c, 97, 122)]) for c in self.c]))

    def isalnum(self):
        return len(self.c) > 0 and br(conj([disj([inrange(c, 48, 57), inrange(c, 65, 90), inrange(c, 97, 122)])
                                            for c in self.c]))

    def isspace(self):
        return len(self.c) > 0 and br(conj([inset(c, ' \t\n\r\x0b\x0c') for c in self.c]))

    def partition(self, sep):
        k = self.find(sep)
        if k < 0:
            return self, '', ''
        return mkstr(self.c[:k]), sep, mkstr(self.c[k + len(sep):])

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return '', '', self
        return mkstr(self.c[:k]), sep, mkstr(self.c[k + len(sep):])

    def splitlines(self, keepends=False):
        out, cur = [], []
        for c in self.c:
            if br(ceq(c, 10)):
                out.append(mkstr(cur + ([c] if keepends else [])))
                cur = []
            else:
                cur.append(c)
        if cur:
            out.append(mkstr(cur))
        return out

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise E.Inconclusive('split on whitespace')
        out, rest = [], self
        while maxsplit != 0:
            k = rest.find(sep)
            if k < 0:
                break
            out.append(mkstr(chars_of(rest)[:k]))
            rest = mkstr(chars_of(rest)[k + len(sep):])
            maxsplit -= 1
        return out + [rest]

    def encode(self, *a):
        return self.concrete().encode(*a)

    def translate(self, table):
        return self.concrete().translate(table)

    def __mod__(self, o):
        return self.concrete() % o

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def ord_(c):
    cs = chars_of(c)
    return cs[0]


def digit_value(c, base):
    """(valid, SymInt/int value) of a digit character."""
    if type(c) is int:
        try:
            return True, builtins.int(chr(c), base)
        except ValueError:
            return False, 0
    d = inrange(c, 48, 48 + min(base, 10) - 1)
    z = z3.ZeroExt(8, c)
    val = z - 48
    ok = d
    if base > 10:
        lo = inrange(c, 97, 97 + base - 11)
        up = inrange(c, 65, 65 + base - 11)
        ok = z3.Or(d, lo, up)
        val = z3.If(d, z - 48, z3.If(lo, z - 87, z - 55))
    return ok, val


def str2int(s, base):
    cs = list(chars_of(s))
    # surrounding white space
    while cs and br(inset(cs[0], ' \t\n\r\x0b\x0c')):
        cs.pop(0)
    while cs and br(inset(cs[-1], ' \t\n\r\x0b\x0c')):
        cs.pop()
    neg = False
    if cs and br(inset(cs[0], '+-')):
        neg = br(ceq(cs[0], 45))
        cs.pop(0)
    if base in (2, 8, 16) and len(cs) >= 3:
        # int() accepts a radix prefix
        p = {2: 'bB', 8: 'oO', 16: 'xX'}[base]
        if br(conj([ceq(cs[0], 48), inset(cs[1], p)])):
            cs = cs[2:]
            if br(ceq(cs[0], 95)):
                cs.pop(0)
    err = ValueError('invalid literal for int() with base %d: %r' % (base, s))
    if not cs:
        raise err
    digs = []
    prev_us = True
    for c in cs:
        if br(ceq(c, 95)):
            if prev_us:
                raise err
            prev_us = True
            continue
        ok, val = digit_value(c, base)
        if not br(ok):
            raise err
        digs.append(val)
        prev_us = False
    if prev_us:
        raise err
    total = 0
    for v in digs:
        if type(v) is not int:
            v = E.mk(z3.simplify(v), 0, base - 1)
        total = total * base + v
    return -total if neg else total


# ---------------------------------------------------------------------------
# regular expressions
class SymMatch(object):
    def __init__(self, s, start, end, groups, lastindex, names, ngroups):
        self.string, self._s, self._e = s, start, end
        self._g, self.lastindex, self._names, self._n = groups, lastindex, names, ngroups

    def __bool__(self):
        return True

    def _idx(self, g):
        return self._names[g] if isinstance(g, str) else g

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if self.span(i)[0] >= 0 else default for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {n: self.group(n) for n in self._names}

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    @property
    def lastgroup(self):
        for n, i in self._names.items():
            if i == self.lastindex:
                return n
        return None


class LazyMatch(object):
    def __init__(self, p, s, pos):
        self._a, self._m = (p, s, pos), None

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if self._m is None:
            p, s, pos = self._a
            for i in range(pos, len(s.c) + 1):
                self._m = p.match(s, i)
                if self._m is not None:
                    break
        return getattr(self._m, n)


_WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]
_SPACE = [(9, 13), (32, 32)]
_CATS = {
    _sc.CATEGORY_DIGIT: ([(48, 57)], False), _sc.CATEGORY_NOT_DIGIT: ([(48, 57)], True),
    _sc.CATEGORY_SPACE: (_SPACE, False), _sc.CATEGORY_NOT_SPACE: (_SPACE, True),
    _sc.CATEGORY_WORD: (_WORD, False), _sc.CATEGORY_NOT_WORD: (_WORD, True),
}


def neg(b):
    if b is True or b is False:
        return not b
    r = _reg(b)
    t = z3.Not(b)
    if r is not None:
        _REG[t.get_id()] = (t, r[1], FULL & ~r[2])
    return t


def cat(c, name):
    rs, n = _CATS[name]
    r = disj([inrange(c, a, b) for a, b in rs])
    return neg(r) if n else r


def swapcase(c):
    ch = chr(c)
    return [ord(x) for x in {ch, ch.lower(), ch.upper()}]


def in_test(c, items, icase):
    negate = False
    tests = []
    for op, av in items:
        if op is _sc.NEGATE:
            negate = True
        elif op is _sc.LITERAL:
            for x in (swapcase(av) if icase else [av]):
                tests.append(ceq(c, x))
        elif op is _sc.RANGE:
            tests.append(inrange(c, av[0], av[1]))
            if icase:
                for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                    a, b = max(av[0], lo), min(av[1], hi)
                    if a <= b:
                        tests.append(inrange(c, a + d, b + d))
        elif op is _sc.CATEGORY:
            tests.append(cat(c, av))
        else:
            raise E.Inconclusive('regex set op %s' % op)
    r = disj(tests)
    return neg(r) if negate else r


def char_test(op, av, ic, dotall, c):
    if op is _sc.IN:
        return in_test(c, av, ic)
    if op is _sc.ANY:
        return dotall or neg(ceq(c, 10))
    t = disj([ceq(c, x) for x in (swapcase(av) if ic else [av])])
    return t if op is _sc.LITERAL else neg(t)


def char_mask(op, av, ic, dotall):
    m = 0
    for i in range(256):
        if char_test(op, av, ic, dotall, i):
            m |= 1 << i
    return m


def mask_term(c, mask):
    rs, i = [], 0
    while i < 256:
        if mask >> i & 1:
            j = i
            while j < 255 and mask >> (j + 1) & 1:
                j += 1
            rs.append((i, j))
            i = j + 1
        i += 1
    return disj([inrange(c, a, b) for a, b in rs])


def brm(c, mask):
    """branch on c in mask"""
    i = cid(c)
    cur = E.CTX.dom.get(i, FULL)
    if not cur & mask:
        return False
    if not cur & ~mask:
        return True
    k = (i, -1 - mask)
    e = _MEMO.get(k)
    if e is None:
        _MEMO[k] = e = (mask_term(c, mask), c)
    return br(e[0])


class SymPattern(object):
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern, self.flags = pattern, int(self.real.flags)
        self.tree = _sp.parse(pattern, flags)
        ops = list(self.tree)
        self.literal = [av for op, av in ops] if ops and not self.flags & _re.IGNORECASE and all(op is _sc.LITERAL for op, av in ops) else None
        self.groups = self.real.groups
        self.masks, self.keep = {}, []
        self.groupindex = dict(self.real.groupindex)

    # -- generator-based backtracking ------------------------------------------
    def _seq(self, ops, k_, s, pos, st):
        if k_ == len(ops):
            yield pos, st
            return
        op, av = ops[k_]
        ic = bool(st[2] & 2)
        if op is _sc.LITERAL or op is _sc.IN or op is _sc.NOT_LITERAL or op is _sc.ANY:
            if pos < len(s):
                c = s[pos]
                k = (id(av), op, ic, op is _sc.ANY and bool(st[2] & 16))
                mask = self.masks.get(k)
                if mask is None:
                    mask = self.masks[k] = char_mask(op, av, ic, k[3])
                    self.keep.append(av)
                if type(c) is int and c < 256:
                    ok = mask >> c & 1
                elif type(c) is not int and cid(c) is not None:
                    ok = brm(c, mask)
                else:
                    ok = br(char_test(op, av, ic, k[3], c))
                if ok:
                    yield from self._seq(ops, k_ + 1, s, pos + 1, st)
            return
        if op is _sc.BRANCH:
            for alt in av[1]:
                for p, st2 in self._seq(list(alt), 0, s, pos, st):
                    yield from self._seq(ops, k_ + 1, s, p, st2)
            return
        if op is _sc.SUBPATTERN:
            gid, addf, delf, sub = av
            st1 = (st[0], st[1], (st[2] | addf) & ~delf)
            for p, st2 in self._seq(list(sub), 0, s, pos, st1):
                g, last = st2[0], st2[1]
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    last = gid
                yield from self._seq(ops, k_ + 1, s, p, (g, last, st[2]))
            return
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT) or op is getattr(_sc, 'POSSESSIVE_REPEAT', None):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is not _sc.MIN_REPEAT
            if op is getattr(_sc, 'POSSESSIVE_REPEAT', None):
                for p, st2 in self._rep(sub, lo, hi, True, s, pos, st, 0):
                    yield from self._seq(ops, k_ + 1, s, p, st2)
                    return
                return
            for p, st2 in self._rep(sub, lo, hi, greedy, s, pos, st, 0):
                yield from self._seq(ops, k_ + 1, s, p, st2)
            return
        if op is _sc.AT:
            if av in (_sc.AT_BEGINNING, _sc.AT_BEGINNING_STRING):
                ok = pos == 0
                if not ok and av is _sc.AT_BEGINNING and st[2] & 8:
                    ok = br(ceq(s[pos - 1], 10))
            elif av is _sc.AT_END_STRING:
                ok = pos == len(s)
            elif av is _sc.AT_END:
                ok = pos == len(s)
                if not ok and (pos == len(s) - 1 or st[2] & 8):
                    ok = br(ceq(s[pos], 10))
            elif av in (_sc.AT_BOUNDARY, _sc.AT_NON_BOUNDARY):
                a = br(cat(s[pos - 1], _sc.CATEGORY_WORD)) if pos > 0 else False
                b = br(cat(s[pos], _sc.CATEGORY_WORD)) if pos < len(s) else False
                ok = (a != b) == (av is _sc.AT_BOUNDARY)
            else:
                raise E.Inconclusive('regex anchor %s' % av)
            if ok:
                yield from self._seq(ops, k_ + 1, s, pos, st)
            return
        if op in (_sc.ASSERT, _sc.ASSERT_NOT):
            d, sub = av
            found = None
            if d >= 0:
                for p, st2 in self._seq(list(sub), 0, s, pos, st):
                    found = st2
                    break
            else:
                w = sub.getwidth()[0]
                if pos - w >= 0:
                    for p, st2 in self._seq(list(sub), 0, s, pos - w, st):
                        if p == pos:
                            found = st2
                            break
            if op is _sc.ASSERT and found is not None:
                yield from self._seq(ops, k_ + 1, s, pos, (found[0], found[1], st[2]))
            if op is _sc.ASSERT_NOT and found is None:
                yield from self._seq(ops, k_ + 1, s, pos, st)
            return
        if op is _sc.GROUPREF:
            a, b = st[0].get(av, (-1, -1))
            if a >= 0 and pos + (b - a) <= len(s):
                if br(conj([ceq(x, y) for x, y in zip(s[a:b], s[pos:pos + b - a])])):
                    yield from self._seq(ops, k_ + 1, s, pos + (b - a), st)
            return
        if op is getattr(_sc, 'ATOMIC_GROUP', None):
            for p, st2 in self._seq(list(av), 0, s, pos, st):
                yield from self._seq(ops, k_ + 1, s, p, st2)
                return
            return
        raise E.Inconclusive('regex op %s' % op)

    def _rep(self, sub, lo, hi, greedy, s, pos, st, n):
        if n < lo:
            for p, st2 in self._seq(sub, 0, s, pos, st):
                yield from self._rep(sub, lo, hi, greedy, s, p, st2, n + 1)
            return
        if not greedy:
            yield pos, st
        if n < hi:
            for p, st2 in self._seq(sub, 0, s, pos, st):
                if p == pos:
                    continue
                yield from self._rep(sub, lo, hi, greedy, s, p, st2, n + 1)
        if greedy:
            yield pos, st

    def match(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return self.real.match(s, pos) if endpos is None else self.real.match(s, pos, endpos)
        cs = s.c if endpos is None else s.c[:endpos]
        for p, st in self._seq(list(self.tree), 0, cs, pos, ({}, None, int(self.flags))):
            return SymMatch(s, pos, p, st[0], st[1], self.groupindex, self.groups)
        return None

    def fullmatch(self, s, pos=0):
        if type(s) is not SymStr:
            return self.real.fullmatch(s, pos)
        for p, st in self._seq(list(self.tree), 0, s.c, pos, ({}, None, int(self.flags))):
            if p == len(s.c):
                return SymMatch(s, pos, p, st[0], st[1], self.groupindex, self.groups)
        return None

    def search(self, s, pos=0):
        if type(s) is not SymStr:
            return self.real.search(s, pos)
        if self.literal is not None:
            # one fork for "occurs at all"; the position is determined when somebody asks for it
            n = len(self.literal)
            if not br(disj([conj([ceq(a, b) for a, b in zip(s.c[i:i + n], self.literal)]) for i in range(pos, len(s.c) - n + 1)])):
                return None
            return LazyMatch(self, s, pos)
        for i in range(pos, len(s.c) + 1):
            m = self.match(s, i)
            if m is not None:
                return m
        return None

    def finditer(self, s, pos=0):
        if type(s) is not SymStr:
            yield from self.real.finditer(s, pos)
            return
        while pos <= len(s.c):
            m = self.search(s, pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s, pos=0):
        if type(s) is not SymStr:
            return self.real.findall(s, pos)
        out = []
        for m in self.finditer(s, pos):
            out.append(m.group() if self.groups == 0 else m.group(1) if self.groups == 1 else m.groups())
        return out

    def sub(self, rep, s, count=0):
        if type(s) is not SymStr:
            return self.real.sub(rep, s, count)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            out.extend(s.c[pos:m.start()])
            r = rep(m) if callable(rep) else rep
            if not callable(rep) and '\\' in rep:
                raise E.Inconclusive('re.sub template')
            out.extend(chars_of(r))
            pos = m.end()
            n += 1
            if count and n >= count:
                break
        out.extend(s.c[pos:])
        return mkstr(out)

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        raise E.Inconclusive('re.split')


_pcache = {}


def pat(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, _re.Pattern):
        p, flags = p.pattern, p.flags & ~_re.UNICODE
    k = (p, int(flags))
    if k not in _pcache:
        _pcache[k] = SymPattern(p, flags)
    return _pcache[k]


class ReShim(object):
    def __getattr__(self, n):
        return getattr(_re, n)

    def compile(self, p, flags=0): return pat(p, flags)
    def search(self, p, s, flags=0): return pat(p, flags).search(s)
    def match(self, p, s, flags=0): return pat(p, flags).match(s)
    def fullmatch(self, p, s, flags=0): return pat(p, flags).fullmatch(s)
    def sub(self, p, r, s, count=0, flags=0): return pat(p, flags).sub(r, s, count)
    def findall(self, p, s, flags=0): return pat(p, flags).findall(s)
    def finditer(self, p, s, flags=0): return pat(p, flags).finditer(s)
    def split(self, p, s, maxsplit=0, flags=0): return pat(p, flags).split(s, maxsplit)


# ---------------------------------------------------------------------------
class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.str)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)

    def __getattr__(cls, n):
        return getattr(builtins.str, n)


class StrShim(metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        if type(x) is SymStr:
            return x
        if type(x) is E.SymInt:
            return E.CTX.num2str(x)
        if not a and type(x).__module__.startswith('pyverilog.') and E.CTX is not None and E.CTX.symbolic:
            # the text of an object may be symbolic
            return type(x).__repr__(x) if type(x).__str__ is object.__str__ else type(x).__str__(x)
        return builtins.str(x, *a)


def join_shim(sep, it):
    it = list(it)
    if not any(type(x) is SymStr for x in it):
        return sep.join(it)
    out = []
    for i, x in enumerate(it):
        if i:
            out.extend(chars_of(sep))
        out.extend(chars_of(x))
    return mkstr(out)


def _cs(x):
    return x.c if type(x) is SymStr else chars_of(builtins.str(x))


def mod_shim(f, a):
    t = a if isinstance(a, tuple) else (a,)
    if not any(type(x) is SymStr for x in t):
        return f % a
    parts = _re.split(r'(%[sd%])', f)
    if parts.count('%s') + parts.count('%d') != len(t):
        raise E.Inconclusive('format %r' % f)
    out, i = [], 0
    for p in parts:
        if p in ('%s', '%d'):
            out.extend(_cs(t[i]))
            i += 1
        else:
            out.extend(chars_of('%' if p == '%%' else p))
    return mkstr(out)


def join_any(sep, it):
    """sep.join(it) for any sep"""
    if not (isinstance(sep, builtins.str) or type(sep) is SymStr):
        return sep.join(it)
    it = list(it)
    if type(sep) is not SymStr and not any(type(x) is SymStr for x in it):
        return sep.join(it)
    return join_shim(sep, it) if any(type(x) is SymStr for x in it) else join_shim(sep, [SymStr(chars_of(x)) for x in it])


def in_any(x, y):
    """x in y"""
    if type(x) is SymStr and isinstance(y, builtins.str):
        if len(x.c) == 1:
            c = x.c[0]
            return (chr(c) in y) if type(c) is int else br(inset(c, y))
        return SymStr(chars_of(y)).__contains__(x)
    return x in y


def format_any(f, *a, **k):
    """f.format(..) for plain fields"""
    if not (isinstance(f, builtins.str) and any(type(x) is SymStr for x in list(a) + list(k.values()))):
        return f.format(*a, **k)
    out, n = [], 0
    import string
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.extend(chars_of(lit))
        if field is None:
            continue
        if spec or conv:
            raise E.Inconclusive('format %r' % f)
        if field == '':
            v, n = a[n], n + 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise E.Inconclusive('format %r' % f)
        out.extend(_cs(v))
    return mkstr(out)


def fstring(*parts):
    out = []
    for p in parts:
        out.extend(_cs(p))
    return mkstr(out)


def hash_shim(x):
    return builtins.hash(x)


def len_shim(x):
    return builtins.len(x)


class SymDict(dict):
    """A dict whose lookups compare a symbolic string with every key of the same length."""

    def _find(self, k):
        if type(k) is SymStr:
            for q in dict.keys(self):
                if isinstance(q, str) and len(q) == len(k.c):
                    t = k.eqt(q)
                    if br(t):
                        return q
            return _MISSING
        return k

    def get(self, k, d=None):
        q = self._find(k)
        return d if q is _MISSING else dict.get(self, q, d)

    def __getitem__(self, k):
        q = self._find(k)
        if q is _MISSING:
            raise KeyError(k)
        return dict.__getitem__(self, q)

    def __contains__(self, k):
        q = self._find(k)
        return False if q is _MISSING else dict.__contains__(self, q)


class SymSeq(tuple):
    """A tuple of strings whose membership test works for symbolic strings (tuples do already; for sets)."""


_MISSING = object()
