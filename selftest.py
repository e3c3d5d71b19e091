#!/usr/bin/env python3
"""setup_cmd: validates the engine (symbolic integers/strings/regexes against Python itself) and that the target imports."""
import os, sys, random, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import z3
from sx import engine as E, symstr as S

OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b),
       ('//', lambda a, b: a // b), ('%', lambda a, b: a % b), ('&', lambda a, b: a & b), ('|', lambda a, b: a | b),
       ('^', lambda a, b: a ^ b), ('<<', lambda a, b: a << b), ('>>', lambda a, b: a >> b),
       ('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('==', lambda a, b: a == b), ('!=', lambda a, b: a != b),
       ('~', lambda a, b: ~a), ('neg', lambda a, b: -a), ('abs', lambda a, b: abs(a)), ('int/', lambda a, b: toint(a / b)),
       ('r-', lambda a, b: 7 - a), ('r<<', lambda a, b: 3 << b), ('r//', lambda a, b: 29 // b), ('bl', lambda a, b: a.bit_length())]


def toint(x):
    return x.trunc() if isinstance(x, E.SymRatio) else int(x)


def ints():
    n = 0
    for name, f in OPS:
        def body(ctx):
            nonlocal n
            lo = 0 if name in ('<<', '>>', 'r<<') else -6
            a = ctx.int('a', -9, 9)
            b = ctx.int('b', lo, 5)
            try:
                r = f(a, b)
            except ZeroDivisionError:
                ctx.check(b == 0, name)
                return
            ta, tb = ctx.inputs['a'][1], ctx.inputs['b'][1]
            want = []
            for x in range(-9, 10):
                for y in range(lo, 6):
                    try:
                        v = f(x, y)
                    except (ZeroDivisionError,):
                        continue
                    v = int(v)
                    l = E.lift(r)
                    w = max(l[0].size(), E.bits_for(v, v)) + 1
                    want.append(z3.Implies(z3.And(E.ext(ta, 8) == x, E.ext(tb, 8) == y),
                                           E.ext(l[0], w) == z3.BitVecVal(v, w)))
                    n += 1
            ctx.check(z3.And(*want), name)
        c = E.SymCtx()
        c.explore(body)
        assert not c.cexs, (name, c.cexs[0].inputs)
        assert c.stats['paths'] >= 1 and not c.inc_reasons, (name, c.inc_reasons)
    return n


PATS = [r'[Hh](.+)', r'(.+)\'[Ss]?[Dd].+', r'([0-9]*\.[0-9]+)|([0-9]+\.)', r'(a|ab)(c|bcd)*', r'//.*?\n', r'a*?b', r'\s+x', r'(?i)aB', r'^a\b', r'[^"\\\n]+"']


def regexes():
    rnd = random.Random(1)
    n = 0
    alpha = "ab'H.dsx19 \n\"/cB"
    for p in PATS:
        sp = S.SymPattern(p)
        for _ in range(40):
            txt = ''.join(rnd.choice(alpha) for _ in range(rnd.randint(0, 6)))

            def body(ctx):
                cs = []
                for i, ch in enumerate(txt):
                    c = ctx.byte('c%d' % i)
                    ctx.assume(c == ord(ch))
                    cs.append(c)
                s = S.SymStr(cs)
                for meth in ('match', 'search', 'fullmatch'):
                    m, r = getattr(sp, meth)(s), getattr(re.compile(p), meth)(txt)
                    assert (m is None) == (r is None), (p, txt, meth)
                    if m is not None:
                        assert m.span() == r.span() and m.lastindex == r.lastindex, (p, txt, meth, m.span(), r.span())
                        for g in range(1, sp.groups + 1):
                            assert m.span(g) == r.span(g), (p, txt, g)
            c = E.SymCtx()
            c.explore(body)
            assert c.stats['paths'] == 1, c.inc_reasons
            n += 1
    return n


def twin():
    """An assertion that must fail does fail, and exploration sees both sides of a branch."""
    c = E.SymCtx()
    seen = []

    def body(ctx):
        x = ctx.int('x', 0, 255)
        if x * 3 == 51:
            seen.append(1)
            ctx.check(False)
        else:
            seen.append(0)
    c.explore(body, stop_on_cex=False)
    assert sorted(seen) == [0, 1] and c.cexs[0].inputs['x'][1] == 17


if __name__ == '__main__':
    twin()
    a, b = ints(), regexes()
    from sx import target
    t = target.load(symbolic=True)
    assert t.optimizer.VerilogOptimizer
    print('engine self-test ok: %d integer cases, %d regex cases' % (a, b))
