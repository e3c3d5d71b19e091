"""C02: integer literals have the value and width Verilog gives them.
Real code: DFIntConst.eval / DFIntConst.width / VerilogOptimizer.optimizeConstant on DFIntConst."""
import z3
from sx import engine as E, symstr as S, target
from sx.runner import call

BOUNDS = {
    'quick': 'unsized decimal literals of 1..5 characters; based literals with 0..2 size digits, optional s/S, every base '
             'letter in both cases, 1..4 digit characters (1..3 when x/z/? digits are allowed); every character symbolic',
    'thorough': 'unsized decimal literals of 1..8 characters; based literals with 0..3 size digits, optional s/S, every base '
                'letter in both cases, 1..7 digit characters (1..5 with x/z/?); every character symbolic'}
OUTSIDE = 'longer literals; literals with white space between size, base and digits; interpretation of the sign bit of signed literals; truncation of digits beyond the size'
ASSUMPTIONS = ['re and int() are replaced by symbolic versions with the same semantics (sx/symstr.py)']
BASES = {'b': (2, 'bB', '01'), 'o': (8, 'oO', '01234567'), 'd': (10, 'dD', '0123456789'),
         'h': (16, 'hH', '0123456789abcdefABCDEF')}
W = 48


def jobs(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, (5 if q else 8) + 1):
        out.append(dict(id='plain-%d' % n, h='h_plain', p=dict(n=n)))
    for b in BASES:
        for sg in (False, True):
            for ns in range(0, (2 if q else 3) + 1):
                for nd in range(1, (4 if q else 7) + 1):
                    out.append(dict(id='based-%s%s-size%d-dig%d' % ('s' if sg else '', b, ns, nd), h='h_based',
                                    p=dict(b=b, sg=sg, ns=ns, nd=nd)))
                for nd in range(1, (3 if q else 5) + 1):
                    out.append(dict(id='xz-%s%s-size%d-dig%d' % ('s' if sg else '', b, ns, nd), h='h_xz',
                                    p=dict(b=b, sg=sg, ns=ns, nd=nd)))
    return out


def sym_char(ctx, name, allowed):
    c = ctx.byte(name)
    ctx.assume(S.inset(c, allowed))
    return c


def digval(c, base):
    if type(c) is int:
        c = z3.BitVecVal(c, 8)
    z = z3.ZeroExt(W - 8, c)
    return z3.If(S.inrange(c, 48, 57), z - 48, z3.If(S.inrange(c, 97, 122), z - 87, z - 55))


def number(cs, base):
    v = z3.BitVecVal(0, W)
    for c in cs:
        cc = z3.BitVecVal(c, 8) if type(c) is int else c
        v = z3.If(cc == 95, v, v * base + digval(c, base))
    return v


def eqv(x, t):
    """int-like x equals the W-bit non-negative term t"""
    if not isinstance(x, int):
        return False
    l = E.lift(x)
    w = max(W + 1, l[0].size())
    return E.ext(l[0], w) == z3.ZeroExt(w - W, t)


def check_number(ctx, s, val, width):
    t = target.load()
    n = t.dataflow.DFIntConst(s)
    ctx.note('literal', s)
    v = call(ctx, 'value of the literal', n.eval)
    ctx.check(eqv(v, val), 'value of literal')
    w = call(ctx, 'width of the literal', n.width)
    ctx.check(eqv(w, width), 'width of literal')
    o = t.optimizer.VerilogOptimizer({}, {})
    r = call(ctx, 'constant evaluation of the literal', o.optimizeConstant, t.dataflow.DFIntConst(s))
    ctx.check(isinstance(r, t.dataflow.DFEvalValue), 'literal evaluates to a number')
    ctx.check(eqv(r.value, val), 'evaluated value of literal')
    ctx.check(eqv(r.width, width), 'evaluated width of literal')
    r = call(ctx, 'optimization of the literal', o.optimize, t.dataflow.DFIntConst(s))
    ctx.check(isinstance(r, t.dataflow.DFEvalValue), 'literal optimizes to a number')
    ctx.check(eqv(r.value, val), 'optimized value of literal')
    ctx.check(eqv(o.getWidth(t.dataflow.DFIntConst(s)), width), 'getWidth of literal')


def h_plain(ctx, n):
    cs = [sym_char(ctx, 'c%d' % i, '0123456789' + ('_' if i else '')) for i in range(n)]
    check_number(ctx, S.mkstr(cs), number(cs, 10), z3.BitVecVal(32, W))


def prefix(ctx, b, sg, ns):
    size = [sym_char(ctx, 's%d' % i, '0123456789' + ('_' if i else '')) for i in range(ns)]
    if ns:
        ctx.assume(number(size, 10) != 0)
    pre = size + [39]
    if sg:
        pre.append(sym_char(ctx, 'sign', 'sS'))
    pre.append(sym_char(ctx, 'base', BASES[b][1]))
    width = number(size, 10) if ns else z3.BitVecVal(32, W)
    return pre, width


def h_based(ctx, b, sg, ns, nd):
    base, _, digs = BASES[b]
    pre, width = prefix(ctx, b, sg, ns)
    ds = [sym_char(ctx, 'd%d' % i, digs + ('_' if i else '')) for i in range(nd)]
    check_number(ctx, S.mkstr(pre + ds), number(ds, base), width)


def h_xz(ctx, b, sg, ns, nd):
    t = target.load()
    base, _, digs = BASES[b]
    pre, width = prefix(ctx, b, sg, ns)
    if b == 'd':
        # a decimal x/z literal has exactly one such digit, possibly followed by underscores
        ds = [sym_char(ctx, 'd%d' % i, 'xXzZ' if i == 0 else '_') for i in range(nd)]
    else:
        ds = [sym_char(ctx, 'd%d' % i, digs + 'xXzZ?' + ('_' if i else '')) for i in range(nd)]
        ctx.assume(S.disj([S.inset(c, 'xXzZ?') for c in ds]))
    s = S.mkstr(pre + ds)
    ctx.note('literal', s)
    o = t.optimizer.VerilogOptimizer({}, {})
    r = call(ctx, 'constant evaluation of the literal', o.optimizeConstant, t.dataflow.DFIntConst(s))
    ctx.check(isinstance(r, t.dataflow.DFUndefined), 'literal with x/z/? digits is undefined')
    ctx.check(eqv(r.width, width), 'width of undefined literal')
