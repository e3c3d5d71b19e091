"""C19: comparisons with constants are inferred as exactly their value sets.
Real code: pyverilog/utils/inference.py (infer, op_*), pyverilog/controlflow/transition.py (walkCond, createStateNode, not/and of ranges),
pyverilog/utils/signaltype.py; in the text jobs also the parser, the analyzer and the optimizer."""
import z3
from sx import engine as E, target, vlog as V, dft
from sx.runner import call
from sx.vlog import K

BOUNDS = {
    'quick': 'all eight comparison operators, constant on either side, every constant 0..2^(w+1) (symbolic), every value of signals of 1..8 bits; '
             'plain, negated once and twice, as == 0 / != 0 style truth tests; from trees and from source text with literals in every base',
    'thorough': 'as quick with signals up to 24 bits'}
OUTSIDE = 'signed signals and negative constants, constants with x or z digits, comparisons of expressions'
ASSUMPTIONS = []
OPS = {'LessThan': '<', 'GreaterThan': '>', 'LessEq': '<=', 'GreaterEq': '>=', 'Eq': '==', 'NotEq': '!=', 'Eql': '===', 'NotEql': '!=='}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    ws = (1, 2, 3, 4, 8) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 8, 12, 16, 24)
    out = []
    for op in OPS:
        for w in ws:
            out.append(dict(id='infer-%s-%d' % (op, w), h='h_infer', p=dict(op=op, w=w)))
            out.append(dict(id='walk-%s-%d' % (op, w), h='h_walk', p=dict(op=op, w=w)))
        out.append(dict(id='text-%s' % op, h='h_text', p=dict(op=op)))
    out.append(dict(id='others', h='h_others', p={}))
    return out


def holds(op, a, b):
    r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b, '==': lambda: a == b, '===': lambda: a == b}
    r['!='] = r['!=='] = lambda: a != b
    return dft.b2z(r[OPS[op]]())


def const(ctx, w):
    return ctx.int('k', 0, (1 << (w + 1)))


def h_infer(ctx, op, w):
    t = target.load()
    k = const(ctx, w)
    v = dft.num(ctx.sig('v', w))
    ctx.note('infer(%r, %s), %d bits' % (op, k, w))
    inf = call(ctx, 'infer', t.inference.infer, op, t.dataflow.DFEvalValue(k))

    def member(inf):
        p = z3.BoolVal(True)
        if inf.minval is not None:
            p = z3.And(p, dft.b2z(inf.minval <= v))
        if inf.maxval is not None:
            p = z3.And(p, dft.b2z(v <= inf.maxval))
        return z3.Not(p) if inf.inv else p
    ctx.check(member(inf) == holds(op, v, k), lambda: 'set inferred for v %s %s: %r' % (OPS[op], k, inf))
    inf.invert()
    ctx.check(member(inf) == z3.Not(holds(op, v, k)), lambda: 'inverted set of v %s %s: %r' % (OPS[op], k, inf))


def check_node(ctx, b, node, v, want, w, what):
    ctx.check(dft.node_pred(b, node, v) == want, what)
    tr = target.load().transition
    for n in (node.nodelist if isinstance(node, tr.StateNodeList) else [node]):
        for lo, hi in n.range_pairs:
            ctx.check(z3.And(dft.b2z(lo >= 0), z3.Or(dft.b2z(lo > hi), dft.b2z(hi <= (1 << w) - 1))), lambda: what() + ': only values the signal can have')


def h_walk(ctx, op, w):
    t = target.load()
    b = dft.B(ctx, {'s': w, 'a': 2})
    k = const(ctx, w)
    left = ctx.flag('constant on the left')
    s, kk = b.sig('s'), b.ev(k)
    tree = b.op(op, kk, s) if left else b.op(op, s, kk)
    v = dft.num(b.val('s'))
    want = holds(op, k, v) if left else holds(op, v, k)
    neg = ctx.choose('negated', [0, 1, 2])
    for i in range(neg):
        tree = b.op(ctx.choose('not%d' % i, ['Ulnot', 'Unot']), tree)
        want = z3.Not(want)
    what = lambda: 'states of %s (w=%d, constant %s)' % (tree.tostr(), w, k)
    ctx.note(what)
    node = call(ctx, 'walkCond', t.transition.walkCond, tree, b.name('s'), w)
    check_node(ctx, b, node, v, want, w, what)
    node = call(ctx, 'walkCondlist', t.transition.walkCondlist, (tree,), b.name('s'), w)
    check_node(ctx, b, node, v, want, w, what)


def h_text(ctx, op):
    t = target.load()
    w = ctx.choose('w', [2, 4])
    k = ctx.int('k', 0, (1 << w) - 1)
    lit = V.emit(K(k, *ctx.choose('literal', [(w, 10), (w, 2), (w, 16), (None,), (8, 8)])))
    left = ctx.flag('left')
    cond = '%s %s s' % (lit, OPS[op]) if left else 's %s %s' % (OPS[op], lit)
    form = ctx.choose('form', ['%s', '!(%s)', '~(%s)', '(%s) == 1', '|(%s)'])
    text = 'module TOP(input CLK, input [%d:0] s, output reg y);\nalways @(posedge CLK) if(%s) y <= 1;\nendmodule\n' % (w - 1, form % cond)
    ctx.note(text)
    fl = call(ctx, 'analysis of\n' + text, V.analyze, text)
    b = dft.B(ctx, {'s': w})
    b.sig('s')
    tree = fl.binds['TOP.y'][0].tree.condnode
    opt = V.walker(fl).resolver
    tree = call(ctx, 'optimization of the condition of\n' + text, opt.optimize, tree)
    node = call(ctx, 'walkCond', t.transition.walkCond, tree, V.name_of(fl, 'TOP.s'), w)
    v = dft.num(b.val('s'))
    want = holds(op, k, v) if left else holds(op, v, k)
    if form[0] in '!~':
        want = z3.Not(want)
    check_node(ctx, b, node, v, want, w, lambda: 'states of the condition of\n%s' % text)


def h_others(ctx):
    """no set is inferred where there is none to infer"""
    t = target.load()
    b = dft.B(ctx, {'s': 3, 'a': 3})
    op = ctx.choose('op', sorted(OPS) + ['Plus', 'And', 'Xor'])
    node = ctx.choose('node', ['term', 'tree'])
    x = b.sig('a') if node == 'term' else b.op('Plus', b.sig('a'), b.ev(1))
    try:
        r = t.inference.infer(op, x)
    except t.verror.FormatError:
        r = None
    ctx.check(r is None, 'infer(%s, %s) gives %r' % (op, x.tostr(), r))
    tree = b.op(op, b.sig('s'), x) if ctx.flag('order') else b.op(op, x, b.sig('s'))
    n = call(ctx, 'walkCond', t.transition.walkCond, tree, b.name('s'), 3)
    ctx.check(dft.node_pred(b, n, dft.num(b.val('s'))) == b.truth(tree), lambda: 'states of %s' % tree.tostr())
    try:
        t.inference.infer('Plus', b.ev(3))
        ctx.fail('infer accepts an operator that is no comparison')
    except t.verror.FormatError:
        pass
