"""C06: the dataflow tree of a continuous assignment denotes the right-hand side.
Real code: parser, ModuleVisitor, SignalVisitor, BindVisitor.makeDFTree/getTree/addBind, reorder."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'every pair of the 33 operators in both nestings and every operator triple from a reduced set, operands: signals of 4, 3 and '
             '1 bits, sized/unsized literals 0..15 in four bases, selects with symbolic bounds; conditionals in every operand '
             'position of every operator, nested up to 3; concatenations, replications 0..3 times; array elements',
    'thorough': 'as quick plus conditionals in both operands of every operator pair, all operand kinds in every position, and depth-4 trees'}
OUTSIDE = 'signed operands, reals, strings, delays, system functions; ** with a variable exponent; larger expressions'
ASSUMPTIONS = ['IEEE 1364-2005 expression semantics for unsigned operands as written in sx/vlog.py; x/0 is an arbitrary fixed value']

UN = list(V.UOP)
BIN = [o for o in V.BOP if o != 'Power']
W = {'a': 4, 'b': 3, 'c': 1, 'd': 4, 'e': 4, 'y': 6, 'x': 8}
RED = ['Plus', 'Minus', 'Srl', 'Sll', 'Eq', 'LessThan', 'And', 'Or', 'Xnor', 'Land', 'Lor', 'Divide', 'Mod', 'Times']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for o in BIN:
        add('pair-%s' % o, 'h_pair', op=o)
        add('un-%s' % o, 'h_un', op=o)
        add('cond-%s' % o, 'h_cond', op=o)
        if o in RED:
            add('triple-%s' % o, 'h_triple', op=o, ops=RED if not q else RED[:6])
        if not q:
            add('cond2-%s' % o, 'h_cond2', op=o)
    add('un-un', 'h_unun')
    add('power', 'h_power')
    for k in ('lit', 'sel', 'idx', 'dyn', 'lsb', 'arr', 'decl'):
        add('leaf-%s' % k, 'h_leaf', kind=k)
    for n in (1, 2, 3):
        add('cat-%d' % n, 'h_cat', n=n)
    add('rep', 'h_rep')
    for k in range(6):
        add('cnest-%d' % k, 'h_cnest', k=k)
    add('widths', 'h_armwidth')
    return out


def run(ctx, e, extra='', yw=6, names='abcde', decl=False, extra_given=None, lsbs=None, arrays=None, known=None, exact=True):
    used = sorted(names)
    decls = ''.join('  input %s%s;\n' % (V.rng(W[n]) if not (lsbs and n in lsbs) else
                                         '[%d:%d] ' % (W[n] - 1 + lsbs[n], lsbs[n]), n) for n in used)
    if decl:
        body = '  wire %sy = %s;\n' % (V.rng(yw), V.emit(e))
        ports = used
    else:
        decls += '  output %sy;\n' % V.rng(yw)
        body = '  assign y = %s;\n' % V.emit(e)
        ports = used + ['y']
    src = V.text_module(decls + extra, body, ports=ports)
    ctx.note(src)
    fl = call(ctx, 'analysis of "assign y = %s"' % V.emit(e), V.analyze, src)
    env = {n: V.Val(ctx.sig(n, W[n])) for n in used}
    env.update(extra_given or {})
    arr = arrays or {}
    sem = V.Sem(dict(env), lsbs=lsbs, arrays=arr)
    want = V.vext(sem.ev(e, yw), yw)
    bl = fl.binds.get('TOP.y', [])
    if len(bl) != 1 or bl[0].msb is not None or bl[0].ptr is not None:
        ctx.fail('exactly one driver of y is recorded for "%s", got %d' % (V.emit(e), len(bl)))
    d = V.DFEval(fl, {'TOP.' + n: v for n, v in env.items()}, lsbs={'TOP.' + k: v for k, v in (lsbs or {}).items()},
                 arrays={'TOP.' + k: v for k, v in arr.items()})
    try:
        got = V.vext(d.sem(None).ev(V.df2e(bl[0].tree, None), yw), yw)
    except V.Unsupported as ex:
        ctx.fail('tree recorded for "%s" is not an expression over its signals: %s (%s)' % (V.emit(e), bl[0].tree.tostr(), ex))
    ctx.check(V.same(want, got), lambda: 'recorded tree %s has the value of "%s"' % (bl[0].tree.tostr(), V.emit(e)), known=known)
    want_names = sigs(e)
    got_names = {n[4:] for n in V.leaves(bl[0].tree)}
    if exact:
        ctx.check(want_names == got_names, 'signals of the tree %s = signals of "%s"' % (sorted(got_names), V.emit(e)))


def sigs(e, acc=None):
    acc = set() if acc is None else acc
    if isinstance(e, tuple):
        if e[0] == 's':
            acc.add(e[1])
        elif e[0] == 'rep' and isinstance(e[1], tuple) and e[1][0] == 'k' and V.kint(e[1][1]) == 0:
            pass
        else:
            for x in e[1:]:
                sigs(x, acc)
    elif isinstance(e, list):
        for x in e:
            sigs(x, acc)
    return acc


def lit(ctx, name='k', w=None, base=10, hi=None):
    hi = hi if hi is not None else ((1 << w) - 1 if w else 15)
    return K(ctx.int(name, 0, hi), w, base)


def mk(o, l, r):
    return ('b', o, l, r)


def h_pair(ctx, op):
    o2 = ctx.choose('op2', BIN)
    left = ctx.flag('left')
    p = ctx.choose('leaves', [('a', 'b', 'd'), ('b', 'a', 'c')])
    third = S(p[2]) if p[2] != 'c' else lit(ctx, 'k', 4, 10)
    e = mk(op, mk(o2, S(p[0]), S(p[1])), third) if left else mk(op, third, mk(o2, S(p[0]), S(p[1])))
    run(ctx, e)


def h_un(ctx, op):
    u = ctx.choose('u', UN)
    pos = ctx.choose('pos', ['l', 'r', 'top'])
    x, y = S('a'), S('b')
    e = {'l': lambda: mk(op, ('u', u, x), y), 'r': lambda: mk(op, x, ('u', u, y)),
         'top': lambda: ('u', u, mk(op, x, y))}[pos]()
    run(ctx, e)


def h_unun(ctx):
    u, u2, u3 = ctx.choose('u', UN), ctx.choose('u2', UN), ctx.choose('u3', [None, 'Unot', 'Uand'])
    e = ('u', u, ('u', u2, S('a')))
    if u3:
        e = ('u', u3, e)
    run(ctx, e)


def h_triple(ctx, op, ops):
    o2, o3 = ctx.choose('op2', ops), ctx.choose('op3', ops)
    sh = ctx.choose('shape', range(5))
    a, b, c, d = S('a'), S('b'), S('d'), S('e')
    e = [lambda: mk(op, mk(o2, mk(o3, a, b), c), d), lambda: mk(op, mk(o2, a, mk(o3, b, c)), d),
         lambda: mk(op, mk(o2, a, b), mk(o3, c, d)), lambda: mk(op, a, mk(o2, mk(o3, b, c), d)),
         lambda: mk(op, a, mk(o2, b, mk(o3, c, d)))][sh]()
    run(ctx, e)


def h_power(ctx):
    o = ctx.choose('op', BIN)
    e = ('b', 'Power', S('a'), K(ctx.choose('n', [0, 1, 2, 3])))
    run(ctx, mk(o, e, S('b')) if ctx.flag('left') else mk(o, S('b'), e))


def h_cond(ctx, op):
    """conditional (equal arm widths) in each operand position, possibly below another operator"""
    c = ('?', S('c'), S('a'), S('d'))
    k = ctx.choose('shape', range(6))
    e = [lambda: mk(op, c, S('b')), lambda: mk(op, S('b'), c),
         lambda: ('?', mk(op, S('a'), S('b')), S('d'), S('e')),
         lambda: mk(op, c, ('?', S('b'), S('e'), K(ctx.int('k', 0, 15), 4))),
         lambda: ('?', S('c'), mk(op, S('a'), S('b')), mk(op, S('d'), S('b'))),
         lambda: ('u', ctx.choose('u', UN), mk(op, c, S('e')))][k]()
    run(ctx, e, yw=4 if k in (2, 4) else 6)


def h_cond2(ctx, op):
    o2 = ctx.choose('op2', BIN)
    c = ('?', S('c'), S('a'), S('d'))
    c2 = ('?', mk('Eq', S('a'), S('e')), S('e'), S('a'))
    k = ctx.choose('shape', range(3))
    e = [lambda: mk(op, mk(o2, c, S('e')), c2), lambda: mk(op, S('e'), mk(o2, c, c2)),
         lambda: mk(op, c, mk(o2, S('e'), c2))][k]()
    run(ctx, e)


def h_cnest(ctx, k):
    """conditionals as condition and arms of conditionals"""
    cs = [S('c'), mk('Eq', S('a'), K(ctx.int('k', 0, 15), 4)), S('b')]
    i = ctx.choose('i', range(3))
    x, y, z = cs[i], cs[(i + 1) % 3], cs[(i + 2) % 3]
    a, b, d = S('a'), S('d'), S('e')
    q = lambda c, t, f: ('?', c, t, f)
    e = [lambda: q(x, q(y, a, b), d), lambda: q(x, a, q(y, b, d)), lambda: q(q(x, y, z), a, b),
         lambda: q(x, q(y, a, b), q(z, b, d)), lambda: q(q(x, y, z), q(y, a, d), q(z, d, b)),
         lambda: q(x, q(y, q(z, a, b), d), q(x, b, q(y, d, a)))][k]()
    run(ctx, e, yw=4)


def h_leaf(ctx, kind):
    o = ctx.choose('op', ['Plus', 'Srl', 'Eq', 'And', 'Land', None])
    wrap = (lambda x: x if o is None else mk(o, x, S('b')) if ctx.flag('l') else mk(o, S('b'), x))
    if kind == 'lit':
        w = ctx.choose('w', [None, 2, 4, 9])
        base = ctx.choose('base', [10, 16, 8, 2])
        hi = 3 if w == 2 else 15
        return run(ctx, wrap(K(ctx.int('k', 0, hi), w, base)))
    if kind == 'decl':
        return run(ctx, wrap(mk('Minus', S('a'), S('d'))), decl=True)
    if kind == 'sel':
        m, l = ctx.int('m', 0, 3), ctx.int('l', 0, 3)
        ctx.assume(m >= l)
        return run(ctx, wrap(('sel', S('a'), K(m), K(l))))
    if kind == 'idx':
        return run(ctx, wrap(('idx', S('a'), K(ctx.int('m', 0, 3)))))
    if kind == 'dyn':
        i = ctx.choose('i', [S('b'), S('c'), mk('Plus', S('b'), S('c')), ('?', S('c'), S('b'), K(2, 3)),
                             ('idx', S('b'), S('c'))])
        return run(ctx, wrap(('idx', S('x'), i)), names='abcdex')
    if kind == 'lsb':
        m, l = ctx.int('m', 2, 5), ctx.int('l', 2, 5)
        ctx.assume(m >= l)
        e = ctx.choose('f', [('sel', S('a'), K(m), K(l)), ('idx', S('a'), K(m))])
        return run(ctx, wrap(e), lsbs={'a': 2})
    f = z3.Function('mem', z3.BitVecSort(32), z3.BitVecSort(4))
    i = ctx.choose('i', [S('b'), K(ctx.int('k', 0, 7)), mk('Plus', S('b'), S('c')), ('?', S('c'), S('b'), K(2, 3))])
    if not ctx.symbolic:
        fv = {}
        f = lambda x: ctx.sig('mem%d' % z3.simplify(x).as_long(), 4)      # uninterpreted memory: fixed contents
    e = ('idx', S('m'), i)
    if ctx.flag('bit'):
        e = ctx.choose('s', [('sel', e, K(2), K(1)), ('idx', e, K(3))])
    extra = '  reg [3:0] m [0:7];\n'
    run(ctx, wrap(e), extra=extra, arrays={'m': (f, 4)}, extra_given={'m': V.Val(z3.BitVecVal(0, 4))})


def h_cat(ctx, n):
    items = [S('a'), S('b'), ('sel', S('a'), K(2), K(1)), K(ctx.int('k', 0, 7), 3), mk('Plus', S('a'), S('b')),
             ('?', S('c'), S('a'), S('d')), ('cat', [S('c'), S('b')]), ('u', 'Unot', S('b'))]
    e = ('cat', [ctx.choose('i%d' % i, items if i < 2 else items[:6]) for i in range(n)])
    t = ctx.choose('t', ['plain', 'op', 'arm'])
    if t == 'op':
        e = mk('Minus', e, S('a'))
    elif t == 'arm':
        e = ('?', S('c'), e, e)
    run(ctx, e, yw=9)


def h_rep(ctx):
    n = ctx.int('n', 1, 3)
    it = ctx.choose('it', [[S('a')], [S('c'), S('b')], [('?', S('c'), S('a'), S('d'))], [mk('Plus', S('a'), S('d'))]])
    e = ('rep', K(n), it)
    t = ctx.choose('t', ['plain', 'cat', 'op'])
    if t == 'cat':
        e = ('cat', [S('b'), e])
    elif t == 'op':
        e = mk('Plus', e, S('b'))
    run(ctx, e, yw=9)


def h_armwidth(ctx):
    """arms of different widths where the width matters"""
    c = ('?', S('c'), S('a'), S('b'))       # 4 and 3 bits
    k = ctx.choose('shape', range(5))
    e = [lambda: ('cat', [S('c'), c]), lambda: ('cat', [c, S('b')]), lambda: mk('Eq', ('u', 'Unot', c), S('a')),
         lambda: ('u', 'Uand', c), lambda: mk('Plus', c, S('a'))][k]()
    run(ctx, e, yw=9, known=[('C06-armwidth', ctx.sig('c', 1) == 0 if k in (1, 2, 3) else False)])
