"""C15: walking the drivers of a signal back to the sources gives a tree with the value of the composed design.
Real code: pyverilog/dataflow/{walker,merge,replace,optimizer,analyzer passes}.py.
Oracle: the design read directly (every wire an independent bit-vector function of its drivers)."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'chains of two (stated ones of three) intermediate signals of 4 bits, every form of driver with every form of use, declared ranges [3:0], [5:2], [0:3] of the intermediate signal; '
             'partial drivers with holes; diamonds; instances, functions, generate loops; combinational always blocks; registers with 0..2 steps; feedback; arrays with constant and dynamic element; '
             'constants and select bounds symbolic, all source values',
    'thorough': 'as quick, with ranges of the intermediate signal [4+k:k] for k up to 4 and all chains of three'}
OUTSIDE = 'intermediate signals whose declared width cuts or extends the value of their driver (trees do not record widths of the signals walked through); the value of registers walked through (steps > 0: only termination and leaves)'
ASSUMPTIONS = ['expression semantics of sx/vlog.py', 'no intermediate signal cuts or extends a value']
W = {'a': 4, 'b': 4, 'e': 8, 's': 1, 'i': 2}
RANGES = [(3, 0), (5, 2), (0, 3), (2, 5)]
DRV = ['sig', 'and', 'not', 'neg', 'add', 'cat', 'cond', 'sel', 'const', 'andk', 'shift', 'condk', 'dyn']
USE = ['sig', 'not', 'and', 'idx', 'sel', 'cat', 'dyn', 'eq', 'cond', 'neg', 'add', 'red', 'condk', 'shift', 'idx2', 'selcat']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p, max_paths=100000))
    for d in DRV:
        add('chain-%s' % d, 'h_chain', drv=d)
    for u in USE:
        add('parts-%s' % u, 'h_parts', use=u)
        add('mid-%s' % u, 'h_mid', use=u)
    for k in range(6):
        add('diamond-%d' % k, 'h_diamond', k=k)
    for k in range(len(FIXED)):
        add('design-%d' % k, 'h_fixed', k=k)
    for k in range(len(LOOPS)):
        add('loop-%d' % k, 'h_loop', k=k)
    for k in range(4):
        add('array-%d' % k, 'h_array', k=k)
    return out


def bits(e, r, m, l):
    """bits m..l (from the LSB) of a signal with range r, as written"""
    at = lambda k: r[1] + k if r[0] >= r[1] else r[1] - k
    return ('sel', e, K(at(m)), K(at(l)))


def bit(e, r, k):
    return ('idx', e, K(r[1] + k if r[0] >= r[1] else r[1] - k))


def drv(ctx, d, x, y):
    """an expression of exactly 4 bits; x, y: 4-bit signals"""
    a, b = S(x), S(y)
    if d == 'sig':
        return a
    if d == 'and':
        return ('b', ctx.choose('op', ['And', 'Or', 'Xor', 'Xnor']), a, b)
    if d == 'not':
        return ('u', 'Unot', a)
    if d == 'neg':
        return ('u', 'Uminus', a)
    if d == 'add':
        return ('b', ctx.choose('op', ['Plus', 'Minus', 'Times']), a, b)
    if d == 'cat':
        return ('cat', [('sel', b, K(1), K(0)), ('idx', a, K(ctx.int('ci', 0, 3))), S('s')])
    if d == 'cond':
        return ('?', S('s'), a, b)
    if d == 'condk':
        return ('?', ('b', 'LessThan', a, b), K(ctx.int('kd', 0, 15), 4), ('u', 'Unot', b))
    if d == 'sel':
        l = ctx.int('sl', 0, 4)
        return ('sel', S('e'), K(l + 3), K(l))
    if d == 'const':
        return K(ctx.int('kd', 0, 15), 4)
    if d == 'andk':
        return ('b', 'And', a, K(ctx.int('kd', 0, 15), 4))
    if d == 'shift':
        return ('b', ctx.choose('sh', ['Sll', 'Srl']), a, S('i'))
    if d == 'dyn':
        return ('cat', [K(0, 2), ('idx', S('e'), S('i')), ('idx', a, S('i'))])
    raise AssertionError(d)


def use(ctx, u, t, r):
    """(expression that uses signal t of range r, width)"""
    x, b = S(t), S('b')
    if u == 'sig':
        return x, 4
    if u == 'not':
        return ('u', 'Unot', x), 4
    if u == 'neg':
        return ('u', 'Uminus', x), 4
    if u == 'and':
        return ('b', 'Xor', x, b), 4
    if u == 'add':
        return ('b', 'Plus', x, b), 4
    if u == 'idx':
        return bit(x, r, ctx.choose('ub', [0, 1, 3])), 1
    if u == 'sel':
        m, l = ctx.choose('us', [(3, 0), (2, 1), (3, 2), (0, 0), (1, 0)])
        return bits(x, r, m, l), m - l + 1
    if u == 'cat':
        return ('cat', [b, x]), 8
    if u == 'dyn':
        i = S('i') if r[0] >= r[1] and r[1] == 0 else ('b', 'Plus', S('i'), K(min(r), 4))
        return ('idx', x, i), 1
    if u == 'eq':
        return ('b', ctx.choose('cmp', ['Eq', 'LessThan', 'NotEq']), x, K(ctx.int('ku', 0, 15), 4)), 1
    if u == 'cond':
        return ('?', ('b', 'Eq', x, b), x, b), 4
    if u == 'red':
        return ('u', ctx.choose('r', ['Uand', 'Uor', 'Uxor', 'Ulnot']), x), 1
    if u == 'condk':
        return ('?', bit(x, r, 1), K(ctx.int('ku', 0, 15), 4), x), 4
    if u == 'shift':
        return ('b', 'Srl', x, K(ctx.int('ku', 0, 3))), 4
    if u == 'idx2':
        return ('b', 'Land', bit(x, r, 2), ('u', 'Ulnot', bit(x, r, 0))), 1
    if u == 'selcat':
        return ('cat', [bits(x, r, 1, 0), bits(x, r, 3, 2)]), 4
    raise AssertionError(u)


def rt(r):
    return '[%d:%d] ' % r


def lsb_of(r):
    return r[1] if r[0] >= r[1] else ('up', r[1])


class Ref(object):
    """the design, signal by signal"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.env = {n: V.Val(ctx.sig(n, w)) for n, w in W.items()}
        self.lsbs = {}

    def sem(self):
        return V.Sem(self.env, lsbs=self.lsbs)

    def let(self, n, w, parts, r=None):
        """parts: [(msb, lsb, expression)] counted from the LSB"""
        z = z3.BitVecVal(0, w)
        v = V.Val(z, z3.BitVecVal(-1, w))
        for m, l, e in parts:
            v = V.overlay(v, V.vext(self.sem().ev(e, m - l + 1), m - l + 1), l, w)
        if v.u is not None and z3.is_true(z3.simplify(v.u == 0)):
            v = V.Val(v.b)
        self.env[n] = v
        if r:
            self.lsbs[n] = lsb_of(r)
        return v


INPUTS = 'input [3:0] a, b, input [7:0] e, input s, clk, rst, input [1:0] i'


def tree_of(ctx, text, sig, step=0, how=None):
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
    w = call(ctx, 'constant resolution of\n%s' % text, V.walker, fl)
    n = V.name_of(fl, 'TOP.' + sig)
    if how is None:
        how = ctx.choose('entry', ['walkTree', 'walkBind'])
    with V.quiet():
        if how == 'walkTree':
            tree = call(ctx, 'walking back %s in\n%s' % (sig, text), lambda: w.walkTree(w.getTree(n), visited=set([n]), step=step))
        else:
            tree = call(ctx, 'walking back %s in\n%s' % (sig, text), lambda: w.walkBind('TOP.' + sig, step))
    src = set(str(x) for x in call(ctx, 'sources of the tree of %s in\n%s' % (sig, text), w.getSources, tree))
    ctx.check(src == V.leaves(tree), lambda: 'sources %s of a tree with the leaf signals %s in\n%s' % (sorted(src), sorted(V.leaves(tree)), text))
    return fl, w, tree


def judge(ctx, text, sig, want, w, leaves, env=None, lsbs=None, step=0, how=None, arrays=()):
    """the walked tree of sig has the value want wherever want is defined, and only the stated leaf signals"""
    ctx.note(text)
    fl, wk, tree = tree_of(ctx, text, sig, step, how)
    got = V.leaves(tree)
    ctx.check(got <= set('TOP.' + x for x in leaves), lambda: 'tree of %s has the leaf signals %s, sources are %s: %s in\n%s' % (sig, sorted(got), sorted(leaves), tree.tostr(), text))
    d = V.DFEval(fl, {'TOP.' + n: v for n, v in (env or {}).items()}, lsbs={'TOP.' + n: v for n, v in (lsbs or {}).items()},
                 arrays={'TOP.' + n: (z3.Function('el_' + n, z3.BitVecSort(32), z3.BitVecSort(4)), 4) for n in arrays})
    try:
        v = d.assigned(d.sem(None), V.df2e(tree, None), w)
    except V.Unsupported as ex:
        ctx.fail('tree of %s cannot be evaluated (%s): %s in\n%s' % (sig, ex, tree.tostr(), text))
    ctx.check(V.refines(want, v), lambda: 'tree %s of %s does not have the value of the design\n%s' % (tree.tostr(), sig, text))


def ranges(ctx):
    if ctx.tier == 'quick':
        return ctx.choose('range', RANGES)
    return ctx.choose('range', [(3 + k, k) for k in range(5)] + [(k, 3 + k) for k in range(3)])


def decl(ctx, r, n, e):
    """a signal with one driver: assignment, declaration or always block"""
    k = ctx.choose('decl-%s' % n, ['assign', 'wire', 'always'])
    if k == 'assign':
        return 'wire %s%s; assign %s = %s;' % (rt(r), n, n, V.emit(e))
    if k == 'wire':
        return 'wire %s%s = %s;' % (rt(r), n, V.emit(e))
    return 'reg %s%s; always @* %s = %s;' % (rt(r), n, n, V.emit(e))


def top(body, w):
    return 'module TOP(%s, output %sf);\n%s\nendmodule\n' % (INPUTS, V.rng(w), body)


def h_chain(ctx, drv):
    u = ctx.choose('use', USE)
    r = ranges(ctx) if u in ('idx', 'sel', 'dyn', 'idx2', 'selcat', 'sig', 'condk') else (3, 0)
    e1 = globals()['drv'](ctx, drv, 'a', 'b')
    e2, w = use(ctx, u, 't', r)
    ref = Ref(ctx)
    ref.let('t', 4, [(3, 0, e1)], r)
    want = ref.let('f', w, [(w - 1, 0, e2)])
    style = decl(ctx, r, 't', e1) if u in ('sig', 'sel') else 'wire %st; assign t = %s;' % (rt(r), V.emit(e1))
    judge(ctx, top('%s\nassign f = %s;' % (style, V.emit(e2)), w), 'f', want, w, list(W), ref.env, how=None if u == 'sel' else 'walkTree')


def h_mid(ctx, use):
    """three levels: the middle signal takes part of the first"""
    f = globals()['use']
    r = ranges(ctx)
    d = ctx.choose('drv', ['sig', 'not', 'sel', 'cat', 'cond', 'dyn'] if ctx.tier == 'quick' else DRV)
    e1 = drv(ctx, d, 'a', 'b')
    mid = ctx.choose('mid', ['parts', 'swap', 'same'])
    e2 = {'parts': ('cat', [bits(S('t'), r, 1, 0), bits(S('t'), r, 3, 2)]), 'swap': ('?', bit(S('t'), r, 0), S('t'), S('b')), 'same': S('t')}[mid]
    q = (3, 0) if r == (3, 0) else ctx.choose('range2', [(3, 0), (5, 2), (0, 3)])
    e3, w = f(ctx, use, 'u', q)
    ref = Ref(ctx)
    ref.let('t', 4, [(3, 0, e1)], r)
    ref.let('u', 4, [(3, 0, e2)], q)
    want = ref.let('f', w, [(w - 1, 0, e3)])
    judge(ctx, top('wire %st; wire %su;\nassign f = %s;\nassign u = %s;\nassign t = %s;' % (rt(r), rt(q), V.emit(e3), V.emit(e2), V.emit(e1)), w),
          'f', want, w, list(W), ref.env, how='walkTree')


def h_parts(ctx, use):
    """the intermediate signal is driven in parts, some bits are not driven"""
    f = globals()['use']
    r = ranges(ctx)
    layout = ctx.choose('layout', [[(3, 2), (1, 0)], [(3, 3), (2, 1), (0, 0)], [(3, 2)], [(1, 0)], [(3, 3), (0, 0)], [(2, 1)]])
    e, w = f(ctx, use, 't', r)
    ref = Ref(ctx)
    parts, text = [], []
    for m, l in layout:
        n = m - l + 1
        x = {1: ('idx', S('a'), K(m)), 2: ('sel', S('e'), K(m + 2), K(l + 2))}[n] if ctx.flag('plain%d' % m) else ('u', 'Unot', {1: S('s'), 2: S('i')}[n])
        parts.append((m, l, x))
        lhs = bit(S('t'), r, m) if n == 1 else bits(S('t'), r, m, l)
        text.append('assign %s = %s;' % (V.emit(lhs), V.emit(x)))
    if ctx.flag('backwards'):
        text.reverse()
    ref.let('t', 4, parts, r)
    want = ref.let('f', w, [(w - 1, 0, e)])
    judge(ctx, top('wire %st;\n%s\nassign f = %s;' % (rt(r), '\n'.join(text), V.emit(e)), w), 'f', want, w, list(W) + ['t'], ref.env, ref.lsbs, how='walkTree')


def h_diamond(ctx, k):
    a, b = S('a'), S('b')
    d = ctx.choose('drv', ['and', 'add', 'cond', 'sel'])
    e1 = drv(ctx, d, 'a', 'b')
    e2 = [('b', 'Plus', S('t'), b), ('u', 'Unot', S('t')), ('?', ('idx', S('t'), K(0)), S('t'), a), ('b', 'And', S('t'), S('t')),
          ('cat', [('sel', S('t'), K(1), K(0)), ('sel', S('t'), K(3), K(2))]), S('t')][k]
    e3 = ctx.choose('join', [('b', 'Xor', S('u'), S('t')), ('?', ('b', 'LessThan', S('u'), S('t')), S('u'), S('t')), ('b', 'Minus', S('t'), S('u')), ('cat', [S('t'), S('u')])])
    w = 8 if e3[0] == 'cat' else 4
    ref = Ref(ctx)
    ref.let('t', 4, [(3, 0, e1)])
    ref.let('u', 4, [(3, 0, e2)])
    want = ref.let('f', w, [(w - 1, 0, e3)])
    judge(ctx, top('wire [3:0] t, u;\nassign u = %s;\nassign t = %s;\nassign f = %s;' % (V.emit(e2), V.emit(e1), V.emit(e3)), w), 'f', want, w, list(W), ref.env)


# (text, signal, width, value, leaves); k: a symbolic constant
FIXED = [
    # instances
    lambda k: ('module SUB(input [3:0] x, y, output [3:0] z); wire [3:0] m; assign m = x ^ y; assign z = m & %s; endmodule\n' % V.emit(k),
               'wire [3:0] t; SUB u(.x(a), .y(b), .z(t)); assign f = t | b;', 4, ('b', 'Or', ('b', 'And', ('b', 'Xor', S('a'), S('b')), k), S('b'))),
    lambda k: ('module SUB(input [3:0] x, output [3:0] z); assign z = ~x; endmodule\n',
               'wire [3:0] t; SUB u(.x(a & b), .z(t)); SUB v(.x(t), .z(f));', 4, ('b', 'And', S('a'), S('b'))),
    lambda k: ('module SUB(input [3:0] x, output z); assign z = x == %s; endmodule\n' % V.emit(k),
               'wire t; SUB u(.x(e[6:3]), .z(t)); assign f = {t, a[1:0], s};', 4,
               ('cat', [('b', 'Eq', ('sel', S('e'), K(6), K(3)), k), ('sel', S('a'), K(1), K(0)), S('s')])),
    # instance output to a part
    lambda k: ('module SUB(input x, output z); assign z = !x; endmodule\n',
               'wire [3:0] t; SUB u0(a[0], t[0]); SUB u1(a[1], t[1]); SUB u2(a[2], t[2]); SUB u3(a[3], t[3]); assign f = t;', 4, ('u', 'Unot', S('a'))),
    # functions
    lambda k: ('', 'function [3:0] g; input [3:0] x; input y; begin if (y) g = x ^ %s; else g = x; end endfunction\nwire [3:0] t; assign t = g(a, s); assign f = t & b;' % V.emit(k), 4,
               ('b', 'And', ('?', S('s'), ('b', 'Xor', S('a'), k), S('a')), S('b'))),
    # always blocks
    lambda k: ('', 'reg [3:0] t; always @* begin if (s) t = a; else t = %s; end assign f = t ^ b;' % V.emit(k), 4, ('b', 'Xor', ('?', S('s'), S('a'), k), S('b'))),
    lambda k: ('', 'reg [3:0] t, u; always @* begin t = a & b; u = t; t = %s; end assign f = u ^ t;' % V.emit(k), 4, ('b', 'Xor', ('b', 'And', S('a'), S('b')), k)),
    lambda k: ('', 'reg [3:0] t; always @* begin t = a; case (i) 0: t = b; 2\'d1: t[1:0] = i; endcase end assign f = t;', 4,
               ('?', ('b', 'Eq', S('i'), K(0, 2)), S('b'), ('?', ('b', 'Eq', S('i'), K(1, 2)), ('cat', [('sel', S('a'), K(3), K(2)), S('i')]), S('a')))),
    # generate
    lambda k: ('', 'wire [3:0] t; genvar g; generate for (g = 0; g < 4; g = g + 1) begin : l wire x; assign x = a[g] & b[3 - g]; assign t[g] = x; end endgenerate assign f = t;', 4,
               ('b', 'And', S('a'), ('cat', [('idx', S('b'), K(j)) for j in range(4)]))),
    # parameters
    lambda k: ('', 'parameter P = %s; localparam Q = P; wire [3:0] t; assign t = a & P; assign f = t | Q;' % V.emit(k), 4, ('b', 'Or', ('b', 'And', S('a'), k), k)),
    # assignment to a concatenation
    lambda k: ('', 'wire [1:0] t; wire [1:0] u; assign {t, u} = a & b; assign f = {u, t};', 4,
               ('cat', [('sel', S('z'), K(1), K(0)), ('sel', S('z'), K(3), K(2))])),
    # gates
    lambda k: ('', 'wire t, u; and g0(t, a[0], b[0]); not g1(u, t); assign f = {u, t, u, s};', 4, None),
]


def h_fixed(ctx, k):
    kk = K(ctx.int('k', 0, 15), 4)
    pre, body, w, e = FIXED[k](kk)
    ref = Ref(ctx)
    ref.let('z', 4, [(3, 0, ('b', 'And', S('a'), S('b')))])
    if e is None:
        t = ('b', 'And', ('idx', S('a'), K(0)), ('idx', S('b'), K(0)))
        e = ('cat', [('u', 'Unot', t), t, ('u', 'Unot', t), S('s')])
    want = ref.let('f', w, [(w - 1, 0, e)])
    judge(ctx, pre + top(body, w), 'f', want, w, list(W), ref.env)


# feedback and registers: (text, leaf signals, value with the registers given); every walk ends
LOOPS = [
    ('reg [3:0] r; always @(posedge clk) r <= r + 1; assign f = r & a;', ['r', 'a'], ('b', 'And', S('r'), S('a'))),
    ('reg [3:0] r, q; always @(posedge clk) begin r <= a; q <= r; end wire [3:0] t; assign t = q ^ r; assign f = t | b;', ['r', 'q', 'b'], ('b', 'Or', ('b', 'Xor', S('q'), S('r')), S('b'))),
    ('reg [3:0] r; wire [3:0] n; assign n = s ? r : a; always @(posedge clk) r <= n; assign f = n;', ['s', 'r', 'a'], ('?', S('s'), S('r'), S('a'))),
    ('reg [3:0] r; always @(posedge clk or posedge rst) if (rst) r <= 0; else r <= ~r; assign f = r;', ['r'], S('r')),
    ('wire [3:0] t; assign t = t & a; assign f = t;', ['t', 'a'], None),
    ('wire [3:0] t, u; assign t = u & a; assign u = t | b; assign f = t;', ['t', 'a', 'b', 'u'], None),
    ('wire [3:0] t; assign t[1:0] = t[3:2]; assign t[3:2] = i; assign f = t;', ['t', 'i'], None),
    ('reg [3:0] t; always @* if (s) t = a; assign f = t;', ['t', 's', 'a'], None),
    ('reg [3:0] t; always @* if (s) t = a; assign f = ~t;', ['t', 's', 'a'], ('u', 'Unot', ('?', S('s'), S('a'), S('t')))),
    ('reg [3:0] t; always @* if (s) t[1:0] = i; else if (a[0]) t = b; assign f = {t[0], t[3:1]};', ['t', 's', 'i', 'a', 'b'], None),
    ('wire [3:0] t; assign f = t ^ a;', ['t', 'a'], ('b', 'Xor', S('t'), S('a'))),
    ('reg [3:0] r; always @(posedge clk) r[1:0] <= i; assign f = {r[0], r[3:1]};', ['r'], ('cat', [('idx', S('r'), K(0)), ('sel', S('r'), K(3), K(1))])),
    ('reg [3:0] p, q; always @(posedge clk) begin p <= q; q <= p; end assign f = p ^ q;', ['p', 'q'], ('b', 'Xor', S('p'), S('q')))]


def h_loop(ctx, k):
    body, leaves, e = LOOPS[k]
    text = top(body, 4)
    ref = Ref(ctx)
    for n in 'rqpt':
        ref.env[n] = V.Val(ctx.sig(n, 4))
    step = ctx.choose('step', [0, 1, 2, 3])
    if step == 0 and e is not None:
        judge(ctx, text, 'f', ref.let('f', 4, [(3, 0, e)]), 4, leaves, ref.env)
    else:
        ctx.note(text)
        fl, w, tree = tree_of(ctx, text, 'f', step)
        got = V.leaves(tree)
        ctx.check(got <= set('TOP.' + x for x in list(W) + ['p', 'q', 'r', 't', 'u', 'n', 'rst']), lambda: 'tree of f has the leaf signals %s in\n%s' % (sorted(got), text))


def h_array(ctx, k):
    """elements of an array of nets"""
    ref = Ref(ctx)
    j = ctx.int('j', 0, 3)
    base = ctx.choose('base', [0, 1])
    m = [('b', 'And', S('a'), S('b')), S('b'), ('u', 'Unot', S('a')), ('sel', S('e'), K(5), K(2))]
    text = 'wire [3:0] m [%d:%d];\n' % (base, base + 3)
    for n, e in enumerate(m):
        text += 'assign m[%d] = %s;\n' % (n + base, V.emit(e))
    pick = ('?', ('b', 'Eq', S('x'), K(0)), m[0], ('?', ('b', 'Eq', S('x'), K(1)), m[1], ('?', ('b', 'Eq', S('x'), K(2)), m[2], m[3])))
    ref.env['x'] = V.Val(E.as_bv(j, 4)) if k in (0, 2) else V.vext(ref.env['i'], 4)
    idx = V.emit(K(j + base)) if k in (0, 2) else 'i' if base == 0 else "(i + 3'd%d)" % base
    if k < 2:
        text += 'assign f = m[%s] ^ b;' % idx
        e = ('b', 'Xor', pick, S('b'))
    else:
        text += 'wire [3:0] t; assign t = m[%s]; assign f = {t[1:0], t[3:2]};' % idx
        ref.let('y', 4, [(3, 0, pick)])
        e = ('cat', [('sel', S('y'), K(1), K(0)), ('sel', S('y'), K(3), K(2))])
    want = ref.let('f', 4, [(3, 0, e)])
    judge(ctx, top(text, 4), 'f', want, 4, list(W) + ['m'], ref.env, arrays=['m'])
