"""C09: parameters, local parameters and ranges resolve to their elaborated values.
Real code: parser, ModuleVisitor, SignalVisitor (constants, overrides), BindVisitor (parameter binds), VerilogOptimizer and
VerilogDataflowOptimizer.resolveConstant."""
import itertools
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'constant expressions: every unary and binary operator over two parameters and a literal in both nestings, conditionals in '
             'condition/arm/operand position, concatenations, replications, part and bit selects of constants, $signed/$unsigned; chains of up to '
             '6 dependent parameters in header, body and local form; every override pattern of three parameters (positional 0..3, every ordered '
             'choice of named ones) in two instances of one module, values: literals, parameters of the parent, sums; three levels of '
             'hierarchy with equal names; parameters inside generate-for iterations and taken generate-if branches; 12 parameters, 6 levels and '
             '8 instances in the long templates; ranges of inputs, outputs, wires, regs, integers and memories in both directions; '
             'parameters with declared ranges; all literal values 0..15 (thorough 0..255)',
    'thorough': 'as quick with values 0..255 and triples of operators'}
OUTSIDE = 'defparam, signed and real parameters, values that overflow 32 bits, $clog2 and other system functions, configurations'
ASSUMPTIONS = ['IEEE 1364-2005 constant expression semantics for unsigned operands as written in sx/vlog.py; divisors are nonzero']
HI = 15
UN = list(V.UOP)
BIN = [o for o in V.BOP if o != 'Power']


def prepare(ctx):
    global HI
    HI = 255 if ctx.tier == 'thorough' else 15


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for o in BIN:
        add('expr-%s' % o, 'h_expr', op=o)
    for t in ('plain', 'op', 'in'):
        add('expr-un-' + t, 'h_un', t=t)
    for k in range(9):
        add('cond-%d' % k, 'h_cond', k=k)
    for k in range(12):
        add('struct-%d' % k, 'h_struct', k=k)
    for n in range(2, 7):
        add('chain-%d' % n, 'h_chain', n=n)
    for st in range(4):
        add('over-%d' % st, 'h_over', style=st)
    for k in range(6):
        add('deep-%d' % k, 'h_deep', k=k)
    for k in range(8):
        add('gen-%d' % k, 'h_gen', k=k)
    for k in range(9):
        add('range-%d' % k, 'h_range', k=k)
    for k in range(5):
        add('width-%d' % k, 'h_width', k=k)
    for k in range(3):
        add('big-%d' % k, 'h_big', k=k)
    if not q:
        for o in BIN:
            add('triple-%s' % o, 'h_triple', op=o)
    return out


def val(x):
    """int or 32-bit term"""
    return x.b if isinstance(x, V.Val) else x if isinstance(x, z3.ExprRef) else E.as_bv(x, 32)


def ref(e, env):
    sem = V.Sem({n: V.Val(val(v)) for n, v in env.items()}, {n: v for n, v in env.items() if not isinstance(v, (V.Val, z3.ExprRef))})
    return V.vext(sem.ev(e, sem.width(e)), 32)      # a parameter without a range takes the width of its value


def judge(ctx, text, consts, ranges=None, dims=None, absent=(), known=None):
    """consts: full name -> expected value; ranges: full name -> (msb, lsb)"""
    ctx.note(text)
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
    t = target.load()
    o = t.optimizer.VerilogDataflowOptimizer(fl.terms_raw, fl.binds_raw)
    call(ctx, 'resolving the constants of\n%s' % text, o.resolveConstant)
    got = {str(k): v for k, v in o.getConstlist().items()}
    terms = {str(k): v for k, v in o.getResolvedTerms().items()}
    for n, want in consts.items():
        g = got.get(n)
        if g is None:
            ctx.fail('constant %s resolves to a value in\n%s' % (n, text))
        ctx.check(E.as_bv(g.value, 32) == val(want), lambda n=n, g=g: 'constant %s has its elaborated value (got %s) in\n%s' % (n, g.value, text),
                  known=known)
    for n, (m, l) in (ranges or {}).items():
        tm = terms.get(n)
        if tm is None:
            ctx.fail('signal %s exists in\n%s' % (n, text))
        for what, g, want in (('left', tm.msb, m), ('right', tm.lsb, l)):
            if type(g).__name__ != 'DFEvalValue':
                ctx.fail('%s bound of %s resolves to a number (got %s) in\n%s' % (what, n, g if g is None else g.tostr(), text))
            ctx.check(E.as_bv(g.value, 32) == val(want), lambda n=n, g=g, what=what: '%s bound of %s is its elaborated value (got %s) in\n%s' % (
                what, n, g.value, text), known=known)
    for n, ds in (dims or {}).items():
        tm = terms.get(n)
        if tm is None or tm.dims is None or len(tm.dims) != len(ds):
            ctx.fail('dimensions of %s in\n%s' % (n, text))
        for (a, b), (x, y) in zip(tm.dims, ds):
            for g, want in ((a, x), (b, y)):
                if type(g).__name__ != 'DFEvalValue':
                    ctx.fail('dimension of %s resolves to a number (got %s) in\n%s' % (n, g.tostr(), text))
                ctx.check(E.as_bv(g.value, 32) == val(want), lambda n=n: 'dimension of %s has its elaborated value in\n%s' % (n, text), known=known)
    for n in absent:
        ctx.check(n not in terms and n not in got, '%s does not exist in\n%s' % (n, text))
    return fl, got, terms


def k_(ctx, name, lo=0, hi=None):
    return ctx.int(name, lo, HI if hi is None else hi)


def txt(e):
    return V.emit(e)


def h_expr(ctx, op):
    """one operator, and pairs, over parameters and literals"""
    p, q, k = k_(ctx, 'p'), k_(ctx, 'q'), k_(ctx, 'k')
    o2 = ctx.choose('op2', [None, 'Plus', 'Minus', 'Times', 'And', 'Eq', 'LessThan', 'Land', 'Srl'])
    if op in ('Sll', 'Sla') or o2 in ('Sll',):
        ctx.assume(q <= 15)
        ctx.assume(k <= 15)
    a, b, c = S('P'), S('Q'), K(k)
    e = ('b', op, a, b)
    if o2:
        if ctx.flag('left'):
            e = ('b', op, ('b', o2, a, c), b)
            div = b
        else:
            div = ('b', o2, c, b)
            e = ('b', op, a, div)
    else:
        div = b
    env = {'P': p, 'Q': q}
    if op in ('Divide', 'Mod'):
        ctx.assume(E.mkbool(ref(div, env).b != 0))
    neg_free(ctx, e, env)
    final(ctx, e, env)


def neg_free(ctx, e, env):
    """no intermediate result is negative or overflows (exact = 32-bit)"""
    if isinstance(e, tuple) and e[0] in ('b', 'u'):
        for x in e[2:]:
            neg_free(ctx, x, env)
        if e[1] == 'Minus':
            l, r = ref(e[2], env).b, ref(e[3], env).b
            ctx.assume(E.mkbool(z3.UGE(l, r)))
        elif e[1] in ('Sll', 'Sla'):
            ctx.assume(E.mkbool(z3.ULE(ref(e[3], env).b, 15)))
            ctx.assume(E.mkbool(z3.ULE(ref(e[2], env).b, 0xffff)))


def final(ctx, e, env, extra=''):
    form = ctx.choose('form', ['localparam', 'parameter', 'range'])
    decl = 'module TOP;\n  parameter P = %s;\n  localparam Q = %s;\n' % (txt(K(env['P'])), txt(K(env['Q'])))
    want = ref(e, env)
    wide = V.vext(V.Sem({n: V.Val(val(v)) for n, v in env.items()}).ev(e, 32), 32)
    ctx.assume(E.mkbool(want.b == wide.b))              # no intermediate result overflows its width
    cs = {'TOP.P': env['P'], 'TOP.Q': env['Q']}
    rs = {}
    if form == 'range':
        decl += '  wire [%s:0] s;\n' % txt(e)
        rs['TOP.s'] = (want, 0)
    else:
        decl += '  %s R = %s;\n  wire [R:0] s;\n' % (form, txt(e))
        cs['TOP.R'] = want
        rs['TOP.s'] = (want, 0)
    judge(ctx, decl + extra + 'endmodule\n', cs, rs)


def h_triple(ctx, op):
    p, q, k = k_(ctx, 'p', 0, 15), k_(ctx, 'q', 0, 15), k_(ctx, 'k', 1, 15)
    R = ['Plus', 'Minus', 'And', 'Or', 'Eq', 'LessThan', 'Land', 'Srl']
    o2, o3 = ctx.choose('op2', R), ctx.choose('op3', R)
    a, b, c = S('P'), S('Q'), K(k)
    sh = ctx.choose('sh', range(3))
    m = lambda o, x, y: ('b', o, x, y)
    e = [lambda: m(op, m(o2, a, b), m(o3, b, c)), lambda: m(o2, m(op, a, m(o3, b, c)), c), lambda: m(o2, a, m(o3, m(op, b, c), a))][sh]()
    env = {'P': p, 'Q': q}
    if op in ('Divide', 'Mod'):
        d = {0: m(o3, b, c), 1: m(o3, b, c), 2: c}[sh]
        ctx.assume(E.mkbool(ref(d, env).b != 0))
    neg_free(ctx, e, env)
    final(ctx, e, env)


def h_un(ctx, t):
    u = ctx.choose('u', UN)
    p, q = k_(ctx, 'p'), k_(ctx, 'q')
    a = S('P')
    e = ('u', u, a)
    if t == 'op':
        e = ('b', ctx.choose('o', ['And', 'Eq', 'Plus']), e, S('Q'))
    elif t == 'in':
        e = ('u', u, ('b', ctx.choose('o', ['And', 'Eq', 'Plus']), a, S('Q')))
    final(ctx, e, {'P': p, 'Q': q})


def h_cond(ctx, k):
    p, q = k_(ctx, 'p'), k_(ctx, 'q')
    c1 = ('b', ctx.choose('o', ['GreaterThan', 'Eq', 'And']), S('P'), S('Q'))
    a, b = S('P'), K(k_(ctx, 'v'))
    q_ = lambda c, t, f: ('?', c, t, f)
    m = lambda o, x, y: ('b', o, x, y)
    e = [lambda: q_(c1, a, b), lambda: m('Plus', q_(c1, a, b), S('Q')), lambda: m('Plus', S('Q'), q_(c1, a, b)),
         lambda: q_(q_(S('Q'), c1, S('P')), a, b), lambda: q_(c1, q_(S('Q'), a, b), b), lambda: q_(c1, a, q_(S('Q'), b, a)),
         lambda: ('u', 'Ulnot', q_(c1, a, b)), lambda: ('cat', [K(1, 2), q_(c1, ('sel', S('P'), K(1), K(0)), K(2, 2))]),
         lambda: m('Times', q_(c1, a, b), q_(S('Q'), b, a))][k]()
    final(ctx, e, {'P': p, 'Q': q})


def h_struct(ctx, k):
    p, q = k_(ctx, 'p'), k_(ctx, 'q')
    v = ctx.int('v', 0, 7)
    n = ctx.int('n', 1, 3)
    m, l = ctx.int('m', 0, 4), ctx.int('l', 0, 4)
    if k in (3, 4, 9):
        ctx.assume(m >= l)
    e = [lambda: ('cat', [K(v, 3), K(5, 4)]), lambda: ('rep', K(n), [K(v, 3)]), lambda: ('rep', ('b', 'Plus', S('N'), K(1)), [K(v, 3), K(1, 1)]),
         lambda: ('sel', S('P'), K(m), K(l)), lambda: ('b', 'Plus', ('sel', S('P'), K(m), K(l)), S('Q')), lambda: ('idx', S('P'), K(m)),
         lambda: ('b', 'Plus', ('idx', S('P'), K(m)), S('Q')), lambda: ('cat', [('idx', S('P'), K(m)), ('sel', S('P'), K(1), K(0))]),
         lambda: ('call', '$signed', [('b', 'Plus', S('P'), S('Q'))]), lambda: ('sel', S('P'), ('b', 'Plus', S('N'), K(m)), ('b', 'Plus', S('N'), K(l))),
         lambda: ('idx', S('P'), S('N')), lambda: ('call', '$unsigned', [('?', S('Q'), S('P'), K(v))])][k]()
    env = {'P': p, 'Q': q, 'N': n}
    form = ctx.choose('form', ['localparam', 'parameter', 'range'])
    decl = 'module TOP;\n  parameter P = %s, N = %s;\n  localparam Q = %s;\n' % (txt(K(p)), txt(K(n)), txt(K(q)))
    want = ref(e[2][0] if e[0] == 'call' else e, env)
    if form == 'range':
        return judge(ctx, decl + '  wire [%s:0] s;\nendmodule\n' % txt(e), {}, {'TOP.s': (want, 0)})
    judge(ctx, decl + '  %s R = %s;\n  wire [R+1:R] s;\nendmodule\n' % (form, txt(e)), {'TOP.R': want},
          {'TOP.s': (want.b + 1, want)})


def h_chain(ctx, n):
    """every parameter depends on earlier ones"""
    head = ctx.choose('head', sorted(set([0, 1, n - 1, n])))
    env, cs = {}, {}
    hd, body = [], []
    for i in range(n):
        nm = 'P%d' % i
        if i == 0:
            e = K(k_(ctx, 'v'))
        else:
            j = ctx.choose('d%d' % i, [i - 1, 0]) if i < 4 else i - 1
            e = ('b', 'Plus', S('P%d' % j), K(k_(ctx, 'a%d' % i)))
        env[nm] = ref(e, env)
        cs['TOP.' + nm] = env[nm]
        if i < head:
            hd.append('parameter %s = %s' % (nm, txt(e)))
        else:
            body.append('  %s %s = %s;\n' % ('localparam' if i % 2 else 'parameter', nm, txt(e)))
    text = 'module TOP%s;\n%s  wire [P%d:P0] s;\nendmodule\n' % (' #(%s) ()' % ', '.join(hd) if hd else '', ''.join(body), n - 1)
    judge(ctx, text, cs, {'TOP.s': (env['P%d' % (n - 1)], env['P0'])})


def sub(style):
    """three overridable parameters A, B, C; C and the local L depend on others"""
    if style == 0:
        h = ' #(parameter A = 3, parameter B = 5, parameter C = A + 2)'
        b = '  localparam L = A + B + C;\n'
    elif style == 1:
        h = ''
        b = '  parameter A = 3;\n  localparam K = A + 1;\n  parameter B = 5;\n  parameter C = A + 2;\n  localparam L = A + B + C;\n'
    elif style == 2:
        h = ' #(parameter A = 3, B = 5)'
        b = '  parameter C = A + 2;\n  localparam L = A + B + C;\n'
        b = b
    else:
        h = ''
        b = '  localparam Z = 9;\n  parameter A = 3, B = 5;\n  localparam L0 = B;\n  parameter C = A + 2;\n  localparam L = A + L0 + C;\n'
    return 'module sub%s (x, y);\n%s  input [A-1:0] x;\n  output [L:B] y;\n  reg [C:0] r;\nendmodule\n' % (h, b)


def pattern(ctx, tag, env, nmax=3):
    """an override list: text and {name: value}"""
    vals = [K(k_(ctx, 'v' + tag)), S('P'), ('b', 'Plus', S('P'), K(k_(ctx, 'w' + tag)))]
    rot = ctx.choose('rot' + tag, range(3)) if tag == '0' else 1
    vals = vals[rot:] + vals[:rot]
    named = ctx.flag('named' + tag)
    ns = ['A', 'B', 'C']
    if not named:
        n = ctx.choose('n' + tag, range(nmax + 1))
        sel = ns[:n]
        t = ', '.join(txt(v) for v in vals[:n])
    else:
        perms = [p for k in range(1, nmax + 1) for p in itertools.permutations(ns, k)]
        sel = ctx.choose('sel' + tag, perms)
        t = ', '.join('.%s(%s)' % (a, txt(v)) for a, v in zip(sel, vals))
    return (' #(%s)' % t if sel else ''), {a: ref(v, env) for a, v in zip(sel, vals)}


def expect(ov):
    d = {'A': E.as_bv(3, 32), 'B': E.as_bv(5, 32)}
    for n in ('A', 'B'):
        if n in ov:
            d[n] = val(ov[n])
    d['C'] = val(ov['C']) if 'C' in ov else d['A'] + 2
    d['L'] = d['A'] + d['B'] + d['C']
    return {k: V.Val(v) for k, v in d.items()}


def h_over(ctx, style):
    p = k_(ctx, 'p')
    env = {'P': p}
    t0, o0 = pattern(ctx, '0', env)
    t1, o1 = ctx.choose('second', [0, 1, 2]), None
    if t1 == 0:
        t1, o1 = '', {}
    elif t1 == 1:
        x = k_(ctx, 'x')
        t1, o1 = ' #(.B(%s))' % txt(K(x)), {'B': x}
    else:
        x = k_(ctx, 'x')
        t1, o1 = ' #(%s, P)' % txt(K(x)), {'A': x, 'B': p}
    text = sub(style) + 'module TOP;\n  parameter P = %s;\n  sub%s u0 ();\n  sub%s u1 ();\nendmodule\n' % (txt(K(p)), t0, t1)
    text = text.replace('u0 ()', 'u0 (.x(8\'d0), .y())').replace('u1 ()', 'u1 (.x(8\'d0), .y())')
    cs, rs = {'TOP.P': p}, {}
    for u, o in (('u0', o0), ('u1', o1)):
        d = expect(o)
        for n in 'ABCL':
            cs['TOP.%s.%s' % (u, n)] = d[n]
        rs['TOP.%s.x' % u] = (d['A'].b - 1, 0)
        rs['TOP.%s.y' % u] = (d['L'], d['B'])
        rs['TOP.%s.r' % u] = (d['C'], 0)
    judge(ctx, text, cs, rs)


def h_deep(ctx, k):
    """three levels, equal names on every level"""
    a, b, c = k_(ctx, 'a'), k_(ctx, 'b'), k_(ctx, 'c')
    T = lambda v: txt(K(v))
    leaf = 'module leaf (x);\n  parameter W = 2;\n  parameter D = W + 1;\n  input [W:0] x;\n  wire [D:0] y;\nendmodule\n'
    W, D = 'TOP.m.l.W', 'TOP.m.l.D'
    z = {}
    if k == 0:
        mid = 'module mid;\n  parameter W = 1;\n  leaf #(W + %s) l (.x(8\'d0));\nendmodule\n' % T(a)
        top = 'module TOP;\n  parameter W = %s;\n  mid #(.W(W + %s)) m ();\nendmodule\n' % (T(b), T(c))
        z = {'TOP.W': b, 'TOP.m.W': b + c, W: b + c + a, D: b + c + a + 1}
    elif k == 1:
        mid = 'module mid;\n  parameter W = 1;\n  parameter D = 4;\n  leaf #(.D(W), .W(D)) l (.x(8\'d0));\nendmodule\n'
        top = 'module TOP;\n  parameter W = %s, D = %s;\n  mid #(D, W) m ();\nendmodule\n' % (T(a), T(b))
        z = {'TOP.m.W': b, 'TOP.m.D': a, W: a, D: b}
    elif k == 2:
        mid = 'module mid;\n  parameter W = %s;\n  localparam D = W + %s;\n  leaf #(.W(D)) l (.x(8\'d0));\n  leaf l2 (.x(8\'d0));\nendmodule\n' % (T(a), T(b))
        top = 'module TOP;\n  localparam W = %s;\n  mid m ();\n  mid #(W) n ();\nendmodule\n' % T(c)
        z = {'TOP.W': c, 'TOP.m.W': a, 'TOP.m.D': a + b, W: a + b, D: a + b + 1, 'TOP.m.l2.W': 2, 'TOP.m.l2.D': 3,
             'TOP.n.W': c, 'TOP.n.D': c + b, 'TOP.n.l.W': c + b, 'TOP.n.l.D': c + b + 1, 'TOP.n.l2.W': 2}
    elif k == 3:
        mid = 'module mid;\n  parameter W = 1;\n  leaf #(W) l (.x(8\'d0));\n  leaf #(.D(W)) l2 (.x(8\'d0));\nendmodule\n'
        top = 'module TOP;\n  mid #(%s) m ();\n  mid #(%s) n ();\n  leaf #(%s) l (.x(8\'d0));\nendmodule\n' % (T(a), T(b), T(c))
        z = {'TOP.m.W': a, 'TOP.n.W': b, W: a, D: a + 1, 'TOP.m.l2.W': 2, 'TOP.m.l2.D': a, 'TOP.n.l.W': b, 'TOP.n.l.D': b + 1,
             'TOP.n.l2.D': b, 'TOP.l.W': c, 'TOP.l.D': c + 1}
    elif k == 4:
        # equal instance names on both levels, module defined after its use
        mid = 'module mid;\n  parameter W = 1, D = 2;\n  leaf #(.W(D)) m (.x(8\'d0));\nendmodule\n'
        top = 'module TOP;\n  parameter W = %s;\n  mid #(.D(%s)) m ();\nendmodule\n' % (T(a), T(b))
        text = top + mid + leaf
        return judge(ctx, text, {'TOP.W': a, 'TOP.m.W': 1, 'TOP.m.D': b, 'TOP.m.m.W': b, 'TOP.m.m.D': b + 1}, {'TOP.m.m.x': (b, 0)})
    else:
        # several instances in one statement share the overrides
        mid = 'module mid;\n  parameter W = 1;\n  leaf #(W, %s) l (.x(8\'d0)), l2 (.x(8\'d0));\nendmodule\n' % T(c)
        top = 'module TOP;\n  mid #(%s) m (), n ();\n  mid o ();\nendmodule\n' % T(a)
        for i, w in (('m', a), ('n', a), ('o', 1)):
            for j in ('l', 'l2'):
                z['TOP.%s.%s.W' % (i, j)] = w
                z['TOP.%s.%s.D' % (i, j)] = c
    judge(ctx, leaf + mid + top, z, {'TOP.m.l.x': (z[W], 0), 'TOP.m.l.y': (z[D], 0)})


def h_gen(ctx, k):
    a, b = k_(ctx, 'a'), k_(ctx, 'b')
    n = ctx.choose('n', [1, 2, 3])
    T = lambda v: txt(K(v))
    leaf = 'module leaf (x);\n  parameter W = 2;\n  localparam D = W + %s;\n  input [W:0] x;\nendmodule\n' % T(b)
    cs, rs = {}, {}
    text = None
    if k == 0:
        body = '    leaf #(i + %s) l (.x(8\'d0));\n' % T(a)
        cs = lambda i, s: {s + '.l.W': a + i, s + '.l.D': a + i + b}
        rs = lambda i, s: {s + '.l.x': (a + i, 0)}
    elif k == 1:
        body = '    localparam L = i * 2 + %s;\n    wire [L:0] w;\n' % T(a)
        cs = lambda i, s: {s + '.L': i * 2 + a}
        rs = lambda i, s: {s + '.w': (i * 2 + a, 0)}
    elif k == 2:
        body = '    localparam L = i + P;\n    localparam M = L + 1;\n    leaf #(.W(M)) l (.x(8\'d0));\n'
        cs = lambda i, s: {s + '.L': i + a, s + '.M': i + a + 1, s + '.l.W': i + a + 1, s + '.l.D': i + a + 1 + b}
        rs = lambda i, s: {}
    elif k == 3:
        body = '    wire [i + %s:i] w;\n    reg [7:0] m [0:i];\n' % T(a)
        cs = lambda i, s: {}
        rs = lambda i, s: {s + '.w': (i + a, i), s + '.m': (7, 0)}
    if k < 4:
        start, step = ctx.choose('start', [0, 2]), ctx.choose('step', [1, 2])
        text = 'module TOP;\n  parameter P = %s;\n  genvar i;\n  generate for (i = %d; i < %d; i = i + %d) begin : g\n%s  end endgenerate\nendmodule\n' % (
            T(a), start, start + n * step, step, body)
        C, R = {'TOP.P': a}, {}
        t = leaf + text
        ctx.note(t)
        scopes = loop_scopes(ctx, t, [start + j * step for j in range(n)])
        for j in range(n):
            i = start + j * step
            C.update(cs(i, scopes[i]))
            R.update(rs(i, scopes[i]))
        return judge(ctx, t, C, R)
    cond = ('b', ctx.choose('c', ['LessThan', 'Eq', 'And']), S('P'), K(b))
    taken = ref(cond, {'P': a}).b != 0
    if k == 4:
        text = ('module TOP;\n  parameter P = %s;\n  generate if (%s) begin : g\n    localparam L = P + 1;\n    wire [L:0] w;\n  end else begin : h\n'
                '    localparam M = P + 2;\n    wire [M:0] w;\n  end endgenerate\nendmodule\n' % (T(a), txt(cond)))
        if ctx.branch(E.mkbool(taken)):
            return gjudge(ctx, text, {'.g.L': a + 1}, {'.g.w': (a + 1, 0)}, ['.h.M', '.h.w'])
        return gjudge(ctx, text, {'.h.M': a + 2}, {'.h.w': (a + 2, 0)}, ['.g.L', '.g.w'])
    if k == 5:
        text = leaf + ('module TOP;\n  parameter P = %s;\n  generate if (%s) leaf #(P) u (.x(8\'d0));\n  else leaf #(P + 3) v (.x(8\'d0));\n  endgenerate\nendmodule\n' % (T(a), txt(cond)))
        if ctx.branch(E.mkbool(taken)):
            return gjudge(ctx, text, {'.u.W': a, '.u.D': a + b}, {'.u.x': (a, 0)}, ['.v.W', '.v.x'])
        return gjudge(ctx, text, {'.v.W': a + 3, '.v.D': a + 3 + b}, {'.v.x': (a + 3, 0)}, ['.u.W', '.u.x'])
    if k == 6:
        # function with ranges that mention parameters, parameter used in an always block
        text = ('module TOP(CLK, q);\n  parameter P = %s;\n  localparam L = P + %s;\n  input CLK;\n  output reg [L:0] q;\n'
                '  function [P:0] f;\n    input [L:0] t;\n    f = t + P;\n  endfunction\n  wire [P:0] w;\n  assign w = f(q);\n'
                '  always @(posedge CLK) q <= q + L;\nendmodule\n' % (T(a), T(b)))
        fl, got, terms = judge(ctx, text, {'TOP.L': a + b}, {'TOP.q': (a + b, 0), 'TOP.w': (a, 0)})
        fs = [x for x in terms if x.endswith('.t')] + [x for x in terms if x.endswith('.f')]
        ctx.check(len(fs) == 2, 'function argument and result appear')
        for x, w in zip(fs, (a + b, a)):
            ctx.check(E.as_bv(terms[x].msb.value, 32) == val(w), 'range of %s is its elaborated value in\n%s' % (x, text))
        return
    # two modules, same localparam names, generate in the child controlled by its own parameter
    text = ('module ch;\n  parameter N = 1;\n  localparam L = N + %s;\n  genvar i;\n  generate for (i = 0; i < N; i = i + 1) begin : g\n'
            '    wire [i + L:0] w;\n  end endgenerate\nendmodule\nmodule TOP;\n  localparam L = %s;\n  ch #(%d) c ();\n  ch d ();\nendmodule\n' % (T(b), T(a), n))
    fl, got, terms = judge(ctx, text, {'TOP.L': a, 'TOP.c.N': n, 'TOP.d.N': 1, 'TOP.c.L': n + b, 'TOP.d.L': 1 + b})
    for c, m in (('c', n), ('d', 1)):
        ws = [x for x in terms if x.startswith('TOP.%s.' % c) and x.endswith('.w')]
        ctx.check(len(ws) == m, 'instance %s has %d loop iterations (got %s) in\n%s' % (c, m, ws, text))
        for i in range(m):
            w = [x for x in ws if '[%d]' % i in x]
            ctx.check(len(w) == 1, 'iteration %d of %s exists once (%s)' % (i, c, ws))
            ctx.check(E.as_bv(terms[w[0]].msb.value, 32) == val(i + m + b), 'range of %s in\n%s' % (w[0], text))


def loop_scopes(ctx, text, idx):
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
    out = {}
    inst = [str(k) for k in fl.an.getFrameTable().dict]
    for i in idx:
        m = [s for s in inst if s.endswith('[%d].g' % i)]
        if len(m) != 1:
            ctx.fail('iteration %d exists exactly once (%s) in\n%s' % (i, m, text))
        out[i] = m[0]
    m = [s for s in inst if s.endswith('].g')]
    ctx.check(len(m) == len(idx), 'exactly the iterations %s exist (%s) in\n%s' % (idx, m, text))
    return out


def gjudge(ctx, text, cs, rs, absent):
    """names given by their suffix (generate scopes in between)"""
    fl, got, terms = judge(ctx, text, {})
    for n in absent:
        ctx.check(not [x for x in list(got) + list(terms) if x.endswith(n)], '%s is not elaborated in\n%s' % (n, text))
    C, R = {}, {}
    for n, v in cs.items():
        m = [x for x in got if x.endswith(n)]
        ctx.check(len(m) == 1, 'constant %s exists once (%s) in\n%s' % (n, m, text))
        C[m[0]] = v
    for n, v in rs.items():
        m = [x for x in terms if x.endswith(n)]
        ctx.check(len(m) == 1, 'signal %s exists once (%s) in\n%s' % (n, m, text))
        R[m[0]] = v
    judge(ctx, text, C, R)


def h_range(ctx, k):
    """declarations of every kind"""
    a, b = k_(ctx, 'a'), k_(ctx, 'b')
    T = lambda v: txt(K(v))
    P = '  parameter A = %s, B = %s;\n' % (T(a), T(b))
    up = ctx.flag('up')
    r = '[B:A]' if up else '[A:B]'
    want = (b, a) if up else (a, b)
    kind = ['input', 'output', 'inout', 'wire', 'reg', 'output reg', 'tri', 'mem', 'hdr'][k]
    if kind == 'hdr':
        text = 'module TOP #(parameter A = %s, B = %s) (input %s s, output reg [A+B:0] t, inout [B:0] z);\nendmodule\n' % (T(a), T(b), r)
        return judge(ctx, text, {'TOP.A': a, 'TOP.B': b}, {'TOP.s': want, 'TOP.t': (a + b, 0), 'TOP.z': (b, 0)})
    if kind == 'mem':
        text = 'module TOP();\n%s  reg %s s [0:B+1];\n  reg [A:0] t [A+B:0];\n  integer n;\n  wire o;\nendmodule\n' % (P, r)
        return judge(ctx, text, {}, {'TOP.s': want, 'TOP.t': (a, 0), 'TOP.o': (0, 0), 'TOP.n': (31, 0)}, {'TOP.s': [(0, b + 1)], 'TOP.t': [(a + b, 0)]})
    ports = 's, t' if kind in ('input', 'output', 'inout', 'output reg') else ''
    text = 'module TOP(%s);\n%s  %s %s s, t;\n  %s %s u, v;\nendmodule\n' % (ports, P, kind, r, 'wire', '[A-1+B:B-B]')
    uv = (V.Val(E.as_bv(a, 32) + E.as_bv(b, 32) - 1), 0)
    judge(ctx, text, {'TOP.A': a, 'TOP.B': b}, {'TOP.s': want, 'TOP.t': want, 'TOP.u': uv, 'TOP.v': uv})


def h_width(ctx, k):
    """parameters with a declared range take that many bits"""
    a = ctx.int('a', 0, 15)
    v = ctx.int('v', 0, 15)
    T = lambda x: txt(K(x))
    if k == 0:
        text = 'module TOP;\n  parameter [3:0] P = %s;\n  localparam Q = {P, 4\'d%s};\n  localparam [7:0] R = Q;\nendmodule\n' % (T(a), T(v))
        return judge(ctx, text, {'TOP.P': a, 'TOP.Q': a * 16 + v, 'TOP.R': a * 16 + v})
    if k == 1:
        text = 'module TOP;\n  parameter [0:3] P = %s;\n  localparam [11:0] Q = {P, 4\'d%s, P};\nendmodule\n' % (T(a), T(v))
        return judge(ctx, text, {'TOP.P': a, 'TOP.Q': a * 256 + v * 16 + a})
    if k == 2:
        text = ('module sub;\n  parameter [3:0] P = 1;\n  localparam Q = {P, P};\nendmodule\nmodule TOP;\n  sub #(%s) u ();\n  sub #(.P(%s)) w ();\nendmodule\n' % (T(a), T(v)))
        return judge(ctx, text, {'TOP.u.P': a, 'TOP.u.Q': a * 17, 'TOP.w.P': v, 'TOP.w.Q': v * 17})
    if k == 4:
        x = ctx.int('x', 0, 63)
        form = ctx.choose('form', ['parameter', 'localparam'])
        text = 'module TOP;\n  %s [3:0] P = %s;\n  wire [P:0] s;\nendmodule\n' % (form, T(x))
        return judge(ctx, text, {'TOP.P': x & 15}, {'TOP.s': (x & 15, 0)}, known=[('C09-fit', E.mkbool(E.as_bv(x, 32) > 15))])
    text = 'module TOP;\n  localparam N = 4;\n  parameter [N-1:0] P = %s;\n  localparam Q = {2{P}};\n  wire [Q:0] s;\nendmodule\n' % T(a)
    judge(ctx, text, {'TOP.P': a, 'TOP.Q': a * 17}, {'TOP.s': (a * 17, 0)})


def h_big(ctx, k):
    T = lambda x: txt(K(x))
    if k == 0:
        n = 12
        named = ctx.choose('how', ['pos', 'named', 'rev'])
        vs = [k_(ctx, 'v%d' % i) for i in range(n)]
        decl = ', '.join('parameter P%d = %d' % (i, 20 + i) for i in range(n))
        m = ctx.choose('m', [n, n - 1])
        idx = list(range(m)) if named != 'rev' else list(reversed(range(m)))
        ov = ', '.join((T(vs[i]) if named == 'pos' else '.P%d(%s)' % (i, T(vs[i]))) for i in idx)
        text = 'module sub #(%s) ();\n  wire [P%d:P0] s;\nendmodule\nmodule TOP;\n  sub #(%s) u ();\nendmodule\n' % (decl, n - 1, ov)
        cs = {'TOP.u.P%d' % i: (vs[i] if i < m else 20 + i) for i in range(n)}
        return judge(ctx, text, cs, {'TOP.u.s': (cs['TOP.u.P%d' % (n - 1)], cs['TOP.u.P0'])})
    if k == 1:
        n = 6
        vs = [k_(ctx, 'v%d' % i) for i in range(n)]
        text, path, cs, cur = '', 'TOP', {}, None
        for i in range(n):
            nm = 'TOP' if i == 0 else 'm%d' % i
            text += 'module %s;\n  parameter W = %s;\n  localparam L = W + 1;\n  wire [L:0] s;\n%sendmodule\n' % (
                nm, T(vs[0]) if i == 0 else '99', '  m%d #(.W(L + %s)) u ();\n' % (i + 1, T(vs[i + 1])) if i + 1 < n else '')
            cur = vs[0] if i == 0 else cur + 1 + vs[i]
            cs[path + '.W'], cs[path + '.L'] = cur, cur + 1
            path += '.u'
        return judge(ctx, text, cs, {p[:-1] + 's': (v, 0) for p, v in cs.items() if p.endswith('.L')})
    n = 8
    vs = [k_(ctx, 'v%d' % i) for i in range(n)]
    text = 'module sub;\n  parameter A = 1, B = 2;\n  localparam L = A * 2 + B;\n  wire [L:A] s;\nendmodule\nmodule TOP;\n'
    cs, rs = {}, {}
    for i in range(n):
        w = i % 4
        ov = ['#(%s) ' % T(vs[i]), '#(.B(%s)) ' % T(vs[i]), '', '#(%s, %s) ' % (T(vs[i]), T(vs[i - 1]))][w]
        a = vs[i] if w in (0, 3) else 1
        b = [2, vs[i], 2, vs[i - 1]][w]
        text += '  sub %su%d ();\n' % (ov, i)
        cs['TOP.u%d.A' % i], cs['TOP.u%d.B' % i], cs['TOP.u%d.L' % i] = a, b, a * 2 + b
        rs['TOP.u%d.s' % i] = (a * 2 + b, a)
    judge(ctx, text + 'endmodule\n', cs, rs)
