"""C16: the Verilog text made from terms, bindings and trees denotes the dataflow it was made from.
Real code: tocode of every dataflow node, of Bind and Term (pyverilog/dataflow/dataflow.py), op2mark, scope flattening,
pyverilog/dataflow/{dataflow_codegen,subset,merge}.py.
The text goes through the real lexer, parser and analyzer again; both dataflows are evaluated by sx/vlog.py."""
import re
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'every operator, select, concatenation and conditional in every operand position of every other (one level; as assigned and as resolved tree); clocked blocks over every edge/reset combination; '
             'statement trees of if/case with and without holes; parts, arrays, instances, generate loops, functions, parameters, gates; whole designs and subsets through VerilogCodeGenerator; '
             'constants, bounds and all signal values symbolic; signals of 1..8 bits',
    'thorough': 'as quick, with two levels of nesting of the operators in the stated positions and all clocked block forms with all edges'}
OUTSIDE = 'reals, delays, signedness of declarations, escaped identifiers, names that already contain the flattened name of another signal'
ASSUMPTIONS = ['expression semantics of sx/vlog.py']
W = {'a': 4, 'b': 4, 'e': 8, 's': 1, 'i': 2}
IN = 'input [3:0] a, b, input [7:0] e, input s, clk, rst, input [1:0] i'


def setup(symbolic):
    V.setup_parser()


FORMS = ['Uminus', 'Ulnot', 'Unot', 'Uand', 'Uor', 'Uxor', 'Unand', 'Unor', 'Uxnor', 'Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Srl', 'Sla', 'Sra', 'LessThan', 'GreaterThan',
         'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor', '?', 'cat', 'rep', 'sel', 'idx', 'dyn', 'k', 'kb', 's']


def jobs(tier):
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p, max_paths=100000))
    for f in FORMS:
        if f not in ('k', 'kb', 's', 'idx', 'sel', 'dyn'):
            add('tree-%s' % f, 'h_tree', form=f)
    for k in range(len(LEAF)):
        add('leaf-%d' % k, 'h_leaf', k=k)
    for k in range(3):
        add('clock-%d' % k, 'h_clock', k=k)
    for k in range(4):
        add('branch-%d' % k, 'h_branch', k=k)
    for k in range(len(DESIGNS)):
        add('design-%d' % k, 'h_design', k=k)
    for k in range(2):
        add('known-%d' % k, 'h_known', k=k)
    for k in range(4):
        add('text-%d' % k, 'h_text', k=k)
    for k in range(len(SUBSETS)):
        add('subset-%d' % k, 'h_subset', k=k)
    return out


def build(ctx, f, n, depth=0):
    """an expression with form f at the root; n: prefix of choices"""
    a, b = S('a'), S('b')

    def sub(p, d):
        if depth == 0:
            return d
        g = ctx.choose('%s-%s' % (n, p), FORMS if depth < 2 else FORMS2)
        return build(ctx, g, n + p, depth - 1)
    if f in V.UOP:
        return ('u', f, sub('l', a))
    if f == 'Power':
        return ('b', f, sub('l', a), K(2))
    if f in V.BOP:
        p = ctx.choose('%s-pos' % n, 'lr') if depth else 'l'
        return ('b', f, sub('l', a) if p == 'l' else a, sub('r', b) if p == 'r' else b)
    if f == '?':
        p = ctx.choose('%s-pos' % n, 'ctf') if depth else 'c'
        return ('?', sub('c', S('s')) if p == 'c' else S('s'), sub('t', a) if p == 't' else a, sub('f', b) if p == 'f' else b)
    if f == 'cat':
        p = ctx.choose('%s-pos' % n, 'lr') if depth else 'l'
        return ('cat', [a, sub('l', S('i'))] if p == 'l' else [sub('r', a), S('i'), S('s')])
    if f == 'rep':
        return ('rep', K(2), [sub('l', S('i'))])
    if f == 'sel':
        l = ctx.int(n + 'sl', 0, 5)
        return ('sel', S('e'), K(l + 2), K(l))
    if f == 'idx':
        return ('idx', S('e'), K(ctx.int(n + 'ix', 0, 7)))
    if f == 'dyn':
        return ('idx', S('e'), ('b', 'Plus', S('i'), K(1)))
    if f == 'k':
        return K(ctx.int(n + 'k', 0, 300))
    if f == 'kb':
        w = ctx.choose(n + 'kw', [1, 3, 8])
        return K(ctx.int(n + 'k', 0, (1 << w) - 1), w, ctx.choose(n + 'kb', [2, 10, 16]))
    return S('b')


FORMS2 = ['Uminus', 'Unot', 'Uand', 'Plus', 'Sll', 'Eq', 'Land', 'Xor', '?', 'cat', 'rep', 'sel', 'k']


def consts_of(fl):
    """values of the parameters, from the recorded bindings"""
    c = {}
    for _ in range(6):
        for n, bs in fl.binds.items():
            if n not in c and bs and all(b.parameterinfo in ('parameter', 'localparam') for b in bs):
                try:
                    c[n] = V.Sem({}, c).cint(V.df2e(bs[0].tree, None))
                except V.Unsupported:
                    pass
    return c


def rangeof(m, l, c, dyn=False):
    s = V.Sem({}, c)
    if dyn and m is not None and is_ptr(m, c) == 'dynamic':
        return ['dynamic', 'dynamic' if is_ptr(l, c) == 'dynamic' else is_ptr(l, c)]
    return [None if x is None else V.kint(s.cint(V.df2e(x, None))) for x in (m, l)]


def flat(name):
    return target.load().util.toFlatname(name)


def emit_raw(ctx, fl, what):
    """a module made of every declaration and every binding"""
    decl, par, body, names = [], [], [], {}
    for n, t in fl.terms_raw.items():
        fn = call(ctx, 'flat name', flat, n)
        ctx.check(fn not in names.values(), lambda: 'two signals with the flat name %s in\n%s' % (fn, what))
        names[str(n)] = fn
        if not ({'Parameter', 'Localparam'} & set(t.termtype)):
            decl.append(call(ctx, 'text of the declaration of %s in\n%s' % (n, what), t.tocode))
    for n, bs in fl.binds_raw.items():
        if 'Genvar' in fl.terms_raw[n].termtype:
            continue
        for b in bs:
            x = call(ctx, 'text of a binding of %s in\n%s' % (n, what), b.tocode)
            (par if b.parameterinfo in ('parameter', 'localparam') else body).append(x)
    ports = [names[str(n)] for n, t in fl.terms_raw.items() if len(n) == 2 and {'Input', 'Output', 'Inout'} & set(t.termtype)]
    return 'module TOP(%s);\n%s%s%sendmodule\n' % (', '.join(ports), ''.join(par), ''.join(decl), ''.join(body)), names


def compare(ctx, fl, f2, names, what, text, only=None, renamed=()):
    """the dataflow f2 of the text has every binding of fl (restricted to the signals only)"""
    where = lambda: '\n%s\nmade from\n%s' % (text, what)
    c1, c2 = consts_of(fl), consts_of(f2)
    d1, d2 = V.DFEval(fl, {}, consts=c1), V.DFEval(f2, {}, consts=c2)
    top2 = str(next(iter(f2.terms_raw)))
    top2 = top2[:top2.index('.')]
    full = lambda n: top2 + '.' + names[n]
    for n, t in fl.terms.items():
        if (only is not None and n not in only) or n in renamed:
            continue
        ctx.check(full(n) in f2.terms, lambda: '%s is not declared in%s' % (names[n], where()))
        if n in c1:
            ctx.check(full(n) in c2, lambda: 'parameter %s has no value in%s' % (n, where()))
            ctx.check(c1[n] == c2[full(n)], lambda: 'parameter %s has another value in%s' % (n, where()))
            continue
        t2 = f2.terms[full(n)]
        integer = 'Integer' in t.termtype
        one = lambda r: [0, 0] if r == [None, None] else r
        if not integer and 'Genvar' not in t.termtype:
            ctx.check(one(rangeof(t.msb, t.lsb, c1)) == one(rangeof(t2.msb, t2.lsb, c2)), lambda: 'declared range of %s differs in%s' % (n, where()))
        dim = lambda t, c: None if t.dims is None else [rangeof(l, r, c) for l, r in t.dims]
        ctx.check(dim(t, c1) == dim(t2, c2), lambda: 'declared dimensions of %s differ in%s' % (n, where()))
        for k in ('Reg', 'Integer') + (('Input', 'Output', 'Inout') if n.count('.') == 1 else ()):
            ctx.check((k in t.termtype) == (k in t2.termtype), lambda: '%s is a %s on one side only in%s' % (n, k, where()))
    env1, env2, l1, l2, ar1, ar2 = {}, {}, {}, {}, {}, {}
    for n, t in fl.terms.items():
        if n in c1 or n not in names:
            continue
        w = 32 if 'Integer' in t.termtype else d1.term_width(n)
        lsb = 0
        if t.lsb is not None and 'Integer' not in t.termtype:
            m, l = rangeof(t.msb, t.lsb, c1)
            lsb = l if m >= l else ('up', l)
        if t.dims is not None:
            f = z3.Function('el_' + n.replace('.', '_'), z3.BitVecSort(32), z3.BitVecSort(w))
            ar1[n] = ar2[full(n)] = (f, w)
            continue
        env1[n] = env2[full(n)] = V.Val(ctx.sig('v_' + n.replace('.', '_'), w))
        l1[n] = l2[full(n)] = lsb
    d1 = V.DFEval(fl, env1, consts=c1, arrays=ar1, lsbs=l1)
    d2 = V.DFEval(f2, env2, consts=c2, arrays=ar2, lsbs=l2)
    nm = lambda x: None if x is None else names.get(str(x), str(x).replace('.', '_'))
    last = lambda x: None if x is None else str(x)[str(x).index('.') + 1:]

    def evt(d, e, w, hold):
        try:
            return d.assigned(d.sem(hold), V.df2e(e, None), w)
        except V.Unsupported as ex:
            ctx.fail('cannot be evaluated: %s: %s in%s' % (ex, e.tostr(), where()))
    for n, bs in fl.binds.items():
        if n in c1 or (only is not None and n not in only) or n in renamed or 'Genvar' in fl.terms[n].termtype:
            continue
        b2 = f2.binds.get(full(n), [])
        ctx.check(len(bs) == len(b2), lambda: '%d drivers of %s, %d in%s' % (len(bs), n, len(b2), where()))
        rest = list(b2)
        for b in bs:
            r1 = rangeof(b.msb, b.lsb, c1, True)
            own = [x for x in rest if sorted_range(rangeof(x.msb, x.lsb, c2, True)) == sorted_range(r1)] if b.ptr is None else [x for x in rest if is_ptr(x.ptr, c2) == is_ptr(b.ptr, c1)]
            ctx.check(bool(own), lambda: 'no driver of %s%s in%s' % (n, r1, where()))
            x = own[0]
            rest.remove(x)
            i1, i2 = b.alwaysinfo, x.alwaysinfo
            ctx.check((i1 is None) == (i2 is None), lambda: 'driver of %s is in an always block on one side only in%s' % (n, where()))
            if i1 is not None:
                ctx.check(i1.isClockEdge() == i2.isClockEdge(), lambda: 'driver of %s is clocked on one side only in%s' % (n, where()))
                if i1.isClockEdge():
                    g1 = (nm(i1.getClockName()), i1.getClockEdge(), i1.getClockBit(), nm(i1.getResetName()), i1.getResetEdge(), i1.getResetBit())
                    g2 = (last(i2.getClockName()), i2.getClockEdge(), i2.getClockBit(), last(i2.getResetName()), i2.getResetEdge(), i2.getResetBit())
                    ctx.check(g1 == g2, lambda: 'clock and reset of %s: %s became %s in%s' % (n, g1, g2, where()))
            if n in ar1:
                w, h = ar1[n][1], None
                ctx.check((b.ptr is None) == (x.ptr is None), lambda: 'element of %s on one side only in%s' % (n, where()))
                if b.ptr is not None:
                    p, q = evt(d1, b.ptr, 32, None), evt(d2, x.ptr, 32, None)
                    ctx.check(V.same(p, q), lambda: 'another element of %s in%s' % (n, where()))
                    h = V.Val(ar1[n][0](V.zext(p.b, 32)))
            else:
                w, h = env1[n].w, env1[n]
            if b.ptr is not None and n not in ar1:
                p, q = evt(d1, b.ptr, 32, None), evt(d2, x.ptr, 32, None) if x.ptr is not None else evt(d2, x.msb, 32, None)
                ctx.check(V.same(p, q), lambda: 'another bit of %s in%s' % (n, where()))
                w, h = 1, V.Val(z3.Extract(0, 0, env1[n].b))
            if r1[0] == 'dynamic':
                p, q = evt(d1, b.msb, 32, None), evt(d2, x.msb, 32, None)
                ctx.check(V.same(p, q), lambda: 'another bit of %s in%s' % (n, where()))
                w, h = 1, V.Val(z3.Extract(0, 0, z3.LShR(V.zext(h.b, 40), V.zext(p.b, 40))))
            elif r1[0] is not None:
                h = V.Sem({}).part(h, r1[0], r1[1], l1.get(n, 0))
                w = h.w
            v1, v2 = evt(d1, b.tree, w, h), evt(d2, x.tree, w, h)
            ctx.check(V.same(v1, v2), lambda: 'driver %s of %s became %s in%s' % (b.tree.tostr(), n, x.tree.tostr(), where()))


def is_ptr(p, c):
    try:
        return None if p is None else V.kint(V.Sem({}, c).cint(V.df2e(p, None)))
    except V.Unsupported:
        return 'dynamic'


def sorted_range(r):
    return None if r[0] is None else tuple(r)


def roundtrip(ctx, what, mode, env=None):
    ctx.note(what)
    fl = call(ctx, 'analysis of\n%s' % what, V.analyze, what)
    if mode == 'resolved':
        fl = resolved(ctx, fl, what)
    text, names = emit_raw(ctx, fl, what)
    ctx.note(text)
    f2 = call(ctx, 'analysis of the emitted\n%s\nmade from\n%s' % (text, what), V.analyze, text)
    compare(ctx, fl, f2, names, what, text)


class Flow(object):
    pass


def resolved(ctx, fl, what):
    w = call(ctx, 'constant resolution of\n%s' % what, V.walker, fl)
    f = Flow()
    f.terms_raw, f.binds_raw = w.resolved_terms, w.resolved_binddict
    f.terms = {str(k): v for k, v in f.terms_raw.items()}
    f.binds = {str(k): list(v) for k, v in f.binds_raw.items()}
    return f


def top(body, w=8, extra=''):
    return 'module TOP(%s%s, output %sf);\n%s\nendmodule\n' % (IN, extra, V.rng(w), body)


def top_reg(body, w=8, extra=''):
    return 'module TOP(%s%s, output reg %sf);\n%s\nendmodule\n' % (IN, extra, V.rng(w), body)


def h_tree(ctx, form):
    e = build(ctx, form, 'x', 1 if ctx.tier == 'quick' else 2)
    roundtrip(ctx, top('assign f = %s;' % V.emit(e)), ctx.choose('mode', ['raw', 'resolved']))


LEAF = [
    lambda ctx: 'assign f = %s;' % V.emit(K(ctx.int('k', 0, 1 << 20))),
    lambda ctx: "assign f = e & 8'b1x0z_1?01;" if ctx.flag('x') else "assign f = e == 8'hx;",
    lambda ctx: 'parameter P = -%s; assign f = e + P;' % V.emit(K(ctx.int('k', 0, 100))),
    lambda ctx: 'parameter P = %s, Q = P - %s; assign f = (e << 1) - Q;' % (V.emit(K(ctx.int('k', 0, 100))), V.emit(K(ctx.int('j', 0, 100)))),
    lambda ctx: 'parameter P = %s; wire [P:1] t; assign t = e; assign f = t[P];' % V.emit(K(ctx.choose('P', [1, 4, 7]))),
    lambda ctx: 'assign f = $signed(a);' if ctx.flag('u') else 'assign f = $unsigned({a, b});',
    lambda ctx: 'localparam [3:0] L = %s; assign f = {L, a};' % V.emit(K(ctx.int('k', 0, 15), 4)),
    lambda ctx: 'wire [0:7] t; assign t = e; assign f = {t[0:3], t[%s], t[2:2], s, 2\'b01};' % V.emit(K(ctx.int('k', 0, 7))),
    lambda ctx: 'wire [9:2] t; assign t = e; assign f = t[%s +: 3];' % V.emit(K(ctx.int('k', 2, 7))),
    lambda ctx: 'wire [9:2] t; assign t = e; assign f = t[%s -: 3];' % V.emit(K(ctx.int('k', 4, 9))),
]


def h_leaf(ctx, k):
    roundtrip(ctx, top(LEAF[k](ctx)), ctx.choose('mode', ['raw', 'resolved']))


def h_clock(ctx, k):
    """every clocked block"""
    ce = ctx.choose('clock edge', ['posedge', 'negedge'])
    re_ = ctx.choose('reset', ['none', 'posedge', 'negedge'])
    bit = ctx.choose('bits', ['', 'c', 'r', 'cr'])
    cb, rb = ctx.choose('clock bit', [0, 1, 3]), ctx.choose('reset bit', [0, 2])
    if 'r' in bit and re_ == 'none' or 'c' not in bit and cb or 'r' not in bit and rb:
        raise E.Infeasible()
    ck = 'clk[%d]' % cb if 'c' in bit else 'clk'
    rs = 'rst[%d]' % rb if 'r' in bit else 'rst'
    sens = ce + ' ' + ck
    rval = K(ctx.int('r', 0, 15), 4)
    val = V.emit(ctx.choose('value', [('b', 'Plus', S('a'), S('b')), ('?', S('s'), S('a'), S('b')), ('cat', [S('i'), S('i')])]))
    dst = ['q', 'q[3:0]', 'q[2]'][k]
    body = '%s <= %s;' % (dst, val)
    c = ctx.choose('enable', ['', 'if (s) ', 'if (a == b) %s <= 0; else if (s) ' % dst])
    body = c + body
    if re_ != 'none':
        sens += ' or %s %s' % (re_, rs)
        body = 'if (%s%s) %s <= %s; else begin %s end' % ('!' if re_ == 'negedge' else '', rs, dst, V.emit(rval), body)
    what = 'module TOP(input [3:0] a, b, input s, input [1:0] i, input %sclk, input %srst, output [7:0] f);\nreg [7:0] q;\nassign f = q;\nalways @(%s) begin %s end\nendmodule\n' % (
        '[3:0] ' if 'c' in bit else '', '[2:0] ' if 'r' in bit else '', sens, body)
    roundtrip(ctx, what, ctx.choose('mode', ['raw', 'resolved']))


def h_branch(ctx, k):
    """statement trees: holes, nested and chained conditions, case"""
    n = [0]

    def stmt(d):
        n[0] += 1
        me = n[0]
        kinds = ['a', 'k'] + (['if', 'ife'] if d else [])
        c = ctx.choose('s%d' % me, kinds)
        if c == 'a':
            return ('=', S('q'), S('a') if me % 2 else S('b'))
        if c == 'k':
            return ('=', S('q'), K(ctx.int('k%d' % me, 0, 15), 4))
        cond = [S('s'), ('b', 'Eq', S('a'), S('b')), ('idx', S('i'), K(1)), ('u', 'Uor', S('a'))][me % 4]
        return ('if', cond, stmt(d - 1), stmt(d - 1) if c == 'ife' else None)
    lab = lambda j: K(ctx.int('l%d' % j, 0, 3), 2)
    if k < 2:
        s = stmt(2 if ctx.tier == 'quick' else 3)
    elif k == 2:
        s = ('case', S('i'), [([lab(0)], stmt(1)), ([lab(1), lab(2)], ('=', S('q'), S('b')))] + ([(None, stmt(1))] if ctx.flag('default') else []))
    else:
        s = ('seq', [('=', S('q'), S('b')), ('if', S('s'), ('=', ('sel', S('q'), K(2), K(1)), S('i')), stmt(1))], None)
    comb = k in (0, 2, 3)
    t = V.emit_stmt(s)
    if not comb:
        t = t.replace(' q = ', ' q <= ').replace('\nq = ', '\nq <= ')
    what = top('reg [3:0] q; assign f = q;\nalways @%s begin\n%s end' % ('*' if comb else '(posedge clk)', t), 4)
    roundtrip(ctx, what, ctx.choose('mode', ['raw', 'resolved']))


# whole designs: k is a symbolic 4-bit constant as text
DESIGNS = [
    lambda k: ('module SUB(input [3:0] x, y, output [3:0] z); wire [3:0] m; assign m = x ^ y; assign z = m & %s; endmodule\n' % k, 'wire [3:0] t; SUB u(.x(a), .y(b), .z(t)); assign f = t | b;'),
    lambda k: ('module SUB #(parameter N = 2)(input [N:0] x, output reg [N:0] z); always @* z = x + %s; endmodule\n' % k, 'SUB #(.N(3)) u(.x(a), .z(f[3:0])); SUB v(e[2:0], f[6:4]); assign f[7] = s;'),
    lambda k: ('', 'genvar g; generate for (g = 0; g < 4; g = g + 1) begin : l wire x; assign x = a[g] & b[3 - g]; assign f[g] = x; end endgenerate assign f[7:4] = %s;' % k),
    lambda k: ('', 'generate if (1) begin : y wire [3:0] t; assign t = a; assign f = t ^ %s; end endgenerate' % k),
    lambda k: ('', 'function [3:0] g; input [3:0] x; input y; begin if (y) g = x ^ %s; else g = x; end endfunction\nassign f = g(a, s) & b;' % k),
    lambda k: ('', 'function [3:0] g; input [3:0] x; reg [3:0] t; begin t = x + %s; g = t; if (x == b) g = 0; end endfunction\nwire [3:0] w; assign w = g(a); assign f = g(w);' % k),
    lambda k: ('', 'reg [3:0] m [0:3]; always @(posedge clk) if (s) m[i] <= a; assign f = m[%s %% 4];' % k),
    lambda k: ('', 'reg [3:0] m [0:3]; always @(posedge clk) begin m[0] <= a; m[3] <= %s; end assign f = m[i];' % k),
    lambda k: ('', 'wire t, u; and g0(t, a[0], b[0]); not g1(u, t); assign f = {u, t, %s};' % k),
    lambda k: ('', 'wire [1:0] t, u; assign {t, u} = e[5:2]; assign f = {u, t, %s};' % k),
    lambda k: ('', 'wire [1:0] t, u; assign {t, u} = a + %s; assign f = {u, t};' % k),
    lambda k: ('', 'reg [3:0] q, r; assign f = {q, r}; always @(posedge clk or negedge rst) if (!rst) {q, r} <= 0; else if (s) {q, r} <= {r, q} + %s;' % k),
    lambda k: ('', 'integer n; reg [3:0] q; assign f = q; always @* begin q = 0; for (n = 0; n < 4; n = n + 1) q[n] = a[n] ^ b[3 - n]; q[0] = %s; end' % k),
    lambda k: ('', 'reg [3:0] q; assign f = q; always @* begin q = a; case (i) 0: q = b; 2\'d1: q[1:0] = i; default: q = %s; endcase end' % k),
    lambda k: ('', 'parameter P = 3; localparam Q = P + %s; wire [P:0] t; assign t = a; assign f = t + Q;' % k),
    lambda k: ('', 'reg [3:0] q, p; assign f = {q, p}; always @(posedge clk) begin q <= p; p <= q ^ %s; end' % k),
    lambda k: ('', 'reg [3:0] q, p; assign f = {q, p}; always @* begin q = a + b; p = q; q = %s; end' % k),
    lambda k: ('', 'wire [3:0] t = a & %s; tri [3:0] z; assign f = t;' % k),
    lambda k: ('module SUB(inout x, input y, output z); assign x = y; assign z = x; endmodule\n', 'wire t, v; SUB u(t, s, v); assign f = {t, v, %s};' % k),
    lambda k: ('module SUB(input [3:0] x, output [3:0] z); SUC c(x, x[0], z); endmodule\nmodule SUC(input [3:0] x, input clk, output [3:0] z); reg [3:0] q; always @(posedge clk) q <= %s; assign z = q; endmodule\n' % k,
               'SUB u(a, f[3:0]); SUB v(b, f[7:4]);'),
    lambda k: ('', 'reg [3:0] q; assign f = q; always @* begin q = a; q[i] = s; if (s) q[b[1:0]] = a[%s %% 4]; end' % k),
    lambda k: ('', 'reg [7:0] q; assign f = q; always @* begin q[7:4] = a; q[3:2] = i; q[1] = s; q[0] = a == %s; end' % k),
    lambda k: ('', 'assign f[%s / 2] = s; wire [7:0] g; assign g[i] = s;' % k),
]


def design(ctx, k):
    kk = V.emit(K(ctx.int('k', 0, 15), 4))
    pre, body = DESIGNS[k](kk)
    return pre + top(body)


def h_design(ctx, k):
    mode = ctx.choose('mode', ['raw', 'resolved', 'gen', 'genraw'])
    what = design(ctx, k)
    if mode in ('raw', 'resolved'):
        return roundtrip(ctx, what, mode)
    generated(ctx, what, (), mode == 'gen')


def generated(ctx, what, targets, flat_=True, need=None):
    ctx.note(what)
    t = target.load()
    fl = call(ctx, 'analysis of\n%s' % what, V.analyze, what)
    w = call(ctx, 'constant resolution of\n%s' % what, V.walker, fl)
    g = t.dataflow_codegen.VerilogCodeGenerator('TOP', fl.terms_raw, fl.binds_raw, w.resolved_terms, w.resolved_binddict, w.constlist, flat=flat_)
    g.set_clock_info('clk', 'posedge')
    g.set_reset_info('rst', 'negedge')
    with V.quiet():
        text = call(ctx, 'text of the design\n%s' % what, g.generateCode, targets)
    text = text.replace('`default_nettype none\n', '')
    ctx.note(text)
    f2 = call(ctx, 'analysis of the emitted\n%s\nmade from\n%s' % (text, what), V.analyze, text, 'Subset')
    names = {str(n): flat(n) for n in fl.terms_raw}
    f1 = Flow()
    f1.terms, f1.binds = fl.terms, {str(k): list(v) for k, v in (fl.binds_raw if targets else w.resolved_binddict).items()}
    clocks = {'TOP.clk', 'TOP.rst'}
    for n in clocks:
        b = f2.binds.get('Subset.' + names[n], [])
        ctx.check(len(b) == 1 and str(b[0].tree) == 'Subset.' + n[4:], lambda: '%s is not driven by the input in\n%s\nmade from\n%s' % (n, text, what))
    only = None
    if targets:
        only = set(n for n in fl.terms if 'Subset.' + names[n] in f2.terms)
        ctx.check(set(targets) <= only, lambda: 'a target is missing in\n%s\nmade from\n%s' % (text, what))
        more = set(only)
        for n in only:
            for b in fl.binds.get(n, []):
                for x in [b.tree, b.ptr]:
                    more |= V.leaves(x)
                if b.isClockEdge():
                    more.add(str(b.getClockName()))
                    if b.getResetName() is not None:
                        more.add(str(b.getResetName()))
        ctx.check(more <= only | clocks, lambda: 'sources %s of the subset are missing in\n%s\nmade from\n%s' % (sorted(more - only), text, what))
        if need is not None:
            want = set('TOP.' + x for x in need)
            ctx.check(only - clocks == want - clocks, lambda: 'subset for %s has the signals %s, not %s, in\n%s\nmade from\n%s' % (targets, sorted(only), sorted(want), text, what))
    compare(ctx, f1, f2, names, what, text, only, renamed=clocks)


def h_text(ctx, k):
    """strings and reals: the emitted text has the same constants"""
    what = top(['parameter R = 2.5; assign f = a * R;', 'parameter P = "a.b_c"; assign f = P;', 'assign f = a * 0.25 + 1.5;', 'localparam P = "x.y", Q = 1.0; assign f = {P, e} + Q;'][k])
    mode = ctx.choose('mode', ['raw', 'gen'])
    fl = call(ctx, 'analysis of\n%s' % what, V.analyze, what)
    if mode == 'raw':
        text, top2 = emit_raw(ctx, fl, what)[0], 'TOP'
    else:
        t = target.load()
        g = t.dataflow_codegen.VerilogCodeGenerator('TOP', fl.terms_raw, fl.binds_raw, fl.terms_raw, fl.binds_raw, {})
        g.set_clock_info('clk', 'posedge')
        g.set_reset_info('rst', 'negedge')
        text, top2 = call(ctx, 'text of the design\n%s' % what, g.generateCode).replace('`default_nettype none\n', ''), 'Subset'
    f2 = call(ctx, 'analysis of the emitted\n%s\nmade from\n%s' % (text, what), V.analyze, text, top2)
    for n, bs in fl.binds.items():
        m = top2 + '.' + n.replace('.', '_')
        a, b = [x.tree.tostr() for x in bs], [x.tree.tostr().replace(top2 + '.TOP_', 'TOP.') for x in f2.binds.get(m, [])]
        ctx.check(a == b, lambda: 'drivers %s of %s became %s in\n%s\nmade from\n%s' % (a, n, b, text, what))


def h_known(ctx, k):
    """places where the emitted text cannot denote the dataflow: recorded findings"""
    if k == 0:
        what = 'module SUB(input x); wire y; assign y = x; endmodule\nmodule SUC(input x); wire w_y; assign w_y = !x; endmodule\n' + top('SUC u(s); SUB u_w(s); assign f = a;')
    else:
        what = top('wire [7:0] t; function [3:0] g; input [3:0] x; reg [3:0] t; begin t = x + 1; g = t; end endfunction assign t = e; assign f = g(a) ^ t;')
    fl = call(ctx, 'analysis of\n%s' % what, V.analyze, what)
    if k == 0:
        names = [flat(n) for n in fl.terms_raw]
        ctx.check(len(set(names)) == len(names), lambda: 'two signals with one flat name in\n%s' % what, known=[('C16-collision', z3.BoolVal(True))])
        return
    ctx.check(list(fl.terms['TOP.t'].termtype) == ['Wire'] or set(fl.terms['TOP.t'].termtype) == {'Wire'},
              lambda: 'TOP.t is a %s in\n%s' % (sorted(fl.terms['TOP.t'].termtype), what), known=[('C16-local', z3.BoolVal(True))])
    roundtrip(ctx, what, 'raw')


# (design, targets, signals of the subset)
SUBSETS = [
    (lambda k: 'wire [3:0] t, u, v; assign t = a & %s; assign u = t ^ b; assign v = e; assign f = u;' % k, ['f'], 'f u t a b'),
    (lambda k: 'wire [3:0] t, u, v; assign t = a & %s; assign u = t ^ b; assign v = e; assign f = u;' % k, ['t', 'v'], 't a v e'),
    (lambda k: 'reg [3:0] q, r; wire [3:0] d; assign d = s ? a : %s; always @(posedge clk) q <= d; always @(posedge clk) r <= b; assign f = q;' % k, ['q'], 'q d s a clk'),
    (lambda k: 'reg [3:0] q, r; always @(posedge clk or negedge rst) if (!rst) q <= 0; else q <= r; always @(posedge clk) r <= q + %s; assign f = q;' % k, ['r'], 'r q clk rst'),
    (lambda k: 'reg [3:0] q; wire gclk; assign gclk = i[0] & s; always @(posedge gclk) q <= a ^ %s; assign f = q;' % k, ['q'], 'q gclk i s a'),
    (lambda k: 'reg [3:0] q; wire grst; assign grst = i[0] & s; always @(posedge clk or posedge grst) if (grst) q <= 0; else q <= a ^ %s; assign f = q;' % k, ['q'], 'q grst i s a clk'),
    (lambda k: 'wire [3:0] t, u; assign t[1:0] = i; assign t[3:2] = {s, a[%s %% 4]}; assign u = t; assign f = u;' % k, ['u'], 'u t i s a'),
    (lambda k: 'reg [3:0] m [0:3]; always @(posedge clk) if (s) m[i] <= a; wire [3:0] t; assign t = m[b[1:0] ^ %s]; assign f = t;' % k, ['t'], 't m b s i a clk'),
    (lambda k: 'wire [3:0] t, u; assign t = u ^ %s; assign u = t & a; assign f = t;' % k, ['t'], 't u a'),
    (lambda k: 'wire [3:0] t, u; assign t = $signed(u); assign u = b & %s; assign f = t;' % k, ['t'], 't u b'),
    (lambda k: 'parameter P = %s; wire [3:0] t, u; assign t = u + P; assign u = b; assign f = t;' % k, ['t'], None),
    (lambda k: 'wire [3:0] t, u; wire [1:0] j; assign j = i; assign t[j] = u[1]; assign u = b ^ %s; assign f = t;' % k, ['t'], 't j i u b'),
]


def h_subset(ctx, k):
    kk = V.emit(K(ctx.int('k', 0, 15), 4))
    body, targets, need = SUBSETS[k]
    generated(ctx, top(body(kk)), ['TOP.' + x for x in targets], ctx.choose('flat', [True, False]), need.split() if need else None)
