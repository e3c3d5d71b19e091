"""C10: instances, generate constructs and gates elaborate completely, with every port connected as written.
Real code: parser, ModuleVisitor, SignalVisitor, BindVisitor (instances, arrays, primitives, generate, hierarchical names), FrameTable."""
import itertools
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'modules with up to four ports connected positionally or by name in every order, with ports left open, to signals, parts with '
             'every pair of bounds, bits, sums, concatenations and literals; outputs to signals, parts, bits and concatenations; ports declared in '
             'the header or the body in any order; up to 10 ports, 8 instances, 6 levels in the long templates; arrays of 1..4 instances in both range '
             'directions and with offset with scalar, shared and sliced connections; generate loops with start 0..2, up to 5 iterations, steps '
             '+1, +2, -1, five comparison forms, nested loops, loops with instances, local wires and conditionals; generate if/else chains with '
             'symbolic constants; and/nand/or/nor/xor/xnor with 2..4 inputs, not, buf, alone and in arrays; hierarchical references to instance '
             'signals and generate blocks; all values of all signals',
    'thorough': 'as quick with loops up to 8 iterations and all combinations of port expressions'}
OUTSIDE = 'generate case, gates with several outputs or delays, tristate and transistor primitives, interfaces, bind and configurations'
ASSUMPTIONS = ['IEEE 1364-2005 connection and elaboration semantics as written in this file and sx/vlog.py; unconnected inputs are undefined']

W = {'a': 4, 'b': 3, 'c': 1, 'd': 4, 'e': 8, 'f': 4}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for style in range(4):
        for k in range(2):
            add('ports-%d-%d' % (style, k), 'h_ports', style=style, named=bool(k))
    for k in range(9):
        add('input-%d' % k, 'h_input', k=k, both=not q)
    for k in range(7):
        add('output-%d' % k, 'h_output', k=k)
    for k in range(7):
        add('inst-%d' % k, 'h_inst', k=k)
    for k in range(8):
        add('array-%d' % k, 'h_array', k=k)
    for k in range(9):
        add('for-%d' % k, 'h_for', k=k, nmax=4 if q else 8)
    add('forstep', 'h_forstep')
    for k in range(6):
        add('if-%d' % k, 'h_if', k=k)
    for g in ('and', 'nand', 'or', 'nor', 'xor', 'xnor', 'not', 'buf'):
        add('gate-%s' % g, 'h_gate', g=g)
        add('gates-%s' % g, 'h_gatearray', g=g)
    for k in range(5):
        add('hier-%d' % k, 'h_hier', k=k)
    for k in range(5):
        add('big-%d' % k, 'h_big', k=k)
    add('names', 'h_names')
    return out


def env_of(ctx, names):
    return {n: V.Val(ctx.sig(n, W[n])) for n in names}


def vals(ctx, text, env, want, insts=None, known=None, more=None, lsbs=None):
    """want: full name -> mini-AST over env names (assigned to the signal's width) or Val"""
    ctx.note(text)
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
    given = {'TOP.' + n: v for n, v in env.items()}
    given.update(more or {})
    d = V.DFEval(fl, given, lsbs=lsbs)
    for n, e in want.items():
        m = [x for x in fl.terms if x == n] or [x for x in fl.terms if x.endswith(n)]
        if len(m) != 1:
            ctx.fail('signal %s exists exactly once (%s) in\n%s' % (n, m, text))
        n = m[0]
        w = d.term_width(n)
        try:
            got = V.vext(d.driven(n), w)
        except V.Unsupported as ex:
            ctx.fail('the recorded drivers give a value of %s (%s) in\n%s' % (n, ex, text))
        v = e if isinstance(e, V.Val) else V.vext(V.Sem(dict(env)).ev(e, w), w)
        ctx.check(V.same(V.vext(v, w), got), lambda n=n: 'value of %s through the connections in\n%s' % (n, text), known=known)
    if insts is not None:
        got = sorted((str(k), m) for k, m in fl.an.getInstances())
        ctx.check(got == sorted(insts), 'instances %s = %s in\n%s' % (got, sorted(insts), text))
    return fl


def top(decls, body, ports='', pre=''):
    return pre + 'module TOP(%s);\n%s%sendmodule\n' % (ports, decls, body)


def ins(names):
    return ''.join('  input %s%s;\n' % (V.rng(W[n]), n) for n in names)


def sub4(style):
    """x, y, w inputs; z output; the value tells every port apart"""
    body = '  assign z = (x << 1) ^ (y + 1) ^ {w, 3\'d0};\n'
    if style == 0:
        h = 'module sub (x, y, z, w);\n  input [3:0] x;\n  input [3:0] y;\n  output [3:0] z;\n  input w;\n'
    elif style == 1:
        h = 'module sub (x, y, z, w);\n  output [3:0] z;\n  input w;\n  input [3:0] y, x;\n'
    elif style == 2:
        h = 'module sub (input [3:0] x, input [3:0] y, output [3:0] z, input w);\n'
    else:
        h = 'module sub (input [3:0] x, y, output wire [3:0] z, input w);\n'
    return h + body + 'endmodule\n'


def sub_val(x, y, w):
    m = lambda o, a, b: ('b', o, a, b)
    cut = lambda e, n: ('cat', [('low', e, n)])
    return m('Xor', m('Xor', m('Sll', x, K(1)), m('Plus', y, K(1))), ('cat', [w, K(0, 3)]))


def port_val(env, e, w):
    """an expression connected to an input of w bits"""
    return V.vext(V.Sem(dict(env)).ev(e, w), w)


def sub_out(env, x, y, w):
    e = {'x': port_val(env, x, 4), 'y': port_val(env, y, 4), 'w': port_val(env, w, 1)}
    return V.vext(V.Sem(e).ev(sub_val(S('x'), S('y'), S('w')), 4), 4)


def h_ports(ctx, style, named):
    env = env_of(ctx, 'abcd')
    con = {'x': S('a'), 'y': S('d'), 'z': S('o'), 'w': S('c')}
    if named:
        order = ctx.choose('order', list(itertools.permutations('xyzw')))
        t = ', '.join('.%s(%s)' % (p, V.emit(con[p])) for p in order)
    else:
        if ctx.flag('swap'):
            con['x'], con['y'] = con['y'], con['x']
        t = ', '.join(V.emit(con[p]) for p in 'xyzw')
    text = top(ins('abcd') + '  output [3:0] o;\n', '  sub u (%s);\n' % t, 'a, b, c, d, o', sub4(style))
    if named and ctx.flag('after'):
        text = top(ins('abcd') + '  output [3:0] o;\n', '  sub u (%s);\n' % t, 'a, b, c, d, o') + sub4(style)
    vals(ctx, text, env, {'TOP.o': sub_out(env, con['x'], con['y'], con['w']), 'TOP.u.x': con['x'], 'TOP.u.y': con['y']},
         [('TOP', 'TOP'), ('TOP.u', 'sub')])


def h_input(ctx, k, both):
    env = env_of(ctx, 'abcde')
    m, l = ctx.int('m', 0, 7), ctx.int('l', 0, 7)
    if k in (0, 5):
        ctx.assume(m >= l)
    if k == 1 or k == 3:
        ctx.assume(l == 0)
    if k in (2, 4, 6, 7, 8):
        ctx.assume(l == 0)
        ctx.assume(m == 0)
    kk = ctx.int('kk', 0, 15)
    e = [lambda: ('sel', S('e'), K(m), K(l)), lambda: ('idx', S('e'), K(m)), lambda: ('b', 'Plus', S('a'), S('b')),
         lambda: ('cat', [('idx', S('e'), K(m)), S('b')]), lambda: K(kk, 4), lambda: ('cat', [S('c'), ('sel', S('e'), K(m), K(l))]),
         lambda: ('?', S('c'), S('a'), S('d')), lambda: ('u', 'Unot', S('b')), lambda: ('b', 'LessThan', S('a'), S('b'))][k]()
    port = ctx.choose('port', ['x', 'y', 'w'])
    con = {'x': S('a'), 'y': S('d'), 'w': S('c')}
    con[port] = e
    named = ctx.flag('named')
    t = (', '.join('.%s(%s)' % (p, V.emit(con[p])) for p in 'wyx') + ', .z(o)' if named else
         '%s, %s, o, %s' % tuple(V.emit(con[p]) for p in 'xyw'))
    text = top(ins('abcde') + '  output [3:0] o;\n', '  sub u (%s);\n' % t, 'a, b, c, d, e, o', sub4(0))
    vals(ctx, text, env, {'TOP.o': sub_out(env, con['x'], con['y'], con['w'])})


def h_output(ctx, k):
    env = env_of(ctx, 'acd')
    z = sub_out(env, S('a'), S('d'), S('c'))
    t = lambda conn: top(ins('acd') + '  output [7:0] o;\n  output p;\n  output [2:0] q;\n', '  sub u (.x(a), .y(d), .w(c), .z(%s));\n' % conn,
                         'a, c, d, o, p, q', sub4(0))
    base = V.Val(z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8))
    if k == 0:
        m, l = ctx.int('m', 0, 7), ctx.int('l', 0, 7)
        ctx.assume(m >= l)
        ctx.assume(m - l <= 3)
        m, l = V.kint(m), V.kint(l)
        return vals(ctx, t('o[%d:%d]' % (m, l)), env, {'TOP.o': V.overlay(base, V.vext(z, m - l + 1), l, 8)})
    if k == 1:
        m = V.kint(ctx.int('m', 0, 7))
        return vals(ctx, t('o[%d]' % m), env, {'TOP.o': V.overlay(base, V.vext(z, 1), m, 8)})
    if k == 2:
        return vals(ctx, t('{p, q}'), env, {'TOP.p': V.Sem({}).part(z, 3, 3), 'TOP.q': V.Sem({}).part(z, 2, 0)})
    if k == 3:
        m = V.kint(ctx.int('m', 0, 6))
        return vals(ctx, t('{q[1:0], o[%d:%d]}' % (m + 1, m)), env, {'TOP.q': V.overlay(V.Val(z3.BitVecVal(0, 3), z3.BitVecVal(-1, 3)), V.Sem({}).part(z, 3, 2), 0, 3),
                                                                     'TOP.o': V.overlay(base, V.Sem({}).part(z, 1, 0), m, 8)})
    if k == 4:      # wider signal than the port
        return vals(ctx, t('o'), env, {'TOP.o': V.vext(z, 8)})
    if k == 5:      # narrower
        return vals(ctx, t('q'), env, {'TOP.q': V.vext(z, 3)})
    fl = vals(ctx, t(''), env, {'TOP.u.z': z})
    ctx.check('TOP.o' not in fl.binds and 'TOP.p' not in fl.binds, 'an open output drives nothing')


def h_inst(ctx, k):
    """several instances, levels, open ports, inout"""
    env = env_of(ctx, 'acdf')
    D = ins('acdf') + '  output [3:0] o, p;\n'
    P = 'a, c, d, f, o, p'
    if k == 0:
        text = top(D + '  wire [3:0] t;\n', '  sub u (a, d, t, c);\n  sub v (t, f, o, c);\n', P, sub4(0))
        t = sub_out(env, S('a'), S('d'), S('c'))
        return vals(ctx, text, env, {'TOP.t': t, 'TOP.o': sub_out(dict(env, t=t), S('t'), S('f'), S('c'))},
                    [('TOP', 'TOP'), ('TOP.u', 'sub'), ('TOP.v', 'sub')])
    if k == 1:
        text = top(D, '  sub u (a, d, o, c), v (f, a, p, c);\n', P, sub4(2))
        return vals(ctx, text, env, {'TOP.o': sub_out(env, S('a'), S('d'), S('c')), 'TOP.p': sub_out(env, S('f'), S('a'), S('c'))},
                    [('TOP', 'TOP'), ('TOP.u', 'sub'), ('TOP.v', 'sub')])
    if k == 2:
        mid = 'module mid (x, y, w, z);\n  input [3:0] x, y;\n  input w;\n  output [3:0] z;\n  wire [3:0] a;\n  sub u (.x(y), .y(x), .w(w), .z(a));\n  assign z = a + x;\nendmodule\n'
        text = top(D, '  mid u (a, d, c, o);\n  sub v (.x(a), .y(f), .w(c), .z(p));\n', P, sub4(0) + mid)
        a = sub_out(env, S('d'), S('a'), S('c'))
        o = V.vext(V.Sem(dict(env, t=a)).ev(('b', 'Plus', S('t'), S('a')), 4), 4)
        return vals(ctx, text, env, {'TOP.u.u.z': a, 'TOP.u.a': a, 'TOP.o': o, 'TOP.p': sub_out(env, S('a'), S('f'), S('c'))},
                    [('TOP', 'TOP'), ('TOP.u', 'mid'), ('TOP.u.u', 'sub'), ('TOP.v', 'sub')])
    if k == 3:
        # open input: undefined
        text = top(D, '  sub u (.x(), .y(d), .w(c), .z(o));\n', P, sub4(0))
        x = V.Val(ctx.sig('ux', 4))
        fl = vals(ctx, text, env, {'TOP.o': sub_out(dict(env, ux=x), S('ux'), S('d'), S('c'))}, more={'TOP.u.x': x})
        return ctx.check('TOP.u.x' not in fl.binds, 'an open input has no driver')
    if k == 4:
        # fewer positional connections than ports
        text = top(D, '  sub u (a, d, o);\n', P, sub4(0))
        x = V.Val(ctx.sig('uw', 1))
        fl = vals(ctx, text, env, {'TOP.o': sub_out(dict(env, uw=x), S('a'), S('d'), S('uw'))}, more={'TOP.u.w': x})
        return ctx.check('TOP.u.w' not in fl.binds, 'an open input has no driver')
    if k == 5:
        # output regs of clocked children
        ch = 'module ff (input CLK, input [3:0] d, output reg [3:0] q);\n  always @(posedge CLK) q <= d + 1;\nendmodule\n'
        text = top('  input CLK;\n' + D, '  ff u (CLK, a, o);\n  ff v (.q(p), .d(o), .CLK(CLK));\n', 'CLK, ' + P, ch)
        q = V.Val(ctx.sig('q', 4))
        fl = vals(ctx, text, env, {'TOP.u.q': ('b', 'Plus', S('a'), K(1))})
        fl = vals(ctx, text, env, {'TOP.o': q, 'TOP.v.d': q, 'TOP.v.q': V.vext(V.Sem({'q': q}).ev(('b', 'Plus', S('q'), K(1)), 4), 4)}, more={'TOP.u.q': q})
        for n in ('TOP.u.q', 'TOP.v.q'):
            b = fl.binds[n][0]
            ctx.check(b.isClockEdge() and str(b.getClockName()) == n[:-1] + 'CLK', 'clock of %s is the port of its instance (%s)' % (n, b.getClockName()))
        return
    # implicit nets
    text = top(D, '  one g (a, nn);\n  sub v (a, d, o, nn);\n', P, sub4(0) + 'module one (input [3:0] x, output y);\n  assign y = ^x;\nendmodule\n')
    nn = V.Sem(dict(env)).ev(('u', 'Uxor', S('a')))
    vals(ctx, text, env, {'TOP.o': sub_out(dict(env, nn=nn), S('a'), S('d'), S('nn')), 'TOP.nn': nn})


def h_array(ctx, k):
    """arrays of instances"""
    n = ctx.choose('n', [1, 2, 3, 4])
    off = ctx.choose('off', [0, 0 if k in (2, 3) else 1, 2][:3 if k < 2 else 2])
    up = ctx.flag('up')
    lo, hi = off, off + n - 1
    r = '[%d:%d]' % ((lo, hi) if up else (hi, lo))
    idx = list(range(lo, hi + 1)) if up else list(range(hi, lo - 1, -1))     # leftmost first; rightmost takes the low part
    names = dict((i, 'TOP.u_%d' % i) for i in idx)
    one = 'module one (input x, input s, output y);\n  assign y = x ^ s;\nendmodule\n'
    two = 'module two (input [1:0] x, input s, output [1:0] y);\n  assign y = x + s;\nendmodule\n'
    av = V.Val(ctx.sig('v', 8))
    s = V.Val(ctx.sig('s', 1))
    env = {'v': av, 's': s}
    D = '  input [7:0] v;\n  input s;\n  output [7:0] o;\n  output p;\n'
    base = V.Val(z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8))
    insts = [('TOP', 'TOP')] + [(names[i], 'one' if k < 4 or k == 6 else 'two') for i in idx]
    ev = lambda e, w, **m: V.vext(V.Sem(dict(env, **m)).ev(e, w), w)
    bit = lambda v, i: V.Sem({}).part(v, i, i)
    want = {}
    pw = 1 if k < 4 or k == 6 else 2
    if pw == 2:
        ctx.assume(n <= 3)
    lo_x = ctx.choose('lx', [0, 1]) if k in (1, 5) else 0
    xs = 'v[%d:%d]' % (lo_x + n * pw - 1, lo_x)
    ys = 'o[%d:%d]' % (n * pw - 1, 0)
    res = base
    for j, i in enumerate(reversed(idx)):      # j = position from the right
        x = V.Sem({}).part(av, lo_x + j * pw + pw - 1, lo_x + j * pw)
        y = ev(('b', 'Xor' if pw == 1 else 'Plus', S('x'), S('s')), pw, x=x)
        res = V.overlay(res, y, j * pw, 8)
        want[names[i] + '.x'] = x
        want[names[i] + '.s'] = s
        want[names[i] + '.y'] = y
    m = 'one' if pw == 1 else 'two'
    if k in (0, 1, 4, 5):
        con = '(.x(%s), .s(s), .y(%s))' % (xs, ys)
        want['TOP.o'] = res
    elif k == 2:
        # whole vector of exactly the size
        D = '  input [%d:0] v;\n  input s;\n  output [%d:0] o;\n' % (n * pw - 1, n * pw - 1)
        env['v'] = V.Val(z3.Extract(n * pw - 1, 0, av.b))
        con = '(v, s, o)'
        want['TOP.o'] = V.vext(V.Val(res.b), n)
    elif k == 3:
        # shifted base of the connected vector
        D = '  input [%d:%d] v;\n  input s;\n  output [%d:%d] o;\n' % (n + 1, 2, n + 2, 3)
        env['v'] = V.Val(z3.Extract(n - 1, 0, av.b))
        con = '(.s(s), .y(o), .x(v))'
        want['TOP.o'] = V.vext(V.Val(res.b), n)
    elif k == 6:
        con = '(.x(%s), .s(s), .y())' % xs
    elif k == 7:
        # concatenated connection
        con = '(.x({%s}), .s(s), .y(%s))' % (', '.join('v[%d:%d]' % (j * 2 + 1, j * 2) for j in reversed(range(n))), ys)
        want['TOP.o'] = res
    text = top(D, '  %s u %s %s;\n' % (m, r, con), 'v, s, o', one + two)
    vals(ctx, text, env, want, insts, lsbs={'TOP.v': 2, 'TOP.o': 3} if k == 3 else None)


COND = [('<', 0), ('<=', -1), ('!=', 0)]


def loop(ctx, nmax):
    """(header text, values of i) of a generate loop"""
    start = ctx.choose('start', [0, 1, 2])
    n = ctx.choose('n', range(0, nmax + 1))
    op, adj = ctx.choose('cmp', COND)
    if op != '<':
        ctx.assume(n > 0)
    down = ctx.flag('down')
    if down:
        ctx.assume(n > 0)
        seq = [start + n - 1 - j for j in range(n)]
        cond = {'<': 'i >= %d' % start, '<=': 'i > %d' % (start - 1) if start > 0 else 'i + 1 > %d' % start, '!=': 'i >= %d' % start}[op]
        return 'for (i = %d; %s; i = i - 1)' % (start + n - 1, cond), seq
    return 'for (i = %d; i %s %d; i = i + 1)' % (start, op, start + n + adj), [start + j for j in range(n)]


def h_for(ctx, k, nmax):
    e = V.Val(ctx.sig('e', 8))
    x = V.Val(ctx.sig('x', 8))
    env = {'e': e, 'x': x}
    base = V.Val(z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8))
    D = '  input [7:0] e, x;\n  output [7:0] o;\n  genvar i, j;\n'
    P = 'e, x, o'
    bit = lambda v, i: V.Sem({}).part(v, i, i)
    one = 'module one (input p, input q, output r);\n  assign r = p & ~q;\nendmodule\n'
    hd, seq = loop(ctx, nmax)
    insts = None
    G = lambda body: top(D, '  generate %s begin : g\n%s  end endgenerate\n' % (hd, body), P, one)
    res = base
    want = {}
    EV = lambda t, w, **m: V.vext(V.Sem(dict(env, **m)).ev(t, w), w)
    if k == 0:
        text = G('    assign o[i] = e[i] ^ x[7-i];\n')
        for i in seq:
            res = V.overlay(res, V.Val(bit(e, i).b ^ bit(x, 7 - i).b), i, 8)
    elif k == 1:
        text = G('    one u (.p(e[i]), .q(x[i+1]), .r(o[i]));\n')
        insts = len(seq)
        for i in seq:
            res = V.overlay(res, V.Val(bit(e, i).b & ~bit(x, i + 1).b), i, 8)
    elif k == 2:
        # local wires, one per iteration
        text = G('    wire t;\n    assign t = e[i] & x[i];\n    assign o[i] = ~t;\n')
        for i in seq:
            res = V.overlay(res, V.Val(~(bit(e, i).b & bit(x, i).b)), i, 8)
    elif k == 3:
        # conditional inside, depending on the genvar and a parameter
        c = ctx.int('c', 0, 7)
        text = G('    if (i < %s) begin : lo\n      assign o[i] = e[i];\n    end else begin : hi\n      assign o[i] = ~x[i];\n    end\n' % V.emit(K(c)))
        for i in seq:
            b = bit(e, i).b if ctx.branch(c > i) else ~bit(x, i).b
            res = V.overlay(res, V.Val(b), i, 8)
    elif k == 4:
        # genvar used as a value
        text = G('    wire [7:0] t;\n    assign t = e + i * 3;\n    assign o[i] = t[0] ^ t[1];\n')
        for i in seq:
            t = EV(('b', 'Plus', S('e'), K(i * 3)), 8)
            want['[%d].g.t' % i] = t
            res = V.overlay(res, V.Val(bit(t, 0).b ^ bit(t, 1).b), i, 8)
    elif k == 5:
        # always blocks in iterations
        D = D.replace('output [7:0]', 'output reg [7:0]')
        text = top(D, '  generate %s begin : g\n    reg r;\n    always @* begin\n      if (x[i]) r = e[i]; else r = ~e[i];\n    end\n  end endgenerate\n' % hd, P)
        for i in seq:
            want['[%d].g.r' % i] = V.Val(z3.If(bit(x, i).b == 1, bit(e, i).b, ~bit(e, i).b))
        vals(ctx, text, env, want)
        return
    elif k == 6:
        # neighbours through hierarchical names
        ctx.assume(len(seq) > 0)
        s0 = seq[0]
        st = 1 if len(seq) < 2 or seq[1] > seq[0] else -1
        prev = 'i - 1' if st == 1 else 'i + 1'
        text = top(D + '  wire [9:0] ch;\n', '  assign ch[%d] = x[0];\n  generate %s begin : g\n    assign ch[%s] = ch[%s] ^ e[i];\n    assign o[i] = ch[%s];\n  end endgenerate\n' % (
            s0 + (0 if st == 1 else 1), hd, *(('i + 1', 'i', 'i + 1') if st == 1 else ('i', 'i + 1', 'i'))), P)
        cur = bit(x, 0).b
        fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
        ch = V.Val(ctx.sig('ch', 10))
        d = V.DFEval(fl, {'TOP.e': e, 'TOP.x': x, 'TOP.ch': ch})
        got = d.driven('TOP.ch', old=ch)
        r2 = V.overlay(ch, V.Val(cur), s0 + (0 if st == 1 else 1), 10)
        for i in seq:
            a, b = (i + 1, i) if st == 1 else (i, i + 1)
            r2 = V.overlay(r2, V.Val(bit(ch, b).b ^ bit(e, i).b), a, 10)
            res = V.overlay(res, bit(ch, a), i, 8)
        ctx.check(V.same(r2, got), 'value of the chain in\n%s' % text)
        vals(ctx, text, env, {'TOP.o': res}, more={'TOP.ch': ch})
        return
    elif k == 7:
        # nested loops
        ctx.assume(len(seq) <= 2)
        m = ctx.choose('m', [1, 2, 3])
        text = top(D, '  generate %s begin : g\n    for (j = 0; j < %d; j = j + 1) begin : h\n      wire [7:0] t;\n      assign t = (e >> i) + (x << j);\n    end\n  end endgenerate\n' % (hd, m), P)
        for i in seq:
            for j in range(m):
                want['[%d].g.ge_for%d[%d].h.t' % (i, i, j)] = None
        fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
        ts = [n for n in fl.terms if n.endswith('.h.t')]
        ctx.check(len(ts) == len(seq) * m, 'one wire per pair of iterations (%s) in\n%s' % (ts, text))
        for i in seq:
            for j in range(m):
                tt = [n for n in ts if '[%d].g.' % i in n and '[%d].h.' % j in n]
                ctx.check(len(tt) == 1, 'wire of iteration %d,%d exists once (%s)' % (i, j, tt))
                vals(ctx, text, env, {tt[0]: EV(('b', 'Plus', ('b', 'Srl', S('e'), K(i)), ('b', 'Sll', S('x'), K(j))), 8)})
        if not ts:
            ctx.cover('empty')
        return
    else:
        # two loops over one genvar, unnamed local names equal
        text = top(D, '  generate %s begin : g\n    wire t;\n    assign t = e[i];\n  end\n  for (i = 0; i < 2; i = i + 1) begin : h\n    wire t;\n    assign t = x[i];\n  end endgenerate\n' % hd, P)
        for i in seq:
            want['[%d].g.t' % i] = bit(e, i)
        for i in range(2):
            want['[%d].h.t' % i] = bit(x, i)
        fl = vals(ctx, text, env, want)
        ts = [n for n in fl.terms if n.endswith('.t')]
        ctx.check(len(ts) == len(want), 'exactly the elaborated wires exist (%s)' % ts)
        return
    if seq:
        want['TOP.o'] = res
    fl = vals(ctx, text, env, want)
    if not seq:
        ctx.check('TOP.o' not in fl.binds, 'no iteration, no driver (in\n%s)' % text)
    if insts is not None:
        got = [(str(a), b) for a, b in fl.an.getInstances()]
        ctx.check(len(got) == 1 + insts and all(b == 'one' for a, b in got[1:]), '%d instances in\n%s (%s)' % (insts, text, got))


def h_forstep(ctx):
    e = V.Val(ctx.sig('e', 8))
    x = V.Val(ctx.sig('x', 8))
    bit = lambda v, i: V.Sem({}).part(v, i, i)
    a, n = ctx.int('a', 0, 3), ctx.int('n', 0, 7)
    st = ctx.choose('st', [1, 2, 3])
    form = ctx.choose('form', ['i = i + %d', 'i = %d + i'])
    par = ctx.flag('par')
    D = '  input [7:0] e, x;\n  output [7:0] o;\n  genvar i;\n' + ('  parameter N = %s;\n' % V.emit(K(n)) if par else '')
    text = top(D, '  generate for (i = %s; i < %s; %s) begin : g\n    assign o[i] = e[i] & x[i];\n  end endgenerate\n' % (
        V.emit(K(a)), 'N' if par else V.emit(K(n)), form % st), 'e, x, o')
    av, nv = V.kint(a), V.kint(n)
    res = V.Val(z3.BitVecVal(0, 8), z3.BitVecVal(-1, 8))
    seq = list(range(av, nv, st))
    for i in seq:
        res = V.overlay(res, V.Val(bit(e, i).b & bit(x, i).b), i, 8)
    if seq:
        vals(ctx, text, {'e': e, 'x': x}, {'TOP.o': res})
    else:
        fl = vals(ctx, text, {'e': e, 'x': x}, {})
        ctx.check('TOP.o' not in fl.binds, 'no iteration, no driver (in\n%s)' % text)


def h_if(ctx, k):
    p, q = ctx.int('p', 0, 7), ctx.int('q', 0, 7)
    env = env_of(ctx, 'acdf')
    op = ctx.choose('op', ['Eq', 'LessThan', 'And', 'NotEq'])
    cond = ('b', op, S('P'), S('Q'))
    tk = V.Sem({'P': V.Val(E.as_bv(p, 32)), 'Q': V.Val(E.as_bv(q, 32))}).ev(cond, 32).b != 0
    D = ins('acdf') + '  output [3:0] o;\n  parameter P = %s;\n  localparam Q = %s;\n' % (V.emit(K(p)), V.emit(K(q)))
    P = 'a, c, d, f, o'
    pre = sub4(0)
    c = V.emit(cond)
    if k == 0:
        body = '  generate if (%s) begin : g\n    assign o = a;\n  end else begin : h\n    assign o = d;\n  end endgenerate\n' % c
        t, f = S('a'), S('d')
    elif k == 1:
        body = '  generate if (%s) assign o = a; else assign o = d; endgenerate\n' % c
        t, f = S('a'), S('d')
    elif k == 2:
        body = '  generate if (%s) begin\n    sub u (a, d, o, c);\n  end else begin\n    sub v (d, f, o, c);\n  end endgenerate\n' % c
        t, f = sub_out(env, S('a'), S('d'), S('c')), sub_out(env, S('d'), S('f'), S('c'))
    elif k == 3:
        body = '  generate if (%s) begin : g\n    wire [3:0] t;\n    assign t = a + d;\n    assign o = t;\n  end endgenerate\n' % c
        t, f = ('b', 'Plus', S('a'), S('d')), None
    elif k == 4:
        body = '  generate if (%s) begin : g\n    assign o = a;\n  end else if (P > 3) begin : h\n    assign o = d;\n  end else begin : m\n    assign o = f;\n  end endgenerate\n' % c
        t = S('a')
        f = None
        if not ctx.branch(E.mkbool(tk)):
            f = S('d') if ctx.branch(p > 3) else S('f')
    else:
        body = '  generate if (%s) begin : g\n    if (Q > 2) begin : gg\n      assign o = a;\n    end else begin : gh\n      assign o = d;\n    end\n  end else begin : h\n    assign o = f;\n  end endgenerate\n' % c
        f = S('f')
        t = S('a') if ctx.branch(q > 2) else S('d')
    text = top(D, body, P, pre)
    tk = ctx.branch(E.mkbool(tk))
    want = t if tk else f
    if want is None:
        fl = vals(ctx, text, env, {})
        ctx.check('TOP.o' not in fl.binds and not [n for n in fl.terms if n.endswith('.t')], 'nothing of the branch not taken exists in\n%s' % text)
    else:
        fl = vals(ctx, text, env, {'TOP.o': want})
        ctx.check(len(fl.binds['TOP.o']) == 1, 'one driver of o')
    if k == 2:
        got = [str(a) for a, m in fl.an.getInstances() if m == 'sub']
        ctx.check(len(got) == 1 and got[0].endswith('.u' if tk else '.v'), 'exactly the taken instance exists (%s) in\n%s' % (got, text))


GATE = {'and': 'And', 'nand': 'And', 'or': 'Or', 'nor': 'Or', 'xor': 'Xor', 'xnor': 'Xor'}


def gate(g, xs):
    r = xs[0]
    for x in xs[1:]:
        r = {'And': lambda a, b: a & b, 'Or': lambda a, b: a | b, 'Xor': lambda a, b: a ^ b}[GATE[g]](r, x)
    return ~r if g in ('nand', 'nor', 'xnor', 'not') else r


def h_gate(ctx, g):
    env = env_of(ctx, 'ace')
    env['k'] = V.Val(ctx.sig('k', 1))
    n = 1 if g in ('not', 'buf') else ctx.choose('n', [2, 3, 4])
    m = ctx.choose('m', [0, 3])
    exprs = [S('c'), ('idx', S('a'), K(m)), ('b', 'LessThan', S('a'), S('e')), S('k'), K(1, 1), ('u', 'Unot', S('k'))]
    sel = [ctx.choose('x%d' % i, exprs if i == 0 else exprs[1:4] if i == 1 else exprs[2:4]) for i in range(n)]
    o, name = ctx.choose('o', [('p', ''), ('o[2]', 'g0 ')])
    D = ins('ace') + '  input k;\n  output [3:0] o;\n  output p;\n'
    text = top(D, '  %s %s(%s);\n' % (g, name, ', '.join([o] + [V.emit(s) for s in sel])), 'a, c, e, k, o, p')
    v = V.Val(gate(g, [V.vext(V.Sem(dict(env)).ev(s, 1), 1).b for s in sel]))
    if o == 'p':
        vals(ctx, text, env, {'TOP.p': v}, [('TOP', 'TOP')])
    else:
        vals(ctx, text, env, {'TOP.o': V.overlay(V.Val(z3.BitVecVal(0, 4), z3.BitVecVal(-1, 4)), v, 2, 4)}, [('TOP', 'TOP')])


def h_gatearray(ctx, g):
    n = ctx.choose('n', [1, 2, 3, 4])
    up = ctx.flag('up')
    off = ctx.choose('off', [0, 2])
    a, b = V.Val(ctx.sig('v', n)), V.Val(ctx.sig('w', n))
    s = V.Val(ctx.sig('s', 1))
    env = {'v': a, 'w': b, 's': s}
    D = '  input [%d:0] v, w;\n  input s;\n  output [%d:0] o;\n' % (n - 1, n - 1)
    r = '[%d:%d]' % ((off, off + n - 1) if up else (off + n - 1, off))
    if g in ('not', 'buf'):
        con, args = '(o, v)', [a.b]
    else:
        con, args = ctx.choose('con', [('(o, v, w)', [a.b, b.b]), ('(o, v, s, w)', [a.b, z3.Concat(*([s.b] * n)) if n > 1 else s.b, b.b])])
    text = top(D, '  %s g %s %s;\n' % (g, r, con), 'v, w, s, o')
    vals(ctx, text, env, {'TOP.o': V.Val(gate(g, args))}, [('TOP', 'TOP')])


def h_hier(ctx, k):
    env = env_of(ctx, 'acdf')
    D = ins('acdf') + '  output [3:0] o, p;\n  genvar i;\n'
    P = 'a, c, d, f, o, p'
    EV = lambda t, w: V.vext(V.Sem(dict(env)).ev(t, w), w)
    if k == 0:
        text = top(D, '  sub u (a, d, p, c);\n  assign o = u.x + u.z;\n', P, sub4(0))
        z = sub_out(env, S('a'), S('d'), S('c'))
        return vals(ctx, text, env, {'TOP.o': V.Val(env['a'].b + z.b)})
    if k == 1:
        mid = 'module mid (input [3:0] x);\n  wire [3:0] t;\n  assign t = x + 3;\nendmodule\nmodule m2 (input [3:0] x);\n  mid v (x), w (~x);\nendmodule\n'
        n = ctx.choose('n', ['v', 'w'])
        text = top(D, '  m2 u (a);\n  assign o = u.%s.t;\n' % n, P, mid)
        return vals(ctx, text, env, {'TOP.o': ('b', 'Plus', S('a') if n == 'v' else ('u', 'Unot', S('a')), K(3))})
    if k == 2:
        n = ctx.choose('n', [0, 1, 2])
        text = top(D, '  generate for (i = 0; i < 3; i = i + 1) begin : g\n    wire [3:0] t;\n    assign t = a + i;\n  end endgenerate\n  assign o = g[%d].t;\n' % n, P)
        return vals(ctx, text, env, {'TOP.o': ('b', 'Plus', S('a'), K(n))})
    if k == 3:
        # each iteration reads the previous one
        st = ctx.choose('st', [1, 2])
        text = top(D, '  generate for (i = 0; i < 3; i = i + 1) begin : g\n    wire [3:0] t;\n    if (i == 0) begin\n      assign t = a;\n    end else begin\n      assign t = g[i-1].t + d;\n    end\n  end endgenerate\n'
                   '  assign o = g[%d].t;\n' % st, P)
        return vals(ctx, text, env, {'TOP.o': ('b', 'Plus', S('a'), ('b', 'Times', K(st), S('d')))})
    text = top(D, '  generate if (1) begin : g\n    wire [3:0] t;\n    assign t = a ^ d;\n  end endgenerate\n  assign o = g.t;\n', P)
    vals(ctx, text, env, {'TOP.o': ('b', 'Xor', S('a'), S('d'))})


def h_big(ctx, k):
    if k == 0:
        # ten ports, named in a rotated order or positional
        n = 10
        ps = ['p%d' % i for i in range(n)]
        sub = 'module wide (%s, z);\n%s  output [3:0] z;\n  assign z = %s;\nendmodule\n' % (
            ', '.join(ps), ''.join('  input [3:0] %s;\n' % p for p in ps), ' + '.join('(%s << %d)' % (p, i % 4) if i % 2 else '(%s ^ %d)' % (p, i) for i, p in enumerate(ps)))
        env = {'s%d' % i: V.Val(ctx.sig('s%d' % i, 4)) for i in range(n)}
        rot = ctx.choose('rot', range(n))
        named = ctx.flag('named')
        conn = {p: S('s%d' % ((i * 3 + rot) % n)) for i, p in enumerate(ps)}
        order = ps[rot:] + ps[:rot]
        t = ', '.join('.%s(%s)' % (p, conn[p][1]) for p in order) + ', .z(o)' if named else ', '.join(conn[p][1] for p in ps) + ', o'
        text = top(''.join('  input [3:0] s%d;\n' % i for i in range(n)) + '  output [3:0] o;\n', '  wide u (%s);\n' % t, ', '.join('s%d' % i for i in range(n)) + ', o', sub)
        e = None
        for i, p in enumerate(ps):
            x = ('b', 'Sll', conn[p], K(i % 4)) if i % 2 else ('b', 'Xor', conn[p], K(i))
            e = x if e is None else ('b', 'Plus', e, x)
        want = {'TOP.u.' + p: conn[p] for p in ps}
        want['TOP.o'] = V.vext(V.Sem(dict(env)).ev(e, 32), 4)
        return vals(ctx, text, env, want)
    a = V.Val(ctx.sig('a', 4))
    d = V.Val(ctx.sig('d', 4))
    env = {'a': a, 'd': d}
    D = '  input [3:0] a, d;\n  output [3:0] o;\n'
    if k == 1:
        # chain of instances
        n = ctx.choose('n', [3, 8])
        sub = 'module st (input [3:0] x, input [3:0] y, output [3:0] z);\n  assign z = x + (y ^ 4\'d%d);\nendmodule\n' % 5
        body = ''.join('  wire [3:0] t%d;\n' % i for i in range(n))
        cur = a.b
        for i in range(n):
            body += '  st u%d (.z(t%d), .y(d), .x(%s));\n' % (i, i, 'a' if i == 0 else 't%d' % (i - 1))
            cur = cur + (d.b ^ 5)
        return vals(ctx, top(D, body + '  assign o = t%d;\n' % (n - 1), 'a, d, o', sub), env, {'TOP.o': V.Val(cur)},
                    [('TOP', 'TOP')] + [('TOP.u%d' % i, 'st') for i in range(n)])
    if k == 2:
        # levels
        n = ctx.choose('n', [4, 6])
        text, cur, insts, path = '', a.b, [('TOP', 'TOP')], 'TOP'
        for i in range(n):
            nm = 'TOP' if i == 0 else 'l%d' % i
            last = i == n - 1
            text += 'module %s (input [3:0] a, input [3:0] d, output [3:0] o);\n%sendmodule\n' % (
                nm, '  assign o = a - d;\n' if last else '  wire [3:0] t;\n  l%d u (.a(d), .d(a + %d), .o(t));\n  assign o = t ^ %d;\n' % (i + 1, i, i))
            if i:
                path += '.u'
                insts.append((path, nm))
        x, y = a.b, d.b
        xs = []
        for i in range(n - 1):
            x, y = y, x + i
            xs.append(i)
        r = x - y
        for i in reversed(xs):
            r = r ^ i
        return vals(ctx, text, env, {'TOP.o': V.Val(r)}, insts)
    if k == 3:
        # long generate loop
        n = ctx.choose('n', [10, 16])
        x = V.Val(ctx.sig('x', 16))
        text = top('  input [15:0] x;\n  output [15:0] o;\n  genvar i;\n',
                   '  generate for (i = 0; i < %d; i = i + 1) begin : g\n    assign o[i] = x[15-i];\n  end endgenerate\n' % n, 'x, o')
        r = V.Val(z3.BitVecVal(0, 16), z3.BitVecVal(-1, 16))
        for i in range(n):
            r = V.overlay(r, V.Sem({}).part(x, 15 - i, 15 - i), i, 16)
        return vals(ctx, text, {'x': x}, {'TOP.o': r})
    # else-if chain of generate conditions
    n = 5
    p = ctx.int('p', 0, 7)
    body = '  generate '
    for i in range(n):
        body += 'if (P == %d) begin : b%d\n    assign o = a + %d;\n  end else ' % (i * 2 % 7, i, i)
    body += 'begin : z\n    assign o = d;\n  end endgenerate\n'
    text = top(D + '  parameter P = %s;\n' % V.emit(K(p)), body, 'a, d, o')
    want = S('d')
    for i in range(n):
        if ctx.branch(p == i * 2 % 7):
            want = ('b', 'Plus', S('a'), K(i))
            break
    vals(ctx, text, env, {'TOP.o': want})


def h_names(ctx):
    """one name used on every level for different things"""
    env = env_of(ctx, 'ad')
    k = ctx.choose('k', range(3))
    pre = 'module x (input [3:0] a, output [3:0] o);\n  wire [3:0] t;\n  assign t = a + 1;\n  assign o = t ^ 5;\nendmodule\n'
    D = ins('ad') + '  output [3:0] o, p;\n  wire [3:0] t;\n'
    n = ctx.choose('n', [('u', 'v'), ('t1', 't2'), ('a1', 'o1')])
    o = lambda s: ('b', 'Xor', ('b', 'Plus', S(s), K(1)), K(5))
    if k == 0:
        text = top(D, '  assign t = a - d;\n  x %s (a, o);\n  x %s (t, p);\n' % n, 'a, d, o, p', pre)
        t = V.vext(V.Sem(dict(env)).ev(('b', 'Minus', S('a'), S('d')), 4), 4)
        return vals(ctx, text, env, {'TOP.t': t, 'TOP.o': V.vext(V.Sem(dict(env)).ev(o('a'), 32), 4), 'TOP.p': V.vext(V.Sem({'t': t}).ev(o('t'), 32), 4)})
    if k == 1:
        text = top(D, '  assign t = d;\n  x %s (.o(o), .a(d));\n  x %s (.o(p), .a(a));\n' % n, 'a, d, o, p', pre)
        return vals(ctx, text, env, {'TOP.t': S('d'), 'TOP.%s.t' % n[0]: ('b', 'Plus', S('d'), K(1)), 'TOP.%s.t' % n[1]: ('b', 'Plus', S('a'), K(1))})
    text = top(D, '  assign t = d;\n  x %s (.o(o), .a(t));\n  y %s (.o(p), .a(t));\n' % n, 'a, d, o, p',
               pre + 'module y (input [3:0] a, output [3:0] o);\n  x %s (~a, o);\nendmodule\n' % n[0])
    vals(ctx, text, env, {'TOP.o': V.vext(V.Sem(dict(env)).ev(o('d'), 32), 4),
                          'TOP.p': V.vext(V.Sem({'d': V.Val(~env['d'].b)}).ev(o('d'), 32), 4)},
         [('TOP', 'TOP'), ('TOP.' + n[0], 'x'), ('TOP.' + n[1], 'y'), ('TOP.%s.%s' % (n[1], n[0]), 'x')])
