"""C18: the extracted state machine is the one the code implements; its loops are its cycles.
Real code: pyverilog/controlflow/controlflow_analyzer.py, splitter.py, transition.py and everything below them (parser, analyzer, walker, optimizer)."""
import z3
from sx import engine as E, target, vlog as V, dft
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'state registers of 2 and 3 bits; machines written with case (several labels, defaults), if chains with equality, ranges and negated tests, conditional '
             'expressions, nested input conditions, next-state logic in a combinational block, parameters, counters with constant jumps, offset ranges, sub-modules; resets of both polarities or none; '
             'all state codes and successor codes symbolic (0..7 resp. 0..3), all values of state and inputs; loops: every graph of 3 states and every graph of 4 states without self loops, '
             'graphs of 5 states around a ring, rings of up to 50 states with a chord',
    'thorough': 'as quick with every graph of 4 states, and more symbolic codes per machine'}
OUTSIDE = ('states wider than 3 bits, loops of more than 50 states, reset tests below other conditions, input names that contain rst or reset; '
           'successors that are not constants (the machine lists constant successors only)')
ASSUMPTIONS = ['the reset is inactive (the machine describes operation outside reset)']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for k in range(16):
        for rst in ('low', 'high', 'none') if not q else (('low', 'high', 'none')[k % 3],):
            add('machine-%d-%s' % (k, rst), 'h_machine', k=k, rst=rst, q=q)
    for k in range(3):
        add('sub-%d' % k, 'h_sub', k=k)
    add('graph-3', 'h_graph', n=3, first=None, self_=True)
    for f in range(8):
        add('graph-4-%d' % f, 'h_graph', n=4, first=f, self_=not q)
    for f in range(4):
        add('ring5-%d' % f, 'h_ring', n=5, f=f)
    add('ring50', 'h_long')
    return out


def seq(*s):
    return ('seq', list(s), None)


def eq(a, b):
    return ('b', 'Eq', a, b)


def machine(ctx, k, q):
    """(width, body over state, extra declarations, combinational part or None, constants)"""
    w = 2
    st, a, c, e = S('state'), S('a'), S('c'), S('e')
    go = lambda x: ('<=', st, x)

    def code(n, ww=None, base=10):
        return K(ctx.int(n, 0, (1 << (ww or w)) - 1), ww or w, base)
    nd = ctx.int
    if k == 0:
        b = ('case', st, [([code('k0')], ('if', c, go(code('d0')), None)), ([code('k1')], go(code('d1'))), ([K(2, 2)], ('if', e, go(K(3, 2)), go(K(0, 2)))), (None, go(K(1, 2)))])
    elif k == 1:
        b = ('if', ('b', 'LessThan', st, code('k0')), ('if', c, go(code('d0')), None), ('if', ('b', 'LessEq', st, code('k1')), go(K(2, 2)), ('if', eq(a, K(1, 2)), go(K(0, 2)), go(st))))
    elif k == 2:
        b = ('if', ('u', 'Ulnot', eq(st, code('k0'))), ('if', ('b', 'NotEq', st, code('k1')), go(code('d0')), ('if', ('u', 'Ulnot', c), go(K(1, 2)), None)), go(code('d1')))
    elif k == 3:
        b = ('case', st, [([code('k0'), code('k1')], go(code('d0'))), ([K(3, 2)], ('case', a, [([K(0, 2), K(2, 2)], go(K(2, 2))), (None, go(K(0, 2)))]))])
    elif k == 4:
        b = go(('?', eq(st, code('k0')), ('?', c, code('d0'), st), ('?', ('b', 'GreaterEq', st, code('k1')), K(0, 2), K(3, 2))))
    elif k == 5:
        b = ('if', ('b', 'Land', c, eq(a, K(2, 2))), ('if', eq(st, code('k0')), go(code('d0')), ('if', e, go(code('d1')), None)), ('case', st, [([code('k1')], go(K(3, 2))), (None, ('null',))]))
    elif k == 6:
        # next-state logic apart
        nb = seq(('=', S('nx'), st), ('case', st, [([code('k0')], ('if', c, ('=', S('nx'), code('d0')), None)), ([code('k1')], ('=', S('nx'), K(1, 2))), (None, ('if', e, ('=', S('nx'), K(0, 2)), None))]))
        return w, go(S('nx')), '  reg [1:0] nx;\n', nb, {}
    elif k == 7:
        b = ('case', st, [([S('IDLE')], ('if', c, go(S('RUN')), None)), ([S('RUN')], ('if', e, go(S('DONE')), ('if', c, go(S('RUN')), None))), ([S('DONE')], go(S('IDLE')))])
        cs = {'IDLE': ctx.int('k0', 0, 3), 'RUN': ctx.int('k1', 0, 3), 'DONE': 2}
        return w, b, '  localparam IDLE = %s, RUN = %s;\n  parameter DONE = 2;\n' % (V.emit(K(cs['IDLE'])), V.emit(K(cs['RUN']))), None, cs
    elif k == 8:
        w = 3
        b = ('if', ('b', 'Land', ('b', 'GreaterThan', st, code('k0', 3)), ('b', 'LessThan', st, code('k1', 3))), ('if', c, go(K(1, 3)), go(K(7, 3))), ('if', ('b', 'Lor', eq(st, K(0, 3)), eq(K(7, 3), st)), go(K(4, 3)), None))
    elif k == 9:
        b = ('if', ('b', 'Lor', ('b', 'Land', eq(st, code('k0')), eq(a, K(2, 2))), c), go(code('d0')), ('if', ('b', 'Land', ('b', 'NotEq', st, code('k1')), ('u', 'Ulnot', e)), go(code('d1')), None))
    elif k == 10:
        b = ('if', ('idx', st, K(0)), ('if', eq(st, code('k0')), go(code('d0')), None), ('if', ('b', 'LessThan', st, code('k1')), go(K(2, 2)), ('if', c, go(K(1, 2)), None)))
    elif k == 11:
        b = seq(('if', eq(st, code('k0')), go(code('d0')), None), ('if', ('b', 'Land', c, eq(st, code('k1'))), go(code('d1')), None))
    elif k == 12:
        b = ('if', eq(st, code('k0')), go(code('d0')), ('if', c, go(('b', 'Plus', st, K(1, 2))), ('if', ('b', 'GreaterThan', code('k1'), st), go(K(0, 2)), None)))
    elif k == 13:
        # a constant that does not fit is truncated on assignment
        b = ('case', st, [([code('k0')], go(K(ctx.int('d0', 0, 9), 4))), (None, ('if', c, go(K(6)), None))])
    elif k == 14:
        w = 3
        b = ('case', st, [([code('k0', 3)], ('if', c, go(code('d0', 3)), go(K(6, 3)))), ([K(6, 3), K(5, 3)], ('if', e, go(K(1, 3)), ('if', eq(a, K(3, 2)), go(K(2, 3)), None))),
                          ([K(1, 3)], go(K(2, 3))), ([K(2, 3)], ('if', ('u', 'Ulnot', c), go(K(5, 3)), go(K(0, 3)))), (None, go(K(0, 3)))])
    else:
        b = ('if', e, seq(go(code('d0')), ('if', eq(st, code('k0')), ('if', c, go(code('d1')), go(st)), None)), ('if', eq(st, K(3, 2)), go(K(0, 2)), None))
    return w, b, '', None, {}


def flags(s, tgt='state'):
    """the statement with every assigned value of tgt replaced by: is it a constant"""
    def fe(x):
        if x[0] == '?':
            return ('?', x[1], fe(x[2]), fe(x[3]))
        if x[0] == 's' and x[1].isupper():
            return K(1, 1)
        if x[0] == 's' and x[1] == 'nx':
            return S('nxf')
        return K(1 if x[0] == 'k' else 0, 1)
    k = s[0]
    if k in ('<=', '='):
        m = {'state': 'f', 'nx': 'nxf'}
        return (k, S(m[s[1][1]]), fe(s[2]))
    if k == 'seq':
        return ('seq', [flags(x) for x in s[1]], s[2])
    if k == 'if':
        return ('if', s[1], flags(s[2]), flags(s[3]) if s[3] else None)
    if k == 'case':
        return ('case', s[1], [(l, flags(x)) for l, x in s[2]])
    return s


W = {'a': 2, 'c': 1, 'e': 1, 'RST': 1, 'f': 1, 'nxf': 1}


def h_machine(ctx, k, rst, q):
    w, body, decl, comb, consts = machine(ctx, k, q)
    full = body
    if rst != 'none':
        full = ('if', ('u', 'Ulnot', S('RST')) if rst == 'low' else S('RST'), ('<=', S('state'), K(ctx.int('kr', 0, 1), w)), body)
    sens = '@(posedge CLK%s)' % {'none': '', 'low': ' or negedge RST', 'high': ' or posedge RST'}[rst]
    text = '  always %s\n%s' % (sens, V.emit_stmt(full)) + ('  always @(*)\n%s' % V.emit_stmt(comb) if comb else '')
    r = '[%d:%d] ' % ((w - 1, 0) if k != 9 else (w, 1))
    src = V.text_module('  input CLK, RST, c, e;\n  input [1:0] a;\n  output reg %sstate;\n' % r + decl, text, ports=['CLK', 'RST', 'c', 'e', 'a', 'state'])
    verify(ctx, src, 'TOP.state', w, body, comb, rst, consts, 'TOP.')


def verify(ctx, src, reg, w, body, comb, rst, consts, scope, inputs=('a', 'c', 'e', 'RST'), top='TOP', also=()):
    t = target.load()
    ctx.note(src)
    fl = call(ctx, 'analysis of\n' + src, V.analyze, src, top)
    o = V.walker(fl).resolver
    with V.quiet():
        an = call(ctx, 'control-flow analysis of\n' + src, t.controlflow_analyzer.VerilogControlflowAnalyzer, top, fl.terms_raw, fl.binds_raw,
                  o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        loops, fsms = call(ctx, 'state machines of\n' + src, an.getLoops)
        nm = V.name_of(fl, reg)
        fd, delay = call(ctx, 'cases', an.getFuncdict, nm)
        m = call(ctx, 'machine', an.getFiniteStateMachine, nm, fd)
    ctx.check(set(str(x) for x in fsms) <= set([reg]) | set(also), lambda: 'only state registers have machines (%s)\n%s' % (list(fsms), src))
    if nm in fsms:
        m = fsms[nm]
    else:
        ctx.check(m.size() == 0, lambda: 'the machine of %s is reported\n%s' % (reg, src))
    ws = dict(W, state=w, nx=w)
    env = {n: V.Val(ctx.sig(n, ws[n])) for n in inputs}
    env['state'] = V.Val(ctx.sig('state', w))
    b = dft.B(ctx, {})
    b.env = {s_ + n: v for n, v in env.items() for s_ in (scope, top + '.')}
    if rst != 'none':
        ctx.assume(env['RST'].b == (1 if rst == 'low' else 0))
    cs = {n: V.Val(z3.BitVecVal(0, 32) + E.as_bv(v, 32)) for n, v in consts.items()}
    run = dict(env)
    run.update(cs)
    run.update(f=V.Val(z3.BitVecVal(0, 1)), nx=V.Val(z3.BitVecVal(0, w)), nxf=V.Val(z3.BitVecVal(0, 1)))
    ws.update({n: 32 for n in cs})
    x, y = V.Exec(dict(run), ws), V.Exec(dict(run), ws)
    if comb:
        nx = V.Exec(dict(run), ws).run(comb)['nx']
        nf = V.Exec(dict(run), ws).run(flags(comb))['nxf']
        x, y = V.Exec(dict(run, nx=nx), ws), V.Exec(dict(run, nxf=nf), ws)
    nxt = x.run(body)['state'].b
    con = y.run(flags(body))['f'].b == 1
    listing = lambda: '%s\nany: %s\n%s' % ({s: [(c and c.tostr(), d) for c, d in v.items()] for s, v in m.fsm.items()}, [(c and c.tostr(), d) for c, d in m.any.items()], src)
    ctx.note(listing)
    bv = lambda v: E.as_bv(v, w + 8) if not isinstance(v, int) or type(v) is E.SymInt else z3.BitVecVal(v, w + 8)
    here, there = z3.ZeroExt(8, env['state'].b), z3.ZeroExt(8, nxt)
    hit = z3.BoolVal(False)
    for s, v in list(m.fsm.items()) + [('any', m.any)]:
        for c, d in v.items():
            p = z3.BoolVal(True) if s == 'any' else here == bv(s)
            if c is not None:
                p = z3.And(p, b.truth(c))
            ctx.check(z3.Implies(p, z3.And(con, there == bv(d))), lambda: 'transition %s -> %s if %s of %s' % (s, d, c and c.tostr(), listing()))
            hit = z3.Or(hit, p)
    ctx.check(z3.Implies(con, hit), lambda: 'every constant successor is a transition of ' + listing())
    if nm in fsms:
        got = loops.get(nm, set())
        cycles(ctx, {s: list(v.values()) for s, v in m.fsm.items()}, got, listing)
    return m


def cycles(ctx, edges, got, what):
    """got is exactly the set of simple cycles, each written from its smallest state"""
    n = lambda v: E.concretize(v) if type(v) is E.SymInt else v
    g = {n(s): set(n(d) for d in ds) for s, ds in edges.items()}
    want = set()

    def walk(start, node, path):
        for d in g.get(node, ()):
            if d == start:
                want.add(tuple(path))
            elif d > start and d not in path and d in g:
                walk(start, d, path + [d])
    for s in g:
        walk(s, s, [s])
    gs = set(tuple(n(x) for x in p) for p in got)
    norm = set(p[p.index(min(p)):] + p[:p.index(min(p))] for p in gs)
    ctx.check(norm == want and len(norm) == len(gs), lambda: 'loops %s, expected %s: %s' % (sorted(gs), sorted(want), what() if callable(what) else what))


def h_sub(ctx, k):
    """machines in sub-modules, codes given by parameters; other registers have no machine"""
    k0, k1 = ctx.int('k0', 0, 3), ctx.int('k1', 0, 3)
    body = ('case', S('state'), [([S('FIRST')], ('if', S('c'), ('<=', S('state'), S('SECOND')), None)), ([S('SECOND')], ('if', S('e'), ('<=', S('state'), S('FIRST')), None)),
                                 (None, ('<=', S('state'), K(2, 2)))])
    sub = ('module SUB #(parameter FIRST = 0, parameter SECOND = 1)(input CLK, input RST, input c, input e, input [1:0] a, output reg [1:0] state);\n'
           'reg [1:0] other;\nalways @(posedge CLK) begin if(other == 1) other <= 2; else other <= 1; end\n'
           'always @(posedge CLK or negedge RST)\nif(!RST) state <= FIRST; else\n%sendmodule\n') % V.emit_stmt(body)
    inst = ['SUB #(%s, %s) u(CLK, RST, c, e, a, o);', 'SUB #(.SECOND(%s), .FIRST(%s)) u(.CLK(CLK), .RST(RST), .e(e), .c(c), .a(a), .state(o));',
            'SUB #(.FIRST(%s)) u(CLK, RST, c, e, a, o);'][k]
    args = [V.emit(K(x)) for x in (k0, k1)]
    cs = {'FIRST': k0, 'SECOND': k1}
    if k == 1:
        args.reverse()
    if k == 2:
        args.pop()
        cs['SECOND'] = 1
    src = sub + 'module TOP(input CLK, input RST, input c, input e, input [1:0] a, output [1:0] o);\n%s\nendmodule\n' % (inst % tuple(args))
    t = target.load()
    verify(ctx, src, 'TOP.u.state', 2, body, None, 'low', cs, 'TOP.u.')


def fsm(ctx, edges):
    t = target.load()
    m = call(ctx, 'FiniteStateMachine', t.controlflow_analyzer.FiniteStateMachine, 'm')
    b = dft.B(ctx, {'x%d' % i: 1 for i in range(60)})
    for s, ds in edges.items():
        for i, d in enumerate(ds):
            m.construct(d, t.transition.StateNode(((s, s),), 0, 63, b.sig('x%d' % i)))
    return m


def h_graph(ctx, n, first, self_):
    edges = {}
    for s in range(n):
        ds = []
        for i, d in enumerate([x for x in range(n) if self_ or x != s]):
            if s == 0 and first is not None:
                if first >> i & 1 if i < 3 else ctx.flag('%d-%d' % (s, d)):
                    ds.append(d)
            elif ctx.flag('%d-%d' % (s, d)):
                ds.append(d)
        if ds:
            edges[s] = ds
    m = fsm(ctx, edges)
    cycles(ctx, edges, call(ctx, 'get_loop', m.get_loop), 'transitions %s' % edges)


def h_ring(ctx, n, f):
    edges = {s: [(s + 1) % n] for s in range(n)}
    for i, (s, d) in enumerate([(0, 2), (2, 1), (3, 3), (4, 2), (1, 4), (3, 0), (2, 0), (4, 4), (1, 0), (3, 1)]):
        if (f >> i & 1) if i < 2 else ctx.flag('%d-%d' % (s, d)):
            edges[s].append(d)
    m = fsm(ctx, edges)
    cycles(ctx, edges, call(ctx, 'get_loop', m.get_loop), 'transitions %s' % edges)


def h_long(ctx):
    n = ctx.choose('n', [10, 33, 50])
    edges = {s: [(s + 1) % n] for s in range(n)}
    s, d = ctx.int('from', 0, n - 1), ctx.int('to', 0, n - 1)
    ctx.assume(dft.b2z(s == n // 2))
    edges[n // 2].append(E.concretize(d) if type(d) is E.SymInt else d)
    m = fsm(ctx, edges)
    cycles(ctx, edges, call(ctx, 'get_loop', m.get_loop), 'ring of %d states with %d -> %s' % (n, n // 2, edges[n // 2]))
