"""C08: partial assignments drive exactly the bits they name; merging gives every bit the value of its driver.
Real code: BindVisitor.getDestinations/getDst/makeBind/setDataflow, Frame, VerilogDataflowMerge.getTree (split, merge),
replace.replaceUndefined."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'target of 6 bits with LSB index 0 or 2, descending or ascending; one to three continuous assignments to disjoint parts with every pair '
             'of bounds; clocked and combinational blocks with one to three assignments to one or two parts (every pair of bounds, disjoint, '
             'overlapping or the whole signal) plain and under if, nested if and case; the assigned signal read later in the block; concatenated '
             'targets of two or three members (whole signals, parts, bits, nested concatenation) in continuous, nonblocking and blocking '
             'assignments; one source signal of width 1..8, range base 0..3, ascending or descending, assigned to a concatenation; elements of a '
             '4-entry array under every pair of constant indices and under computed indices, and parts and bits of elements; right-hand sides: signals narrower and wider than the '
             'part, sums, conditionals, concatenations, constants 0..63; all values of all signals. Recorded drivers and the tree merged from them',
    'thorough': 'as quick with a target of 8 bits'}
OUTSIDE = ('indexed part selects (+:, -:) and variable bit positions as targets, memories of two dimensions, '
           'bounds that depend on blocking-assigned constants')
ASSUMPTIONS = ['IEEE 1364-2005 assignment semantics as written in sx/vlog.py',
               'bits no driver names are undefined for wires and keep the old value for variables']
W = {'a': 4, 'b': 3, 'c': 1, 'd': 6, 'f': 1, 'p': 6, 'q': 3, 'r': 4, 's': 2, 'mm': 5}


def prepare(ctx):
    W.update(p=8 if ctx.tier == 'thorough' else 6)


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for base in (0, 2):
        add('assign1-%d' % base, 'h_assign', n=1, base=base)
        for o in range(2):
            add('assign2-%d-%d' % (base, o), 'h_assign', n=2, base=base, o=o)
        add('assign3-%d' % base, 'h_assign', n=3, base=base)
        add('assign1up-%d' % base, 'h_assign', n=1, base=base, up=True)
        add('assign2up-%d' % base, 'h_assign', n=2, base=base, o=1, up=True)
    for mode in ('nb', 'comb'):
        for k in range(6):
            add('always-%s-%d' % (mode, k), 'h_always', mode=mode, k=k)
        add('read-%s' % mode, 'h_read', mode=mode)
        for k in range(7):
            add('over-%s-%d' % (mode, k), 'h_over', mode=mode, k=k)
        for k in range(8):
            add('mem-%s-%d' % (mode, k), 'h_mem', mode=mode, k=k)
        for k in range(9):
            add('index-%s-%d' % (mode, k), 'h_index', mode=mode, k=k)
    for mode in ('assign', 'nb', 'comb'):
        for k in range(5):
            add('lcat-%s-%d' % (mode, k), 'h_lcat', mode=mode, k=k)
        add('src-%s' % mode, 'h_src', mode=mode)
    return out


def decls(outs, kind, names, base=0, up=False):
    r = '  input CLK;\n' + ''.join('  input %s%s;\n' % (V.rng(W[n]), n) for n in names)
    for n in outs:
        w = W[n]
        rg = V.rng(w) if not base or n != 'p' else '[%d:%d] ' % (w - 1 + base, base)
        if up:
            rg = '[%d:%d] ' % (base, base + w - 1)
        r += '  output %s%s%s;\n' % ('reg ' if kind == 'reg' else '', rg, n)
    return r


def judge(ctx, src, env, want, outs, base=0, up=False, hold=True, known=None, merged=True):
    """binds of each output, and the tree merged from them, against the wanted values"""
    fl = call(ctx, 'analysis of\n%s' % src, V.analyze, src)
    lsbs = {'TOP.p': ('up', base + W['p'] - 1) if up else base} if base or up else {}
    full = {'TOP.' + n: v for n, v in env.items()}
    d = V.DFEval(fl, full, lsbs=lsbs)
    for n in outs:
        old = env.get(n)
        try:
            got = d.driven('TOP.' + n, old=old)
        except V.Unsupported as ex:
            ctx.fail('drivers of %s in\n%s\nhave no value: %s' % (n, src, ex))
        bl = fl.binds.get('TOP.' + n, ())
        ctx.check(V.same(want[n], got), lambda: 'drivers of %s: %s\n%s' % (n, [b.tostr() for b in bl], src), known=known)
        if not merged or not bl:
            continue
        w = call(ctx, 'constant resolution', V.walker, fl)
        nm = V.name_of(fl, 'TOP.' + n)
        t = call(ctx, 'merging the drivers of %s in\n%s' % (n, src), w.getTree, nm)
        ctx.note('merged', t.tostr)
        ww = V.kint(d.term_width('TOP.' + n))
        try:
            m = V.DFEval(fl, full, lsbs=lsbs).tree(t, ww, old if old is not None else V.Val(z3.BitVecVal(0, ww), z3.BitVecVal(-1, ww)))
        except V.Unsupported as ex:
            ctx.fail('merged tree %s of %s in\n%s\nhas no value: %s' % (t.tostr(), n, src, ex))
        ctx.check(V.refines(want[n], m), lambda: 'merged tree of %s: %s\n%s' % (n, t.tostr(), src), known=known)
    return fl


def rhs(ctx, i, opts=None):
    o = [S('a'), ('b', 'Plus', S('a'), S('d')), ('?', S('c'), S('b'), S('d')), ('cat', [S('b'), S('a')]), K(ctx.int('k%d' % i, 0, 63), 6)]
    return ctx.choose('rhs%d' % i, o if opts is None else [o[j] for j in opts])


def h_assign(ctx, n, base, o=None, up=False):
    """continuous assignments to disjoint parts, in any order of position"""
    ls = []
    spans = []
    for i in range(n):
        l, m = ctx.int('l%d' % i, base, base + W['p'] - 1), ctx.int('m%d' % i, base, base + W['p'] - 1)
        ctx.assume(l <= m)
        for l2, m2 in spans:
            ctx.assume((m2 < l) | (m < l2))
        if n > 1:
            l, m = E.concretize(l), E.concretize(m)
        spans.append((l, m))
        bit = n != 2 and i == 0 and ctx.flag('bit')
        if bit:
            ctx.assume(l == m)
        tgt = ('idx', S('p'), K(m)) if bit else ('sel', S('p'), K(l), K(m)) if up else ('sel', S('p'), K(m), K(l))
        ls.append((tgt, rhs(ctx, i, None if n == 1 else (0, 1, 2) if n == 2 else (2,) if i == 1 else (1,)), l, m))
    body = ''.join('  assign %s = %s;\n' % (V.emit(t), V.emit(e)) for t, e, _, _ in ls)
    names = ('a', 'b', 'c', 'd')
    src = V.text_module(decls(['p'], 'wire', names, base, up), body, ports=['CLK'] + list(names) + ['p'])
    ctx.note(src)
    env = {k: V.Val(ctx.sig(k, W[k])) for k in names}
    want = V.Val(z3.BitVecVal(0, W['p']), z3.BitVecVal(-1, W['p']))
    for t, e, l, m in ls:
        l, m = V.kint(l) - base, V.kint(m) - base
        if up:
            l, m = W['p'] - 1 - m, W['p'] - 1 - l
        v = V.vext(V.Sem(dict(env)).ev(e, m - l + 1), m - l + 1)
        want = V.overlay(want, v, l, W['p'])
    judge(ctx, src, env, {'p': want}, ['p'], base, up)


def run(ctx, body, mode, outs, extra_names=(), merged=True, known=None):
    names = ('a', 'b', 'c', 'd', 'f')
    sens = '@(posedge CLK)' if mode == 'nb' else '@(*)'
    src = V.text_module(decls(outs, 'reg', names), '  always %s\n%s' % (sens, V.emit_stmt(('seq', body, None))), ports=['CLK'] + list(names) + list(outs))
    ctx.note(src)
    ws = {n: W[n] for n in list(names) + list(outs)}
    env = {n: V.Val(ctx.sig(n, w)) for n, w in ws.items()}
    want = V.Exec(env, ws, None, None).run(('seq', body, None))
    judge(ctx, src, env, want, outs, merged=merged, known=known)


def span(ctx, i, n, others=()):
    l, m = ctx.int('l%d' % i, 0, W[n] - 1), ctx.int('m%d' % i, 0, W[n] - 1)
    ctx.assume(l <= m)
    for l2, m2 in others:
        ctx.assume((m2 < l) | (m < l2))
    return E.concretize(l), E.concretize(m)


def h_always(ctx, mode, k):
    """disjoint (or equal) parts under conditions"""
    o = '<=' if mode == 'nb' else '='
    s1 = span(ctx, 1, 'p')
    s2 = span(ctx, 2, 'p', [s1])
    P1, P2 = ('sel', S('p'), K(s1[1]), K(s1[0])), ('sel', S('p'), K(s2[1]), K(s2[0]))
    x, y, z = (o, P1, rhs(ctx, 1, (1,))), (o, P2, rhs(ctx, 2, (0, 3))), (o, P1, S('d'))
    body = [[x, y], [('if', S('c'), x, y)], [x, ('if', S('c'), z, None), y], [('if', S('c'), x, None), ('if', S('f'), ('seq', [y, z], None), None)],
            [('if', S('c'), ('if', S('f'), x, y), z)], [('if', ('idx', S('a'), K(1)), x, None), ('case', S('b'), [([K(2, 3)], y), (None, z)])]][k]
    run(ctx, body, mode, ['p'])


def h_read(ctx, mode):
    """a partly assigned signal is read in the same block"""
    o = '<=' if mode == 'nb' else '='
    s1 = span(ctx, 1, 'p')
    P1 = ('sel', S('p'), K(s1[1]), K(s1[0]))
    w = ctx.choose('w', ['one', 'two', 'cond'])
    body = [(o, P1, S('d'))]
    if w == 'two':
        s2 = span(ctx, 2, 'p', [s1])
        body.append((o, ('sel', S('p'), K(s2[1]), K(s2[0])), S('a')))
    elif w == 'cond':
        body = [('if', S('c'), body[0], None)]
    body.append((o, S('r'), ctx.choose('rd', [S('p'), ('sel', S('p'), K(4), K(1)), ('idx', S('p'), K(3)), ('b', 'Plus', S('p'), S('a'))])))
    run(ctx, body, mode, ['p', 'r'])


def h_index(ctx, mode, k):
    """the index of a target has the value its variable has at that statement"""
    o = '<=' if mode == 'nb' else '='
    I, s, c = S('i'), S('s'), S('c')
    k1, k2 = E.concretize(ctx.int('k1', 0, 3)), E.concretize(ctx.int('k2', 0, 3))
    st = lambda e: ('=', I, e)
    one = lambda e: ('b', 'Plus', e, K(1, 2))
    pre = [[st(K(k1, 2))], [st(K(k1, 2)), st(s)], [st(K(k1, 2)), ('if', c, st(K(k2, 2)), None)], [('if', c, st(K(k1, 2)), st(K(k2, 2)))],
           [st(s), st(one(I))], [st(s), ('if', c, st(K(k1, 2)), None)], [('if', c, st(K(k1, 2)), None)],
           [st(K(k1, 2)), ('if', c, ('if', ('b', 'Eq', s, K(k2, 2)), st(s), None), None)], [st(K(k1, 2)), st(one(I)), st(one(I))]][k]
    what = ctx.choose('target', ['word', 'bit', 'wordbit'])
    t = {'word': ('idx', S('mm'), I), 'bit': ('idx', S('r'), I), 'wordbit': ('idx', ('idx', S('mm'), I), I)}[what]
    post = [st(K(k2, 2))] if ctx.flag('post') else []
    tail = (o, t, S('a'))
    if ctx.flag('under'):
        tail = ('if', S('f'), tail, None)
    names = ('a', 'c', 'f', 's')
    src = V.text_module(decls(['r'], 'reg', names) + '  reg [1:0] i;\n  reg [4:0] mm [0:3];\n', '  always %s\n%s' % (
        '@(posedge CLK)' if mode == 'nb' else '@(*)', V.emit_stmt(('seq', pre + [tail] + post, None))), ports=['CLK', 'r'] + list(names))
    ctx.note(src)
    ws = dict({n: W[n] for n in names}, i=2)
    env = {n: V.Val(ctx.sig(n, w)) for n, w in ws.items()}
    want = V.Exec(env, ws, None, None).run(('seq', pre, None))['i']
    fl = call(ctx, lambda: 'analysis of\n%s' % src, V.analyze, src)
    d = V.DFEval(fl, {'TOP.' + n: env[n] for n in env})
    bl = fl.binds.get('TOP.r' if what == 'bit' else 'TOP.mm', ())
    ctx.check(len(bl) == 1, 'drivers of the target in\n%s' % src)
    b = bl[0]
    for ix in {'word': [b.ptr], 'bit': [b.msb, b.lsb], 'wordbit': [b.ptr, b.msb, b.lsb]}[what]:
        ctx.check(ix is not None, 'no index recorded in\n%s' % src)
        try:
            got = d.tree(ix, 2, env['i'])
        except V.Unsupported as ex:
            ctx.fail('index %s in\n%s\nhas no value: %s' % (ix.tostr(), src, ex))
        ctx.check(V.same(want, got), lambda: 'index %s in\n%s' % (ix.tostr(), src))


def h_lcat(ctx, mode, k):
    """concatenated targets"""
    o = '<=' if mode == 'nb' else '='
    s1 = span(ctx, 1, 'p')
    P1 = ('sel', S('p'), K(s1[1]), K(s1[0]))
    tg = [('cat', [S('q'), S('r')]), ('cat', [P1, S('q')]), ('cat', [S('q'), ('idx', S('p'), K(s1[0])), S('r')]),
          ('cat', [S('r'), ('cat', [S('q'), P1])]), ('cat', [S('r'), P1, S('q')])][k]
    if k in (0, 2):
        ctx.assume(s1[0] == s1[1])
    outs = [['q', 'r'], ['p', 'q'], ['q', 'p', 'r'], ['r', 'q', 'p'], ['r', 'p', 'q']][k]
    e = ctx.choose('e', [('cat', [S('d'), S('a'), S('b')]), ('b', 'Plus', S('d'), ('cat', [S('a'), S('c')])), ('?', S('c'), S('d'), ('cat', [S('d'), S('d')]))])
    if mode == 'assign':
        names = ('a', 'b', 'c', 'd')
        src = V.text_module(decls(outs, 'wire', names), '  assign %s = %s;\n' % (V.emit(tg), V.emit(e)), ports=['CLK'] + list(names) + outs)
        ctx.note(src)
        env = {n: V.Val(ctx.sig(n, W[n])) for n in names}
        ws = {n: W[n] for n in list(names) + outs}
        e0 = dict(env)
        e0.update({n: V.Val(z3.BitVecVal(0, W[n]), z3.BitVecVal(-1, W[n])) for n in outs})
        want = V.Exec(e0, ws, None, None).run(('=', tg, e))
        return judge(ctx, src, env, want, outs)
    sh = ctx.choose('sh', ['plain', 'if', 'over', 'ifelse'])
    x = (o, tg, e)
    body = {'plain': [x], 'if': [('if', S('f'), x, None)], 'over': [x, ('if', S('f'), (o, tg, S('d')), None)],
            'ifelse': [('if', S('f'), x, (o, S('q'), S('b')))]}[sh]
    run(ctx, body, mode, outs)


def h_over(ctx, mode, k):
    """the whole signal and a part of it, or overlapping parts"""
    o = '<=' if mode == 'nb' else '='
    l, m = span(ctx, 1, 'p')
    P = ('sel', S('p'), K(m), K(l))
    z, w, x, y = (o, S('p'), K(0, W['p'])), (o, S('p'), S('d')), (o, P, rhs(ctx, 1, (1, 3))), (o, P, S('b'))
    if k in (4, 5):
        l2, m2 = ctx.int('l2', 0, W['p'] - 1), ctx.int('m2', 0, W['p'] - 1)
        ctx.assume(l2 <= m2)
        y = (o, ('sel', S('p'), K(E.concretize(m2)), K(E.concretize(l2))), S('d'))
    body = [[z, x], [w, ('if', S('c'), x, None)], [('if', S('c'), z, x)], [('if', S('c'), z, ('if', S('f'), x, w))],
            [x, y], [x, ('if', S('c'), y, None)], [x, w]][k]
    run(ctx, body, mode, ['p'])


def h_mem(ctx, mode, k):
    """elements of an array"""
    o = '<=' if mode == 'nb' else '='
    i, j = ctx.int('i', 0, 3), ctx.int('j', 0, 3)
    i, j = E.concretize(i), E.concretize(j)
    M = lambda n: ('idx', S('mm'), n if isinstance(n, tuple) else K(n))
    s = S('s')

    def ref(n, e):
        if not isinstance(n, tuple):
            return (o, S('mm%d' % n), e)
        r = None
        for x in range(4):
            r = ('if', ('b', 'Eq', n, K(x, 2)), (o, S('mm%d' % x), e), r)
        return r
    real = lambda n, e: (o, M(n), e)
    pr = span(ctx, 9, 'mm') if k in (6, 7) else None
    part = ctx.choose('bit', [True, False]) if k == 6 and pr[0] == pr[1] else False

    def cut(t):
        return ('idx', t, K(pr[1])) if part else ('sel', t, K(pr[1]), K(pr[0]))

    def wp(w, n, e):            # a part of an element
        x = w(n, e)
        return (x[0], cut(x[1]), x[2])
    mk = lambda w: [[w(i, S('d')), w(j, S('a'))], [('if', S('c'), w(i, S('d')), w(j, S('a')))], [w(s, S('d'))],
                    [('if', S('c'), w(s, S('d')), None)], [w(i, S('d')), ('if', S('c'), w(i, S('a')), None)],
                    [('if', S('c'), w(s, S('d')), w(('b', 'Plus', s, K(1, 2)), S('a')))],
                    [wp(w, i, S('d'))] if k == 6 else None,
                    [w(i, S('d')), ('if', S('c'), wp(w, i, S('a')), None)] if k == 7 else None][k]
    body = mk(real)
    names = ('a', 'b', 'c', 'd', 'f', 's')
    src = V.text_module(decls([], 'reg', names) + '  reg [4:0] mm [0:3];\n', '  always %s\n%s' % (
        '@(posedge CLK)' if mode == 'nb' else '@(*)', V.emit_stmt(('seq', body, None))), ports=['CLK'] + list(names))
    ctx.note(src)
    ws = dict({n: W[n] for n in names}, **{'mm%d' % x: 5 for x in range(4)})
    env = {n: V.Val(ctx.sig(n, w)) for n, w in ws.items()}
    want = V.Exec(env, ws, None, None).run(('seq', mk(ref), None))
    fl = call(ctx, lambda: 'analysis of\n%s' % src, V.analyze, src)
    old = [env['mm%d' % x] for x in range(4)]

    def read(ix):
        r = old[3].b
        for x in (2, 1, 0):
            r = z3.If(ix == z3.BitVecVal(x, 32), old[x].b, r)
        return r
    arrays = {'TOP.mm': (read, 5)}
    full = {'TOP.' + n: env[n] for n in names}
    d = V.DFEval(fl, full, arrays=arrays)
    for x in range(4):
        cur = old[x]
        for b in fl.binds['TOP.mm']:
            p = V.Sem(d.env(), None, arrays).ev(V.df2e(b.ptr, None))
            if b.msb is None:
                new = d.tree(b.tree, 5, cur)
            else:
                m, l = V.kint(V.Sem({}).cint(V.df2e(b.msb, None))), V.kint(V.Sem({}).cint(V.df2e(b.lsb, None)))
                if not 0 <= l <= m < 5:
                    ctx.fail(lambda: 'driver of bits %s:%s of an element of 5 bits\n%s' % (m, l, src))
                new = V.overlay(cur, d.tree(b.tree, m - l + 1, V.Sem({}).part(cur, m, l)), l, 5)
            cur = V.vite(V.zext(p.b, 32) == x, new, cur)
        ctx.check(V.same(want['mm%d' % x], cur), lambda: 'drivers of mm[%d]: %s\n%s' % (x, [b.tostr() for b in fl.binds['TOP.mm']], src))
    w = call(ctx, 'constant resolution', V.walker, fl)
    nm = V.name_of(fl, 'TOP.mm')
    for x in range(4):
        t = call(ctx, lambda: 'merging the drivers of mm[%d] in\n%s' % (x, src), w.getTree, nm, target.load().dataflow.DFEvalValue(x))
        if t is None:
            ctx.check(V.same(want['mm%d' % x], old[x]), lambda: 'no merged tree for mm[%d]' % x)
            continue
        if type(t).__name__ == 'DFTerminal' and str(t.name) == 'TOP.mm':
            continue            # written under a computed index: left to the reader of the array
        m = V.DFEval(fl, full, arrays=arrays).tree(t, 5, old[x])
        ctx.check(V.refines(want['mm%d' % x], m), lambda: 'merged tree of mm[%d]: %s\n%s' % (x, t.tostr(), src))


def h_src(ctx, mode):
    """concatenated target assigned from one signal of any declared range (base >= 0, also ascending)"""
    n = ctx.int('n', 1, 8)
    n = E.concretize(n)
    base = ctx.int('base', 0, 3)
    up = ctx.flag('ascending')
    o = '<=' if mode == 'nb' else '='
    rg = ('[%s:%s] ' % ((base, base + n - 1) if up else (base + n - 1, base)))
    src = V.text_module('  input CLK;\n  input %sa;\n  output %s[2:0] q;\n  output %s[3:0] r;\n' % (
        rg, *(('', '') if mode == 'assign' else ('reg ', 'reg '))),
        '  assign {q, r} = a;\n' if mode == 'assign' else '  always %s\n    {q, r} %s a;\n' % ('@(posedge CLK)' if mode == 'nb' else '@(*)', o),
        ports=['CLK', 'a', 'q', 'r'])
    ctx.note(src)
    a = ctx.sig('a', n)
    z = z3.BitVecVal(0, 7)
    env = {'a': V.Val(a)}
    v = V.vext(V.Val(a), 7)
    want = {'r': V.Val(z3.Extract(3, 0, v.b)), 'q': V.Val(z3.Extract(6, 4, v.b))}
    fl = call(ctx, lambda: 'analysis of\n%s' % src, V.analyze, src)
    b = E.concretize(base)
    d = V.DFEval(fl, {'TOP.a': V.Val(a)}, lsbs={'TOP.a': ('up', b + n - 1) if up else b})
    for k in 'qr':
        ctx.check(V.same(want[k], d.driven('TOP.' + k)), lambda: 'driver of %s: %s\n%s' % (k, [x.tostr() for x in fl.binds['TOP.' + k]], src))
