"""C07: the dataflow recorded for an always block denotes what executing the block does.
Real code: parser, BindVisitor (statements, makeBind, blocking renaming), visit.Frame/FrameTable, reorder, replace."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'all statement trees with up to 3 assignments (4 for pairs of branching statements, nonblocking) and nesting depth 2 built from sequences, if, if/else and case with up to 2 labels per '
             'item and a default; two 4-bit targets, clocked nonblocking / clocked blocking / combinational blocking / both '
             'in one block; plus longer templates (up to 6 labels, 8 items, 8 else-ifs, 6 levels, 7 writes); every form of expression over a signal assigned before; '
             'for and while loops of 1..4 rounds, alone, under and between conditions; every constant, condition and old value symbolic',
    'thorough': 'as quick with up to 5 assignments (nonblocking) and 4 to 5 (blocking), depth 4, three-item cases'}
OUTSIDE = 'delays, tasks, fork/join, disable; overlapping but different part selects of one signal in one block (see C08)'
ASSUMPTIONS = ['IEEE 1364-2005 procedural semantics as written in sx/vlog.py (Exec); a target no branch assigns keeps its value']

W = {'p': 4, 'q': 4, 'r': 4, 'a': 4, 'd': 4}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    n = 4 if q else 5
    for mode in ('nb', 'clkb', 'comb', 'mix'):
        nn = 3 if q else (5 if mode == 'nb' else 4)
        for f in ('A', 'I', 'IE', 'S', 'C'):
            if q and mode == 'clkb' and f in ('A', 'IE', 'C'):
                continue
            for f2 in ('A', 'I', 'IE', 'C'):
                if f in ('IE', 'C') and f2 in ('IE', 'C') and q:
                    if mode == 'nb':
                        add('%s-%s-%s' % (mode, f, f2), 'h_block', mode=mode, first=f, second=f2, n=4, depth=1)
                    continue
                add('%s-%s-%s' % (mode, f, f2), 'h_block', mode=mode, first=f, second=f2, n=nn, depth=2 if q else 3)
    for mode in ('nb', 'comb'):
        for k in range(6):
            add('case-%s-%d' % (mode, k), 'h_case', mode=mode, k=k)
        for kind in ('casex', 'casez'):
            add('%s-%s' % (kind, mode), 'h_casex', mode=mode, kind=kind)
        add('elsif-%s' % mode, 'h_elsif', mode=mode, n=3 if q else 4)
        add('override-%s' % mode, 'h_override', mode=mode)
        add('condexpr-%s' % mode, 'h_condexpr', mode=mode)
        add('named-%s' % mode, 'h_named', mode=mode)
        for k in range(9):
            add('read-%s-%d' % (mode, k), 'h_read', mode=mode, k=k)
        for k in range(6):
            add('big-%s-%d' % (mode, k), 'h_big', mode=mode, k=k)
    add('swap', 'h_swap')
    for e0 in range(3):
        for w0 in ('plain', 'if', 'ifp'):
            add('chain-%d-%s' % (e0, w0), 'h_chain', n=3 if q else 4, e0=e0, w0=w0)
    for m in ('clkb', 'comb'):
        for k in range(4):
            add('for-%s-%d' % (m, k), 'h_for', mode=m, k=k)
    add('twoblocks', 'h_two')
    heavy = {'I-I': 0, 'C-I': 1, 'I-A': 2, 'C-A': 3}
    return sorted(out, key=lambda j: heavy.get(j['id'][-3:], 9))


def run(ctx, body, mode, targets=('p', 'q'), extra_decl='', widths=None, conds=(), lsbs=None, inputs=('a', 'd'),
        block_extra='', consts=None, known=None):
    ws = dict(W)
    ws.update({c: 1 for c in conds})
    ws.update(widths or {})
    ins = list(inputs) + list(conds)
    decls = '  input CLK;\n' + ''.join('  input %s%s;\n' % (V.rng(ws[n]), n) for n in ins) + \
        ''.join('  output reg %s%s;\n' % (V.rng(ws[n]), n) for n in targets) + extra_decl
    sens = '@(posedge CLK)' if mode in ('nb', 'clkb', 'mix') else '@(*)'
    src = V.text_module(decls, '  always %s\n%s' % (sens, V.emit_stmt(body)) + block_extra, ports=['CLK'] + ins + list(targets))
    ctx.note(src)
    fl = call(ctx, 'analysis of\n%s' % src, V.analyze, src)
    env = {n: V.Val(ctx.sig(n, ws[n])) for n in ins + list(targets)}
    ex = V.Exec(env, ws, lsbs, consts)
    want = ex.run(body)
    compare(ctx, fl, env, want, targets, src, lsbs, known)
    return fl


def compare(ctx, fl, env, want, targets, src, lsbs=None, known=None):
    d = V.DFEval(fl, {'TOP.' + n: v for n, v in env.items()}, lsbs={'TOP.' + k: v for k, v in (lsbs or {}).items()})
    for n in targets:
        bl = fl.binds.get('TOP.' + n)
        if bl is None:
            got = env[n]
        else:
            try:
                got = d.driven('TOP.' + n, old=env[n])
            except V.Unsupported as e:
                ctx.fail('drivers of %s in\n%s\nare not expressions over the signals: %s' % (n, src, e))
        ctx.check(V.same(want[n], got), lambda: 'value of %s from %s is what executing the block leaves\n%s' % (
            n, [b.tostr() for b in bl or []], src), known=known)


class Gen(object):
    def __init__(self, ctx, mode, depth):
        self.ctx, self.mode, self.depth = ctx, mode, depth
        self.nc = 0
        self.wrote = self.tgt = self.same = self.two = self.q = False
        self.dfl = None
        self.conds = []
        self.nk = 0

    def cond(self):
        c = 'c%d' % self.nc
        self.nc += 1
        opts = ['fresh']
        if self.conds and not self.same:
            opts.append('same')
        if self.mode in ('clkb', 'comb') and self.wrote and not self.tgt:
            opts.append('tgt')
        o = self.ctx.choose('cond', opts)
        if o == 'same':
            self.same = True
            return S(self.conds[0])
        if o == 'tgt':
            self.tgt = True
            return ('b', 'Eq', S('p'), K(self.ctx.int('ck%d' % self.nc, 0, 15), 4))
        self.conds.append(c)
        return S(c)

    def assign(self):
        op = '=' if self.mode in ('clkb', 'comb') else '<='
        n = 'p' if self.nk == 0 or (self.q and self.mode != 'mix') or (self.nk == 1 and self.mode == 'clkb') else self.ctx.choose('tgt', ['p', 'q'])
        self.q |= n == 'q'
        if self.mode == 'mix':
            op = '=' if n == 'p' else '<='
        self.nk += 1
        self.wrote |= n == 'p'
        k = K(self.ctx.int('k%d' % self.nk, 0, 15), 4)
        if op == '=':
            rhs = k if self.nk == 1 else ('b', 'Plus', S('p'), S('a'))
            if self.nk == 2:
                rhs = self.ctx.choose('rhs', [k, rhs])
        else:
            rhs = k if self.mode == 'nb' else ('b', 'Plus', S('p'), k)
        return (op, S(n), rhs)

    def stmt(self, n, depth, forms=None):
        """a statement with exactly n assignments"""
        opts = []
        if n == 1:
            opts.append('A')
        if depth > 0:
            opts.append('I')
            if n >= 2:
                opts += ['IE', 'S', 'C']
        if forms:
            opts = [o for o in opts if o in forms]
        if not opts:
            raise E.Infeasible()
        f = self.ctx.choose('form', opts)
        if f == 'A':
            return self.assign()
        if f == 'I':
            c = self.cond()
            return ('if', c, self.blk(n, depth - 1), None)
        if f == 'IE':
            c = self.cond()
            m = self.ctx.choose('split', range(1, n))
            return ('if', c, self.blk(m, depth - 1), self.blk(n - m, depth - 1))
        if f == 'S':
            return self.blk(n, depth)
        m = self.ctx.choose('split', range(1, n))
        two = not self.two and (self.mode != 'nb' or self.ctx.flag('two'))
        self.two = True
        labs = [K(self.ctx.int('l%d' % self.nk, 0, 15), 4)]
        if two:
            labs.append(K(self.ctx.int('m%d' % self.nk, 0, 15), 4))
        b1 = self.blk(m, depth - 1)
        dfl = self.ctx.flag('dfl') if self.mode == 'nb' or self.dfl is None else self.dfl
        self.dfl = not dfl
        b2 = self.blk(n - m, depth - 1)
        return ('case', S('a'), [(labs, b1), (None if dfl else [K(self.ctx.int('n%d' % self.nk, 0, 15), 4)], b2)])

    def blk(self, n, depth):
        if n == 1:
            return self.stmt(1, depth)
        k = self.ctx.choose('blk', ['one', 'two'])
        if k == 'one':
            return self.stmt(n, depth, ('I', 'IE', 'C'))
        m = self.ctx.choose('bsplit', range(1, n))
        return ('seq', [self.stmt(m, depth, ('A', 'I', 'IE', 'C')), self.stmt(n - m, depth, ('A', 'I', 'IE', 'C', 'S'))], None)


def h_block(ctx, mode, first, second, n, depth):
    g = Gen(ctx, mode, depth)
    total = ctx.choose('n', range(1, n + 1))
    if first == 'S':
        if total < 3:
            raise E.Infeasible()
        body = ('seq', [g.stmt(1, depth, ('A',)), g.stmt(1, depth, (second,)) if second in 'AI' else None], None)
        if body[1][1] is None:
            body = ('seq', [body[1][0], g.stmt(total - 1, depth, (second,))], None)
        elif total > 2:
            body = ('seq', body[1] + [g.stmt(total - 2, depth)], None)
    elif total == 1 or ctx.flag('alone'):
        if second != 'A':
            raise E.Infeasible()
        body = g.stmt(total, depth, (first,))
    else:
        m = ctx.choose('top', range(1, total))
        body = ('seq', [g.stmt(m, depth, (first,)), g.stmt(total - m, depth, (second,))], None)
    if body[0] != 'seq':
        body = ('seq', [body], None)
    run(ctx, body, mode, conds=sorted(set(g.conds)))


def ops(mode):
    return '<=' if mode == 'nb' else '='


def h_case(ctx, mode, k):
    o = ops(mode)
    ks = [K(ctx.int('l%d' % i, 0, 15), 4) for i in range(5)]
    v = [(o, S('p'), K(i + 1, 4)) for i in range(4)]
    w = (o, S('q'), S('d'))
    items = [
        [([ks[0]], v[0]), ([ks[1]], v[1]), ([ks[2]], v[2]), (None, v[3])],
        [([ks[0], ks[1]], v[0]), ([ks[2], ks[3], ks[4]], v[1]), (None, v[3])],
        [(None, v[3]), ([ks[0]], v[0]), ([ks[1]], v[1])],
        [([ks[0]], v[0]), (None, v[1]), ([ks[1]], v[2])],
        [([ks[0]], ('seq', [v[0], w], None)), ([S('d')], ('if', S('c0'), v[1], w)), (None, ('null',))],
        [([ks[0]], ('case', S('d'), [([ks[1]], v[0]), (None, v[1])])), ([ks[2]], ('if', S('c0'), v[2], None))]][k]
    body = [('case', ctx.choose('comp', [S('a'), ('b', 'Plus', S('a'), S('d'))]), items)]
    pre = ctx.choose('pre', ['none', 'default', 'after'])
    if pre == 'default':
        body.insert(0, (o, S('p'), K(9, 4)))
    elif pre == 'after':
        body.append(('if', S('c1'), (o, S('p'), S('d')), None))
    run(ctx, ('seq', body, None), mode, conds=['c0', 'c1'])


def h_casex(ctx, mode, kind):
    o = ops(mode)
    ch = 'x' if kind == 'casex' else '?'
    pats = ['1%s%s%s' % (ch, ch, ch), '01%s%s' % (ch, ch), '%s%s10' % (ch, ch), '0011']
    i, j = ctx.choose('i', range(4)), ctx.choose('j', range(4))
    l1 = [('x', 4, "4'b" + pats[i])]
    l2 = [('x', 4, "4'b" + pats[j])]
    if ctx.flag('two'):
        l2.append(('x', 4, "4'b000%s" % ch))
    items = [(l1, (o, S('p'), K(1, 4))), (l2, (o, S('p'), S('d')))]
    if ctx.flag('dfl'):
        items.append((None, (o, S('q'), S('d'))))
    run(ctx, ('seq', [(kind, S('a'), items)], None), mode)


def h_elsif(ctx, mode, n):
    o = ops(mode)
    tail = ctx.choose('tail', [None, 'else'])
    s = (o, S('p'), S('d')) if tail else None
    for i in reversed(range(n)):
        t = ctx.choose('t%d' % i, ['p', 'q', 'both'])
        k = K(ctx.int('k%d' % i, 0, 15), 4)
        b = ('seq', [(o, S('p'), k), (o, S('q'), S('a'))], None) if t == 'both' else (o, S(t), k)
        s = ('if', S('c%d' % i), b, s)
    run(ctx, ('seq', [s], None), mode, conds=['c%d' % i for i in range(n)])


def h_override(ctx, mode):
    """three writes of one target under independent or nested conditions, in every arrangement"""
    o = ops(mode)
    ks = [(o, S('p'), K(ctx.int('k%d' % i, 0, 15), 4)) for i in range(3)]

    def put(i, s):
        f = ctx.choose('f%d' % i, ['plain', 'if', 'else', 'ifif', 'ifelse2', 'case'])
        c, e = S('c%d' % (2 * i)), S('c%d' % (2 * i + 1))
        z = (o, S('q'), K(i, 4))
        return {'plain': s, 'if': ('if', c, s, None), 'else': ('if', c, z, s), 'ifif': ('if', c, ('if', e, s, None), None),
                'ifelse2': ('if', c, z, ('if', e, z, s)),
                'case': ('case', S('a'), [([K(3, 4)], z), ([K(5, 4)], s)])}[f]
    run(ctx, ('seq', [put(i, s) for i, s in enumerate(ks)], None), mode, conds=['c%d' % i for i in range(6)])


def h_condexpr(ctx, mode):
    """conditions that are themselves conditionals or read what the block assigned before"""
    o = ops(mode)
    c = ctx.choose('c', [('?', S('c0'), S('c1'), S('c2')), ('b', 'Land', S('c0'), ('u', 'Ulnot', S('c1'))),
                         ('b', 'LessThan', S('a'), ('?', S('c0'), S('d'), K(7, 4))), S('a')])
    b1, b2 = (o, S('p'), K(ctx.int('k0', 0, 15), 4)), (o, S('p'), S('d'))
    sh = ctx.choose('sh', range(5))
    rd = ('b', 'Plus', S('p'), ('?', c, S('a'), S('d')))
    body = [[('if', c, b1, b2)], [b1, ('if', c, b2, None)], [('if', c, b1, None), (o, S('q'), rd)],
            [('if', c, ('if', S('c3'), b1, b2), (o, S('q'), S('a'))), ('if', c, (o, S('q'), rd), None)],
            [('if', S('c3'), (o, S('q'), rd), None), ('if', c, b1, b2)]][sh]
    run(ctx, ('seq', body, None), mode, conds=['c0', 'c1', 'c2', 'c3'])


def h_read(ctx, mode, k):
    """every form of expression over a signal the block assigned before"""
    P, p10 = S('p'), ('sel', S('p'), K(1), K(0))
    gt = ('b', 'GreaterThan', P, S('d'))
    e = [('?', gt, S('a'), S('d')), ('?', S('c0'), ('?', gt, S('a'), P), ('u', 'Unot', P)), ('cat', [p10, ('idx', S('p'), K(3)), ('idx', S('a'), K(0))]),
         ('idx', S('a'), p10), ('idx', P, ('sel', S('a'), K(2), K(1))), ('idx', P, p10), ('?', P, S('a'), S('d')),
         ('b', 'And', ('u', 'Ulnot', P), ('b', 'Eq', S('d'), P)), ('?', ('?', S('c0'), gt, ('idx', P, K(2))), P, S('d'))][k]
    k0 = K(ctx.int('k0', 0, 15), 4)
    first = ctx.choose('first', [[('=', P, S('d'))], [('=', P, k0), ('if', S('c1'), ('=', P, S('a')), None)],
                                 [('if', S('c1'), ('=', P, ('b', 'Xor', S('a'), S('d'))), ('=', P, k0))], [('if', S('c1'), ('=', P, k0), None)],
                                 [('=', P, k0)]])
    how = ctx.choose('how', ['plain', 'if', 'cond', 'case'])
    w = ('<=' if mode == 'nb' else '=', S('q'), e)
    st = {'plain': w, 'if': ('if', S('c2'), w, None), 'cond': ('if', ('b', 'LessThan', e, S('a')), w, None),
          'case': ('case', e, [([k0], w), (None, (w[0], S('q'), P))])}[how]
    body = first + [st]
    if ctx.flag('later'):
        body.append(('=', P, S('a')))
    run(ctx, ('seq', body, None), 'mix' if mode == 'nb' else mode, conds=['c0', 'c1', 'c2'])


def h_named(ctx, mode):
    """named blocks, with and without a variable of their own"""
    o = ops(mode)
    k = K(ctx.int('k0', 0, 15), 4)
    inner = ('seq', [(o, S('p'), k), ('if', S('c0'), (o, S('q'), S('p')), None)], 'blk_in')
    sh = ctx.choose('sh', range(3))
    body = [('seq', [inner], 'blk'), ('seq', [('if', S('c1'), inner, (o, S('p'), S('a'))), (o, S('q'), ('b', 'Xor', S('p'), S('d')))], 'blk'),
            ('seq', [('seq', [('seq', [(o, S('p'), S('a'))], 'x1'), inner], None)], None)][sh]
    run(ctx, body, mode, conds=['c0', 'c1'])


def h_big(ctx, mode, k):
    """longer constructs: many labels, items, else-ifs, levels, assignments, loops"""
    o = ops(mode)
    z = lambda i: (o, S('pq'[i % 2]), (K(ctx.int('z%d' % i, 0, 15), 4), S('d'), S('a'), ('b', 'Plus', S('p'), K(i, 4)))[i % 4])
    cs = ['c%d' % i for i in range(8)]
    if k == 0:          # item with many labels
        n = ctx.choose('n', [3, 4, 5, 6])
        body = [('case', S('a'), [([K(2, 4)], z(0)), ([K(ctx.int('l%d' % i, 3, 12), 4) for i in range(n)], z(1)), (None, z(2))])]
    elif k == 1:        # many items, default anywhere
        n = ctx.choose('n', [4, 6, 7])
        items = [([K(2 * i, 4), K(2 * i + 1, 4)][:1 + i % 2], z(i)) for i in range(n)]
        d = ctx.choose('d', [None, 0, 3, n])
        if d is not None:
            items.insert(d, (None, z(n)))
        body = [('case', S('a'), items)]
    elif k == 2:        # long else-if
        n = ctx.choose('n', [4, 6, 8])
        s = z(n) if ctx.flag('e') else None
        for i in reversed(range(n)):
            s = ('if', S(cs[i]), z(i), s)
        body = [z(9), s] if ctx.flag('pre') else [s]
    elif k == 3:        # deep nesting
        n = ctx.choose('n', [4, 6])
        s = z(n)
        for i in reversed(range(n)):
            how = ctx.choose('h%d' % i, ['t', 'f']) if i in (1, n - 1) else 'tfbb'[i % 4]
            s = ('if', S(cs[i]), s if how in 'tb' else z(i), s if how == 'f' else z(i) if how == 'b' else None)
        body = [s, ('if', S(cs[7]), z(3), None)]
    elif k == 4:        # long sequence of writes of one target
        n = ctx.choose('n', [5, 7])
        body = []
        for i in range(n):
            w = (o, S('p'), (S('a'), S('d'), K(ctx.int('s%d' % i, 0, 15), 4))[i % 3])
            body.append(('if', S(cs[i]), w, None) if i % 2 == 0 else ('if', S(cs[i]), (o, S('q'), S('p')), w) if i % 3 else w)
    else:               # blocks in blocks, case in else-if in case
        inner = ('case', S('d'), [([K(1, 4), K(2, 4), K(3, 4)], z(1)), (None, ('if', S('c0'), z(2), ('if', S('c1'), z(3), z(4))))])
        s = ('seq', [('seq', [inner, ('if', S('c2'), z(5), None)], None), z(0) if ctx.flag('t') else ('null',)], None)
        body = [('case', S('a'), [([K(4, 4)], s), ([K(5, 4)], ('if', S('c3'), s, None)), (None, z(6))])]
    run(ctx, ('seq', body, None), mode, conds=cs)


def h_swap(ctx):
    mode = ctx.choose('mode', ['nb', 'clkb', 'comb'])
    o = ops(mode)
    e1 = ctx.choose('e1', [S('q'), ('b', 'Plus', S('p'), S('q')), ('cat', [('sel', S('q'), K(1), K(0)), ('sel', S('p'), K(3), K(2))])])
    body = ('seq', [(o, S('p'), e1), (o, S('q'), ('b', 'Minus', S('p'), S('a'))),
                    ('if', ('b', 'LessThan', S('q'), S('p')), (o, S('p'), S('q')), None)], None)
    run(ctx, body, mode)


def h_chain(ctx, n, e0, w0):
    """blocking chain p = f(p) under changing conditions, then a nonblocking use"""
    body = []
    for i in range(n):
        es = [('b', 'Plus', S('p'), S('a')), ('?', S('c%d' % i), S('p'), S('d')), K(ctx.int('k%d' % i, 0, 15), 4)]
        e = ctx.choose('e%d' % i, es[:2] if ctx.tier == 'quick' and i else es) if i else es[e0]
        s = ('=', S('p'), e)
        c = ctx.choose('w%d' % i, ['plain', 'if', 'ifp'][i % 2 if ctx.tier == 'quick' else 0:]) if i else w0
        if c == 'if':
            s = ('if', S('c%d' % i), s, None)
        elif c == 'ifp':
            s = ('if', ('b', 'GreaterThan', S('p'), S('d')), s, ('=', S('p'), S('d')))
        body.append(s)
    body.append(('<=', S('q'), ('b', 'Minus', S('p'), S('a'))))
    run(ctx, ('seq', body, None), 'mix', conds=['c%d' % i for i in range(n)])


def h_for(ctx, mode, k):
    """loops over bits and accumulating, also under and between conditions"""
    top = 2 if k == 3 else 4
    lo, n = ctx.int('lo', 0, min(2, top - 1)), ctx.int('n', 1, top)
    ctx.assume(lo < n)
    i = ('s', 'i')
    form = ctx.choose('form', ['for', 'while'])
    inner = [('=', ('idx', S('p'), i), ('idx', S('a'), i)),
             ('=', S('p'), ('b', 'Plus', S('p'), ('idx', S('a'), i))),
             ('if', ('idx', S('a'), i), ('=', S('p'), ('b', 'Xor', S('p'), S('d'))), None),
             ('if', ('b', 'LessThan', S('p'), S('d')), ('=', S('p'), ('b', 'Plus', S('p'), i)), ('=', S('p'), S('a')))][k]
    loop = (form, 'i', K(lo), ('b', 'LessThan', i, K(n)), ('b', 'Plus', i, K(1)), ('seq', [inner], None))
    body = [('=', S('p'), K(ctx.int('k0', 0, 15), 4))] if k else []
    where = ctx.choose('where', ['alone', 'if', 'else', 'between'])
    loop = ('seq', [loop], None)
    body += {'alone': [loop], 'if': [('if', S('c0'), loop, None)], 'else': [('if', S('c0'), ('=', S('p'), S('d')), loop)] if k else [loop],
             'between': [('if', S('c0'), ('=', S('p'), S('a')), None), loop, ('if', S('c1'), ('=', S('p'), S('d')), None)] if k else [loop]}[where]
    run(ctx, ('seq', body, None), mode, targets=('p',), extra_decl='  integer i;\n', conds=['c0', 'c1'])


def h_two(ctx):
    """two always blocks and an assign reading each other"""
    ws = dict(W, c0=1)
    k = K(ctx.int('k0', 0, 15), 4)
    b1 = ('seq', [('if', S('c0'), ('<=', S('p'), S('q')), ('<=', S('p'), k))], None)
    b2 = ('seq', [('=', S('q'), S('a')), ('if', ('b', 'Eq', S('p'), k), ('=', S('q'), ('b', 'Plus', S('q'), S('d'))), None)], None)
    order = ctx.flag('order')
    t1 = '  always @(posedge CLK)\n%s' % V.emit_stmt(b1)
    t2 = '  always @(*)\n%s' % V.emit_stmt(b2)
    src = V.text_module('  input CLK;\n  input [3:0] a;\n  input [3:0] d;\n  input c0;\n  output reg [3:0] p;\n  output reg [3:0] q;\n',
                        t1 + t2 if order else t2 + t1, ports=['CLK', 'a', 'd', 'c0', 'p', 'q'])
    ctx.note(src)
    fl = call(ctx, 'analysis of\n%s' % src, V.analyze, src)
    env = {n: V.Val(ctx.sig(n, ws[n])) for n in ('a', 'd', 'c0', 'p', 'q')}
    compare(ctx, fl, env, {**env, 'p': V.Exec(env, ws).run(b1)['p'], 'q': V.Exec(env, ws).run(b2)['q']}, ('p', 'q'), src)
