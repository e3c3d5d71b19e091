"""C13: the optimizer preserves the value of dataflow trees.
Real code: VerilogOptimizer.optimize / optimizeConstant / optimizeHierarchy / getWidth (pyverilog/dataflow/optimizer.py)."""
from sx import engine as E, target, xint as X
from sx.runner import call

BOUNDS = {
    'quick': 'constant trees of 1 and 2 operators over all operators, values 0..63 (unsized, 4 and 6 bit) and -32..31 (signed); '
             'operator trees over 2 signals of 1 or 4 bits with constants, complements and equality tests, up to 3 levels; '
             'concatenations of 2..3 items (signals of symbolic width 1..4, part selects, constants, undefined, nested, '
             'conditional) with and without a select with symbolic bounds on top; parameters, arrays, conditionals; 2 passes',
    'thorough': 'as quick, with values 0..255, three-operator constant trees, concatenations of up to 4 items with symbolic '
                'widths 1..5, and deeper logical trees'}
OUTSIDE = 'strings, reals, delays; trees in which a bitwise complement is extended to a wider context; larger trees'
ASSUMPTIONS = ['reference semantics of sx/xint.py (IEEE 1364 widths, unsigned values, signed 32-bit for unsized constants)',
               'math.log is modelled by the IEEE double result for powers of two and near misses (sx/engine.py SymLog2)']

UN = ['Uminus', 'Ulnot', 'Unot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor']
BIN = ['Power', 'Times', 'Divide', 'Mod', 'Plus', 'Minus', 'Sll', 'Srl', 'Sra', 'LessThan', 'GreaterThan', 'LessEq',
       'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql', 'And', 'Xor', 'Xnor', 'Or', 'Land', 'Lor']

SMALL = ['Unot', 'Uxor', 'Uxnor', 'Uand', 'Unand', 'Uor', 'Unor']


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for o in UN + BIN:
        for sg in (False, True) if o not in SMALL + ['Xnor'] else (False,):
            add('const1-%s%s' % (o, '-s' if sg else ''), 'h_const1', op=o, sg=sg, hi=63 if q else 255)
        for sg in (False, True) if o not in SMALL + ['Xnor'] else (False,):
            add('const2-%s%s' % (o, '-s' if sg else ''), 'h_const2', op=o, sg=sg, hi=15 if q else 31)
    for o in BIN:
        for wa in (1, 4):
            add('merge-%s-%d' % (o, wa), 'h_merge', op=o, wa=wa)
            add('sigop-%s-%d' % (o, wa), 'h_sigop', op=o, wa=wa)
    for o in ('Land', 'Lor'):
        for o2 in ('Land', 'Lor'):
            for wa in (1, 3):
                for sh in (0, 1):
                    add('logic3-%s-%s-%d-%d' % (o, o2, wa, sh), 'h_logic3', op=o, op2=o2, wa=wa, sh=sh)
        for wa in (3,) if q else (1, 3):
            add('absorb-%s-%d' % (o, wa), 'h_absorb', op=o, wa=wa)
    ks = ('sig', 'part', 'const', 'und', 'nest', 'br', 'op')
    for k in ks:
        for k2 in ks:
            if q and k == k2 == 'nest':
                continue
            add('concat2-%s-%s' % (k, k2), 'h_concat', kinds=[k, k2], mw=(2 if k == k2 == 'nest' else 3) if q else 4)
    ks3 = ('sig', 'part', 'const', 'und', 'br')
    for k in ks3:
        for k2 in ks3:
            add('concat3-%s-%s' % (k, k2), 'h_concat', kinds=[k, k2, None], mw=2 if q else 3)
            if not q:
                add('concat4-%s-%s' % (k, k2), 'h_concat', kinds=[k, k2, None, None], mw=2)
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for ptr in (False, True):
            for k in ('sig', 'part', 'const', 'und', 'br'):
                add('select%d-%s%s' % (n, k, '-bit' if ptr else ''), 'h_select', n=n, ptr=ptr, first=k, mw=3 if n < 3 else 2)
    add('selsig', 'h_selsig')
    add('param', 'h_param')
    add('array', 'h_array')
    add('branch', 'h_branch')
    add('mulpow2', 'h_mulpow2', hi=1 << 16)
    add('mulpow2-big', 'h_mulpow2', hi=(1 << 52) if q else (1 << 60))
    add('catwidth', 'h_catwidth')
    for o in UN + BIN:
        add('width-' + o, 'h_width', op=o)
    return out


class Env(object):
    def __init__(self, ctx, signed=False):
        self.ctx, self.t = ctx, target.load()
        self.d = self.t.dataflow
        self.terms, self.env, self.consts, self.arrays, self.ranges = {}, {}, {}, {}, {}
        self.opt = self.t.optimizer.VerilogOptimizer(self.terms, {})
        self.signed = signed

    def name(self, n):
        s = self.t.scope
        return s.ScopeChain([s.ScopeLabel('top', 'module'), s.ScopeLabel(n, 'signal')])

    def num(self, v):
        return self.d.DFIntConst(self.ctx.digits(v))

    def sig(self, n, w, lsb=0):
        nm = self.name(n)
        if nm not in self.terms:
            self.terms[nm] = self.d.Term(nm, set(['Wire']), self.num(w + lsb - 1), self.num(lsb))
            hi = w.hi if type(w) is E.SymInt else w
            v = self.ctx.int('v_' + n, 0, (1 << hi) - 1)
            if type(w) is E.SymInt:
                self.ctx.assume(v < (1 << w))
            self.env[str(nm)] = (v, w, lsb)
        return self.d.DFTerminal(nm)

    def const(self, v, w=None):
        """literal; w None = unsized, else its size"""
        if w is None:
            return self.d.DFIntConst(self.ctx.digits(v))
        return self.d.DFIntConst(str(w) + "'d" + self.ctx.digits(v))

    def op(self, o, *xs):
        return self.d.DFOperator(tuple(xs), o)

    def run(self, tree, what='optimize', known=None, f=None):
        ctx = self.ctx
        x = X.Exact(self.t, self.env, self.consts, self.arrays, self.signed, self.ranges)
        ref = x.ev(tree)
        side = X.band(*x.side)
        ctx.assume(side)
        ctx.note('tree', tree.tostr)
        r = call(ctx, what, f or self.opt.optimize, tree)
        ctx.note('optimized', r.tostr)
        y = X.Exact(self.t, self.env, self.consts, self.arrays, self.signed, self.ranges)
        got = y.ev(r)
        ctx.check(same(ref, got), what + ' changes the value', known=known(ref, got) if known else None)
        return ref, r, got

    def width(self, tree):
        ref = X.Exact(self.t, self.env, self.consts, self.arrays, self.signed, self.ranges).ev(tree)
        w = call(self.ctx, 'getWidth', self.opt.getWidth, tree)
        self.ctx.check(w == ref.w, 'reported width is not the Verilog width')


def same(ref, got):
    """equal on the bits the reference defines; nothing newly undefined"""
    if type(ref.u) is int and ref.u == 0 and type(got.u) is int and got.u == 0:
        return ref.v == got.v
    m = ref.u
    w = X.imax(ref.w, got.w) + 1
    mask = X.ones(w) ^ (m & X.ones(w))
    return X.band((ref.v & mask) == (got.v & mask), (got.u & mask) == 0)


def rnd(ctx, name, op, pos, sg, hi):
    """a constant value suited to the operator"""
    if op in ('Power',) and pos == 1:
        return ctx.int(name, 0, 4)
    if op in ('Sll', 'Srl', 'Sra') and pos == 1:
        return ctx.int(name, 0, 6)
    if op == 'Power':
        hi = 7
    if sg:
        return ctx.int(name, -(hi // 2) - 1, hi // 2)
    return ctx.int(name, 0, hi)


def cst(e, name, op, pos, sg, hi, w=None):
    v = rnd(e.ctx, name, op, pos, sg, hi if w is None else min(hi, (1 << w) - 1))
    if sg:
        return e.d.DFEvalValue(v)
    return e.const(v, w)


def h_const1(ctx, op, sg, hi):
    e = Env(ctx, sg)
    ws = [None] if sg else [None, 4, 6]
    w0 = ctx.choose('w0', ws)
    if op in UN:
        if w0 is None and op in ('Unot', 'Uxor', 'Uxnor', 'Uand', 'Unand', 'Uor', 'Unor'):
            v = ctx.int('c0', 0, 15)
            if sg:
                v = ctx.int('c0', -8, 7)
            tr = e.op(op, e.d.DFEvalValue(v) if sg else e.const(v))
        else:
            tr = e.op(op, cst(e, 'c0', op, 0, sg, hi, w0))
    else:
        w1 = ctx.choose('w1', ws)
        tr = e.op(op, cst(e, 'c0', op, 0, sg, hi, w0), cst(e, 'c1', op, 1, sg, hi, w1))
    ref, r, got = e.run(tr)
    ctx.check(isinstance(r, e.d.DFEvalValue), 'a constant expression is not evaluated')
    ctx.check(r.width == ref.w, 'width of the evaluated constant')
    e.width(tr)


def h_const2(ctx, op, sg, hi):
    e = Env(ctx, sg)
    op2 = ctx.choose('op2', UN + BIN)
    w = None if sg else ctx.choose('w', [None, 4])
    if w is None and (op in SMALL or op2 in SMALL):
        raise E.Infeasible()     # 32-step loops: covered by const1
    if op2 in UN:
        in_ = e.op(op2, cst(e, 'c1', op2, 0, sg, hi, w))
    else:
        in_ = e.op(op2, cst(e, 'c1', op2, 0, sg, hi, w), cst(e, 'c2', op2, 1, sg, hi, w))
    if op in UN:
        tr = e.op(op, in_)
    else:
        side = ctx.choose('pos', [0, 1])
        if op in ('Power', 'Sll') and side == 1:
            raise E.Infeasible()
        o = cst(e, 'c3', op, 1 - side, sg, hi, w)
        tr = e.op(op, in_, o) if side == 0 else e.op(op, o, in_)
    if op == 'Power' and op2 in ('Power', 'Times', 'Sll'):
        raise E.Infeasible()
    ref, r, got = e.run(tr)
    ctx.check(isinstance(r, e.d.DFEvalValue), 'a constant expression is not evaluated')


def pool(e, wa):
    ctx = e.ctx
    a, b = (lambda: e.sig('a', wa)), (lambda: e.sig('b', wa))
    top = (1 << wa) - 1

    def k(n):
        return e.const(ctx.int(n, 0, top), wa)
    return {
        'a': lambda n: a(), 'b': lambda n: b(), 'k': lambda n: k(n), 'z': lambda n: e.d.DFEvalValue(0, wa),
        'la': lambda n: e.op('Ulnot', a()), 'na': lambda n: e.op('Unot', a()),
        'eak': lambda n: e.op('Eq', a(), k(n)), 'eka': lambda n: e.op('Eq', k(n), a()),
        'leak': lambda n: e.op('Ulnot', e.op('Eq', a(), k(n))), 'leka': lambda n: e.op('Ulnot', e.op('Eq', k(n), a())),
        'lab': lambda n: e.op('Land', a(), b()), 'neab': lambda n: e.op('NotEq', a(), b()),
        'cond': lambda n: e.d.DFBranch(a(), b(), k(n)), 'lb': lambda n: e.op('Ulnot', b()),
        'ab': lambda n: e.op('And', a(), b()), 'rep': lambda n: e.d.DFConcat((a(), b())),
    }


def h_merge(ctx, op, wa):
    e = Env(ctx)
    p = pool(e, wa)
    keys = sorted(p)
    if op not in ('Land', 'Lor', 'And', 'Or'):
        keys = ['a', 'b', 'k', 'na', 'eak', 'lab', 'cond']
    l = ctx.choose('l', keys)
    r = ctx.choose('r', keys)
    if op in ('Power', 'Sll', 'Times') and (l, r) != ('a', 'a') and wa > 1:
        raise E.Infeasible()
    tr = e.op(op, p[l]('k0'), p[r]('k1'))
    e.run(tr)
    e.width(tr)


def h_sigop(ctx, op, wa):
    """operator on signal and constant, constant of equal width, inside other operators"""
    e = Env(ctx)
    a = e.sig('a', wa)
    side = ctx.choose('side', [0, 1])
    k = e.const(ctx.int('k', 0, (1 << wa) - 1 if op != 'Power' else 1), wa)
    if op in ('Power', 'Sll') and side == 1 and wa > 1:
        raise E.Infeasible()
    x = e.op(op, a, k) if side == 0 else e.op(op, k, a)
    wrap = ctx.choose('wrap', ['none', 'Ulnot', 'Land', 'Lor', 'And', 'cond', 'Plus', 'branch'])
    b = e.sig('b', wa)
    if wrap == 'Ulnot':
        x = e.op('Ulnot', x)
    elif wrap == 'cond':
        x = e.d.DFBranch(x, a, b)
    elif wrap == 'branch':
        x = e.d.DFBranch(b, x, a)
    elif wrap != 'none':
        x = e.op(wrap, x, b)
    e.run(x)
    e.width(x)


def h_logic3(ctx, op, op2, wa, sh):
    e = Env(ctx)
    p = pool(e, wa)
    p['c'] = lambda n: e.sig('c', 1)
    keys = ['a', 'b', 'c', 'la', 'lb', 'k', 'eak', 'leak', 'z']
    x, y, z = [p[ctx.choose('x%d' % i, keys)]('k%d' % i) for i in range(3)]
    tr = e.op(op, e.op(op2, x, y), z) if sh == 0 else e.op(op, x, e.op(op2, y, z))
    e.run(tr)


def h_absorb(ctx, op, wa):
    e = Env(ctx)
    p = pool(e, wa)
    keys = ['a', 'b', 'la', 'lb', 'leak', 'eak']
    o = 'Land' if op == 'Lor' else 'Lor'
    x = [p[ctx.choose('x%d' % i, keys)]('k') for i in range(4)]
    e.run(e.op(op, e.op(o, x[0], x[1]), e.op(o, x[2], x[3])))


def item(e, kind, i, mw, depth=0):
    ctx = e.ctx
    n = 's%d' % i
    if kind == 'sig':
        return e.sig(n, ctx.int('w_' + n, 1, mw))
    if kind == 'part':
        # a part select of one common signal, so that neighbours may be adjacent or overlap
        w = mw + 1 if ctx.tier == 'quick' else ctx.int('w_p', 1, mw + 1) if 'w_p' not in e.__dict__ else e.__dict__['w_p']
        e.__dict__['w_p'] = w
        s = e.sig('p', w)
        m, l = ctx.int('m%d' % i, 0, mw), ctx.int('l%d' % i, 0, mw)
        ctx.assume(m < w)
        ctx.assume(l <= m)
        return e.d.DFPartselect(s, e.num(m), e.num(l))
    if kind == 'const':
        w = ctx.int('cw%d' % i, 1, mw)
        v = ctx.int('cv%d' % i, 0, (1 << mw) - 1)
        ctx.assume(v < (1 << w))
        return e.d.DFEvalValue(v, w)
    if kind == 'und':
        return e.d.DFUndefined(ctx.int('uw%d' % i, 1, mw))
    if kind == 'op':
        s = e.sig('q', 2)
        return e.op(ctx.choose('iop%d' % i, ['And', 'Eq', 'LessEq']), s, e.const(ctx.int('ok%d' % i, 0, 3), 2))
    if kind == 'nest':
        ks = ['sig', 'const', 'part'] + (['nest'] if depth == 0 else [])
        return e.d.DFConcat((item(e, ctx.choose('nk%d' % i, ks), 10 * i + 10, mw, depth + 1),
                             item(e, ctx.choose('nl%d' % i, ['sig', 'const']), 10 * i + 11, mw, depth + 1)))
    if kind == 'br':
        c = e.sig(ctx.choose('bc%d' % i, ['c', 'e']), 1)
        w = ctx.int('bw%d' % i, 1, mw)
        return e.d.DFBranch(c, e.sig('x%d' % i, w), e.sig('y%d' % i, w))


def h_concat(ctx, kinds, mw):
    e = Env(ctx)
    ks = ['sig', 'part', 'const', 'und', 'br']
    its = [item(e, k or ctx.choose('kind%d' % i, ks), i, mw) for i, k in enumerate(kinds)]
    tr = e.d.DFConcat(tuple(its))
    e.run(tr)
    e.width(tr)


def h_select(ctx, n, ptr, first, mw):
    e = Env(ctx)
    ks = ['sig', 'const', 'part', 'br']
    its = [item(e, first, 0, mw)]
    for i in range(1, n):
        its.append(item(e, ctx.choose('kind%d' % i, ks if n < 3 else ['sig', 'const']), i, mw))
    tr = e.d.DFConcat(tuple(its))
    m = ctx.int('msb', 0, n * mw)
    if ptr:
        tr = e.d.DFPointer(tr, e.num(m))
        e.run(tr)
        e.run(tr, f=lambda x: e.opt.optimizeHierarchy(e.d.DFPointer(x.var, e.opt.optimizeConstant(x.ptr))))
        return
    l = ctx.int('lsb', 0, n * mw)
    ctx.assume(l <= m)
    tr = e.d.DFPartselect(tr, e.num(m), e.num(l))
    e.run(tr)
    e.width(tr)


def h_selsig(ctx):
    e = Env(ctx)
    w = ctx.int('w', 1, 6)
    a = e.sig('a', w)
    m, l = ctx.int('m', 0, 5), ctx.int('l', 0, 5)
    ctx.assume(m < w)
    ctx.assume(l <= m)
    k = ctx.choose('kind', ['part', 'bit', 'partbit', 'varbit'])
    if k == 'part':
        tr = e.d.DFPartselect(a, e.num(m), e.num(l))
    elif k == 'bit':
        tr = e.d.DFPointer(a, e.num(m))
    elif k == 'varbit':
        i = e.sig('i', 2)
        ctx.assume(w >= 4)
        tr = e.d.DFPointer(a, e.op('And', i, e.const(3, 2)))
    else:
        tr = e.d.DFPartselect(a, e.op('Plus', e.num(l), e.op('Minus', e.num(m), e.num(l))), e.num(l))
    e.run(tr)
    e.width(tr)


RANGES = [(5, 0), (6, 1), (8, 3), (0, 5), (2, 7)]


def h_param(ctx):
    """constants known by name: value, declared width, selects and conditions"""
    e = Env(ctx)
    nm = e.name('P')
    ranged = ctx.choose('range', [None] + RANGES)
    w = 6 if ranged else 32
    hi = 63
    v = ctx.int('P', 0, hi)
    m0, l0 = ranged or (31, 0)
    e.terms[nm] = e.d.Term(nm, set(['Parameter']), e.num(m0) if ranged else None, e.num(l0) if ranged else None)
    e.opt.setConstant(nm, e.d.DFEvalValue(v))
    P = e.d.DFTerminal(nm)
    e.consts[str(nm)] = X.V(v, w)
    if ranged:
        e.ranges[str(nm)] = ranged

    def idx(o):                     # the declared index of a bit
        return l0 - o if m0 < l0 else l0 + o
    k = ctx.choose('use', ['alone', 'plus', 'minus', 'bit', 'part', 'cond', 'cat', 'eqsel', 'partvar', 'bitvar'])
    a, b = e.sig('a', 4), e.sig('b', 4)
    if k == 'alone':
        tr = P
    elif k == 'plus':
        tr = e.op('Plus', P, e.num(ctx.int('k', 0, 15)))
    elif k == 'minus':
        tr = e.op('Minus', P, e.num(1))
    elif k == 'bit':
        tr = e.d.DFPointer(P, e.num(idx(ctx.int('i', 0, 5))))
    elif k == 'part':
        m, l = ctx.int('m', 0, 5), ctx.int('l', 0, 5)
        ctx.assume(l <= m)
        tr = e.d.DFPartselect(P, e.num(idx(m)), e.num(idx(l)))
    elif k == 'partvar':
        # constant selected with a bound that is not a constant
        ctx.assume(v < 4)
        tr = e.d.DFPartselect(P, e.num(3), e.d.DFPointer(e.sig('s', 2), e.num(0)))
    elif k == 'bitvar':
        s = e.sig('s', 2)
        x = e.env[str(e.name('s'))][0]
        ctx.assume((x >= min(m0, l0)) & (x <= max(m0, l0)) if type(x) is not int else min(m0, l0) <= x <= max(m0, l0))
        tr = e.d.DFPointer(P, s)
    elif k == 'cond':
        tr = e.d.DFBranch(e.op(ctx.choose('cmp', ['LessThan', 'GreaterEq', 'Eq', 'LessEq', 'Land']), P, e.num(ctx.int('k', 0, 63))), a, b)
    elif k == 'cat':
        ctx.assume(v < (1 << w))
        tr = e.d.DFConcat((a, P, b))
    else:
        tr = e.op('Eq', a, e.d.DFPartselect(P, e.num(idx(3)), e.num(idx(0))))
    x = X.Exact(e.t, e.env, e.consts)
    if k == 'partvar':
        e.note = None
        ref = None
        r = call(ctx, 'optimize', e.opt.optimize, tr)
        ctx.check(isinstance(r, e.d.DFPartselect), 'a select with a non-constant bound must stay a select')
        return
    e.run(tr)


def h_array(ctx):
    """memories: the first index selects a word, not a bit"""
    e = Env(ctx)
    nm = e.name('mem')
    w = ctx.int('w', 1, 4)
    e.terms[nm] = e.d.Term(nm, set(['Reg']), e.num(w - 1), e.num(0), dims=((e.num(0), e.num(3)),))
    words = [ctx.int('word%d' % i, 0, 15) for i in range(4)]
    for x in words:
        ctx.assume(x < (1 << w))
    f = lambda i: X.ite(i == 0, words[0], X.ite(i == 1, words[1], X.ite(i == 2, words[2], words[3])))
    e.arrays[str(nm)] = (f, w)
    i = ctx.choose('idx', ['const', 'sig', 'expr'])
    ix = {'const': lambda: e.num(ctx.int('i', 0, 3)), 'sig': lambda: e.sig('i', 2),
          'expr': lambda: e.op('Plus', e.num(ctx.int('i', 0, 2)), e.num(1))}[i]()
    tr = e.d.DFPointer(e.d.DFTerminal(nm), ix)
    if ctx.flag('cat'):
        tr = e.d.DFConcat((e.sig('a', 2), tr))
        b = ctx.int('b', 0, 5)
        if ctx.flag('sel'):
            tr = e.d.DFPartselect(tr, e.num(b), e.num(0))
    e.run(tr)
    e.width(tr)


def h_branch(ctx):
    e = Env(ctx)
    a, b, c = e.sig('a', 3), e.sig('b', 3), e.sig('c', 1)
    cond = {'k': lambda: e.const(ctx.int('ck', 0, 3), 2), 'c': lambda: c,
            'eq': lambda: e.op('Eq', e.num(ctx.int('k1', 0, 3)), e.num(ctx.int('k2', 0, 3))),
            'ca': lambda: e.op('Land', c, e.op('Eq', a, a)),
            'un': lambda: e.d.DFUndefined(1)}[ctx.choose('cond', ['k', 'c', 'eq', 'ca', 'un'])]()
    leafs = {'a': lambda: a, 'b': lambda: b, 'k': lambda: e.const(ctx.int('lk', 0, 7), 3), 'u': lambda: e.d.DFUndefined(3),
             'in': lambda: e.d.DFBranch(c, a, b)}
    x = leafs[ctx.choose('x', sorted(leafs))]()
    y = leafs[ctx.choose('y', sorted(leafs))]()
    e.run(e.d.DFBranch(cond, x, y))


def h_mulpow2(ctx, hi):
    """multiplication and division by a constant that may be a power of two"""
    e = Env(ctx)
    n = hi.bit_length() + 2
    a = e.sig('a', n)
    k = e.d.DFEvalValue(ctx.int('k', 0, hi), n)
    o = ctx.choose('op', ['Times', 'TimesR', 'Divide'])
    va = e.env[str(e.name('a'))][0]
    if o != 'Divide':
        ctx.assume(va < 4)
    else:
        ctx.assume(va < hi)
    tr = e.op('Times', k, a) if o == 'TimesR' else e.op(o, a, k)
    x = X.Exact(e.t, e.env)
    if o == 'Divide':
        ctx.assume(k.value > 0)
        r = call(ctx, 'optimize', e.opt.optimize, tr)
        d = e.d
        if r.operator == 'Divide':
            ctx.check(X.band(r.nextnodes[0] == a, r.nextnodes[1].value == k.value), 'division kept unchanged')
        else:
            ctx.check(r.operator in ('Srl', 'Sra') and r.nextnodes[0] == a, 'division becomes a shift')
            ctx.check((1 << r.nextnodes[1].value) == k.value, 'division by 2**n becomes a shift by n')
        return
    e.run(tr)


def h_catwidth(ctx):
    """an operand whose width comes from a dropped constant, inside a concatenation"""
    e = Env(ctx)
    a, b = e.sig('a', 2), e.sig('b', 2)
    k = ctx.choose('k', ['or0', '0or', 'times', 'land', 'br'])
    x = {'or0': lambda: e.op('Or', b, e.const(ctx.int('c', 0, 3), 4)),
         '0or': lambda: e.op('Or', e.const(ctx.int('c', 0, 3), 4), b),
         'times': lambda: e.op('Times', b, e.const(ctx.int('c', 0, 3), 4)),
         'land': lambda: e.op('Land', b, e.const(ctx.int('c', 0, 3), 4)),
         'br': lambda: e.d.DFBranch(e.const(ctx.int('c', 0, 3), 4), e.sig('w4', 4), b)}[k]()
    e.run(e.d.DFConcat((a, x)), known=lambda ref, got: [('C13-concat-dropped-width', got.w < ref.w)])


def h_width(ctx, op):
    """the reported width, operand widths unequal"""
    e = Env(ctx)
    a, b = e.sig('a', ctx.int('wa', 1, 5)), e.sig('b', ctx.int('wb', 1, 5))
    x = e.op(op, a) if op in UN else e.op(op, a, b)
    k = ctx.choose('wrap', ['none', 'cat', 'br', 'plus', 'sys'])
    if k == 'cat':
        x = e.d.DFConcat((x, b))
    elif k == 'br':
        x = e.d.DFBranch(a, x, b)
    elif k == 'plus':
        x = e.op('Plus', x, b)
    elif k == 'sys':
        # a system function yields 32 bits
        w = call(ctx, 'getWidth', e.opt.getWidth, e.d.DFSyscall('random', (x,)))
        ctx.check(w == 32, 'width of a system function')
        return
    e.width(x)
