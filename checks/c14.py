"""C14: pulling conditionals to the top of a dataflow tree preserves its value and leaves none below an operator.
Real code: pyverilog/dataflow/reorder.py (reorder, insertBranch, insertUnaryOp, insertOp, insertOpList, insertConcat,
insertPartselect, insertPointer)."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'all unary and binary operators, concatenations of 1..3 items, selects with symbolic constant bounds, bit selects and array '
             'reads, conditionals; in every operand position a signal, constant, conditional, conditional of a conditional, '
             'conditional with a conditional condition, or an operator over a conditional; signals of 4, 3 and 1 bits',
    'thorough': 'as quick, with conditionals below two operators in every combination of operators and concatenations of 4 items'}
OUTSIDE = 'system functions (reordering rejects them), strings and reals; larger trees'
ASSUMPTIONS = ['expression semantics of sx/vlog.py; arms of a conditional in a self-determined position have equal widths '
               '(unequal widths: known finding C14-armwidth)']
W = {'a': 4, 'b': 3, 'c': 1, 'd': 4, 'e': 4, 'f': 1, 'x': 8}
UN = list(V.UOP)
BIN = [o for o in V.BOP if o != 'Power']
KINDS = ('sig', 'br', 'brt', 'brf', 'brbr', 'brc', 'opbr', 'ubr', 'catbr', 'selbr')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for o in BIN:
        add('bin-' + o, 'h_bin', op=o)
        if not q:
            add('deep-' + o, 'h_deep', op=o, ops=BIN)
        elif o in ('Plus', 'Eq', 'Sll', 'Land'):
            add('deep-' + o, 'h_deep', op=o, ops=['Minus', 'LessThan', 'And', 'Srl', 'Lor'])
    add('un', 'h_un')
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for k in KINDS:
            add('cat%d-%s' % (n, k), 'h_cat', n=n, first=k)
    for k in KINDS:
        add('branch-' + k, 'h_branch', cond=k)
    for k in KINDS:
        add('sel-' + k, 'h_sel', k=k)
    add('bit', 'h_bit')
    add('array', 'h_array')
    add('delay', 'h_delay')
    add('hold', 'h_hold')
    add('leaf', 'h_leaf')
    add('insert', 'h_insert')
    add('armwidth', 'h_armwidth')
    return out


class B(object):
    """builds trees; sp: spare condition signals used round robin"""

    def __init__(self, ctx):
        self.ctx = ctx
        t = target.load()
        self.d, self.s, self.r = t.dataflow, t.scope, t.reorder
        self.n = 0
        self.env = {}
        self.arrays = {}
        self.lsbs = {}

    def sig(self, n, w=None):
        w = w or W[n]
        full = 'TOP.' + n
        if full not in self.env:
            self.env[full] = V.Val(self.ctx.sig(n, w))
        return self.d.DFTerminal(self.s.ScopeChain([self.s.ScopeLabel('TOP', 'module'), self.s.ScopeLabel(n, 'signal')]))

    def k(self, w=4):
        self.n += 1
        return self.d.DFIntConst("%d'd%s" % (w, self.ctx.digits(self.ctx.int('k%d' % self.n, 0, (1 << w) - 1))))

    def cond(self):
        self.n += 1
        c = [lambda: self.sig('c'), lambda: self.op('Eq', self.sig('a'), self.k()), lambda: self.sig('f'), lambda: self.sig('b')]
        return c[self.n % 4]()

    def op(self, o, *xs):
        return self.d.DFOperator(tuple(xs), o)

    def br(self, c, t, f):
        return self.d.DFBranch(c, t, f)

    def part(self, v, m, l):
        return self.d.DFPartselect(v, self.d.DFIntConst(str(m)), self.d.DFIntConst(str(l)))

    def val(self, kind):
        """a four-bit operand"""
        br, sig, cond = self.br, self.sig, self.cond
        if kind == 'sig':
            return sig('a')
        if kind == 'br':
            return br(cond(), sig('d'), self.k())
        if kind == 'brt':
            return br(cond(), br(cond(), sig('a'), sig('e')), sig('d'))
        if kind == 'brf':
            return br(cond(), sig('e'), br(cond(), self.k(), sig('a')))
        if kind == 'brbr':
            return br(cond(), br(cond(), sig('a'), sig('d')), br(cond(), sig('e'), self.k()))
        if kind == 'brc':
            return br(br(cond(), cond(), sig('f')), sig('a'), br(br(cond(), sig('c'), cond()), sig('d'), sig('e')))
        if kind == 'opbr':
            return self.op('Plus', br(cond(), sig('a'), sig('d')), br(cond(), sig('e'), self.k()))
        if kind == 'ubr':
            return self.op('Unot', br(cond(), sig('a'), self.k()))
        if kind == 'catbr':
            return self.d.DFConcat((br(cond(), sig('b'), self.k(3)), br(cond(), sig('c'), sig('f'))))
        if kind == 'selbr':
            return self.part(br(cond(), sig('x'), sig('x')), 5, 2)
        raise AssertionError(kind)

    def run(self, tree, what='reorder', f=None, ref=None, w=None, hold=None, known=None, shape=True):
        ctx = self.ctx
        ctx.note('tree', tree.tostr)
        e = V.df2e(tree, None) if ref is None else ref
        before = tree.tostr()
        got = call(ctx, what, f or self.r.reorder, tree)
        ctx.note('reordered', got.tostr)
        ctx.check(tree.tostr() == before, what + ' does not change its operand')

        def sem():
            s = V.Sem(dict(self.env), lsbs=self.lsbs, arrays=self.arrays, hold=hold)
            return s
        s = sem()
        w = w or s.width(e) + 2
        want = V.vext(s.ev(e, w), w)
        try:
            e2 = V.df2e(got, None)
            have = V.vext(sem().ev(e2, w), w)
        except V.Unsupported as ex:
            ctx.fail('%s of %s gives %s, which has no value: %s' % (what, tree.tostr(), got.tostr(), ex))
        ctx.check(V.same(want, have), lambda: '%s of %s keeps the value, gives %s' % (what, tree.tostr(), got.tostr()), known=known)
        ctx.check(V.leaves(tree) == V.leaves(got), lambda: '%s of %s keeps the signals' % (what, tree.tostr()))
        if shape:
            ctx.check(lifted(got), lambda: 'no conditional below another node in %s' % got.tostr())


def lifted(t):
    """conditionals only at the top and in arms"""
    if t is None:
        return True
    if type(t).__name__ == 'DFBranch':
        return flat(t.condnode) and lifted(t.truenode) and lifted(t.falsenode)
    return flat(t)


def flat(t):
    if t is None:
        return True
    if type(t).__name__ == 'DFBranch':
        return False
    return all(flat(x) for x in t.children())


def h_bin(ctx, op):
    b = B(ctx)
    k1, k2 = ctx.choose('k1', KINDS), ctx.choose('k2', KINDS)
    t = b.op(op, b.val(k1), b.val(k2))
    b.run(t)


def h_un(ctx):
    b = B(ctx)
    o, k, o2 = ctx.choose('op', UN), ctx.choose('k', KINDS), ctx.choose('o2', [None] + UN)
    t = b.op(o, b.val(k))
    b.run(b.op(o2, t) if o2 else t)


def h_deep(ctx, op, ops):
    b = B(ctx)
    o2, o3 = ctx.choose('o2', ops), ctx.choose('o3', ops)
    k = ctx.choose('k', ('br', 'brc', 'opbr'))
    sh = ctx.choose('sh', range(4))
    x, y, z = b.val(k), b.val('br'), b.sig('b')
    t = [lambda: b.op(op, b.op(o2, x, z), b.op(o3, y, x)), lambda: b.op(op, z, b.op(o2, y, b.op(o3, z, x))),
         lambda: b.op(op, b.op(o2, b.op(o3, x, y), z), y),
         lambda: b.br(b.op(o2, x, z), b.op(op, y, z), b.op(o3, z, y))][sh]()
    b.run(t, w=None if sh < 3 else 4)


def h_cat(ctx, n, first):
    b = B(ctx)
    ks = [first] + [ctx.choose('k%d' % i, KINDS if n < 3 or ctx.tier != 'quick' else KINDS[:7:2] + ('opbr',)) for i in range(1, n)]
    t = b.d.DFConcat(tuple(b.val(k) for k in ks))
    o = ctx.choose('o', ['plain', 'un', 'bin'] if n < 3 or ctx.tier != 'quick' else ['plain'])
    if o == 'un':
        t = b.op('Uxor', t)
    elif o == 'bin':
        t = b.op('Minus', b.val('br'), t)
    b.run(t)


def h_branch(ctx, cond):
    b = B(ctx)
    k1, k2 = ctx.choose('k1', KINDS), ctx.choose('k2', KINDS)
    t = b.br(b.val(cond), b.val(k1), b.val(k2))
    if ctx.flag('un'):
        t = b.op('Uminus', t)
    b.run(t, w=4)


def bounds(ctx, b, hi):
    m, l = ctx.int('m', 0, hi), ctx.int('l', 0, hi)
    ctx.assume(m >= l)
    return b.d.DFIntConst(ctx.digits(m)), b.d.DFIntConst(ctx.digits(l))


def h_sel(ctx, k):
    """part selects of conditionals (and of nested selects) with symbolic bounds"""
    b = B(ctx)
    m, l = bounds(ctx, b, 3)
    t = b.d.DFPartselect(b.val(k), m, l)
    o = ctx.choose('o', ['plain', 'bin', 'cat', 'nest'])
    if o == 'bin':
        t = b.op('Plus', t, b.val('br'))
    elif o == 'cat':
        t = b.d.DFConcat((t, b.val('br'), t))
    elif o == 'nest':
        t = b.part(t, 0, 0)
    b.run(t)


def h_bit(ctx):
    """bit selects whose index is a conditional or an expression over one"""
    b = B(ctx)
    i = ctx.choose('i', ['br', 'nest', 'opbr', 'brc', 'const'])
    two = lambda: b.sig('g', 2)
    ix = {'br': lambda: b.br(b.cond(), two(), b.k(2)), 'nest': lambda: b.br(b.cond(), b.br(b.cond(), two(), b.k(2)), b.sig('h', 2)),
          'opbr': lambda: b.op('Xor', two(), b.br(b.cond(), b.sig('h', 2), b.k(2))),
          'brc': lambda: b.br(b.br(b.cond(), b.sig('c'), b.sig('f')), two(), b.sig('h', 2)), 'const': lambda: b.k(2)}[i]()
    v = ctx.choose('v', ['sig', 'br', 'opbr', 'brt'])
    import copy
    t = b.d.DFPartselect(b.val(v), ix, copy.deepcopy(ix))
    if ctx.flag('op'):
        t = b.op('And', b.val('brf'), t)
    b.run(t)


def h_array(ctx):
    b = B(ctx)
    f = z3.Function('mem', z3.BitVecSort(32), z3.BitVecSort(4))
    if not ctx.symbolic:
        f = lambda x: ctx.sig('mem%d' % z3.simplify(x).as_long(), 4)
    b.arrays['TOP.m'] = (f, 4)
    b.env['TOP.m'] = V.Val(z3.BitVecVal(0, 4))
    b.sig('c')
    mem = b.d.DFTerminal(b.s.ScopeChain([b.s.ScopeLabel('TOP', 'module'), b.s.ScopeLabel('m', 'signal')]))
    i = ctx.choose('i', KINDS)
    t = b.d.DFPointer(mem, b.val(i))
    o = ctx.choose('o', ['plain', 'part', 'bin', 'twice', 'cat'])
    if o == 'part':
        t = b.part(t, 2, 1)
    elif o == 'bin':
        t = b.op('Times', t, b.val('br'))
    elif o == 'twice':
        t = b.d.DFPointer(mem, t)
    elif o == 'cat':
        t = b.d.DFConcat((b.val('br'), t))
    b.run(t)


def h_delay(ctx):
    b = B(ctx)
    t = b.d.DFDelay(b.val(ctx.choose('k', KINDS)))
    got = call(ctx, 'reorder', b.r.reorder, t)
    if type(got).__name__ != 'DFDelay':
        ctx.fail('a delay stays a delay')
    inner = t.nextnode
    b.run(inner, f=lambda x: b.r.reorder(t).nextnode)


def h_hold(ctx):
    """procedural trees: a missing arm means the previous value and stays a missing arm"""
    b = B(ctx)
    ctx.sig('old', 4)
    k = ctx.choose('k', range(4))
    v = lambda n: b.val(ctx.choose('v%d' % n, KINDS))
    t = [lambda: b.br(b.cond(), v(0), None), lambda: b.br(b.cond(), None, v(0)),
         lambda: b.br(b.cond(), b.br(b.cond(), None, v(0)), v(1)),
         lambda: b.br(b.val('brc'), b.br(b.val('br'), v(0), None), None)][k]()
    b.run(t, hold=V.Val(ctx.sig('old', 4)), w=4)


def h_leaf(ctx):
    b = B(ctx)
    k = ctx.choose('k', range(5))
    t = [lambda: b.d.DFUndefined(4), lambda: b.d.DFHighImpedance(4), lambda: b.d.DFEvalValue(ctx.int('v', 0, 15), 4), lambda: b.k(),
         lambda: b.sig('a')][k]()
    b.run(t)
    b.run(b.br(b.cond(), t, b.val('br')), w=4)
    b.run(b.d.DFConcat((t, b.val('br'))))
    ctx.check(call(ctx, 'reorder', b.r.reorder, None) is None, 'nothing stays nothing')


def h_insert(ctx):
    """the insertion functions called by the analysis, on trees whose operands are already in order"""
    b = B(ctx)
    r = b.r
    ks = ('sig', 'br', 'brt', 'brf', 'brbr')
    x, y, z = [b.val(ctx.choose('x%d' % i, ks)) for i in range(3)]
    f = ctx.choose('f', ['branch', 'un', 'op', 'list', 'cat', 'part'])
    e = V.df2e
    if f == 'branch':
        ref, go, arg = ('?', e(x, 0), e(y, 0), e(z, 0)), lambda t: r.insertBranch(x, y, z), b.br(x, y, z)
    elif f == 'un':
        ref, go, arg = ('u', 'Uand', e(x, 0)), lambda t: r.insertUnaryOp(x, 'Uand'), b.op('Uand', x)
    elif f == 'op':
        ref, go, arg = ('b', 'Minus', e(x, 0), e(y, 0)), lambda t: r.insertOp(x, y, 'Minus'), b.op('Minus', x, y)
    elif f == 'list':
        ref, go, arg = ('b', 'Minus', e(x, 0), e(y, 0)), lambda t: r.insertOpList((x, y), 'Minus'), b.op('Minus', x, y)
    elif f == 'cat':
        ref, go, arg = ('cat', [e(x, 0), e(y, 0), e(z, 0)]), lambda t: r.insertConcat((x, y, z)), b.d.DFConcat((x, y, z))
    else:
        m, l = bounds(ctx, b, 3)
        arg = b.d.DFPartselect(x, m, l)
        ref, go = e(arg, 0), lambda t: r.insertPartselect(x, m, l)
    b.run(arg, 'insertion (%s)' % f, go, ref, w=4 if f == 'branch' else None)


def h_armwidth(ctx):
    """arms of different widths: the narrower one is zero extended"""
    b = B(ctx)
    c = b.br(b.sig('c'), b.sig('a'), b.sig('b'))
    k = ctx.choose('shape', range(5))
    t = [lambda: b.d.DFConcat((b.sig('c'), c)), lambda: b.d.DFConcat((c, b.sig('b'))),
         lambda: b.op('Eq', b.op('Unot', c), b.sig('a')), lambda: b.op('Uand', c), lambda: b.op('Plus', c, b.sig('a'))][k]()
    b.run(t, known=[('C14-armwidth', ctx.sig('c', 1) == 0 if k in (1, 2, 3) else False)])
