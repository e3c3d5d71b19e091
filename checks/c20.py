"""C20: the algebra of state conditions and the active conditions built from it.
Real code: pyverilog/controlflow/transition.py (walkCondlist, walkCond, and/or/not of StateNode and StateNodeList, range arithmetic),
pyverilog/controlflow/active_analyzer.py (getActiveConditions), splitter.py (filter)."""
import z3
from sx import engine as E, target, vlog as V, dft
from sx.runner import call
from sx.vlog import K

BOUNDS = {
    'quick': 'lists of up to three conditions; each a comparison of a 3-bit state with a symbolic constant 0..9 on either side, the state itself, '
             'other signals of 1 and 3 bits, their comparisons, bits, reductions, arithmetic, and every combination of two of these by && || & | ^ and !, ~ of them; '
             'chosen combinations of three and four; the range operations on up to three symbolic ranges per node; active conditions of one-hot, '
             'counter and nested designs with symbolic state codes; all values of all signals',
    'thorough': 'as quick with every combination of three conditions and 4-bit states'}
OUTSIDE = 'the obsolete module active_range.py (nothing in the package uses it); conditions on undefined values'
ASSUMPTIONS = ['conditions under which a listed pair is checked: the reset is inactive (reset conditions are removed by design)']
W = {'s': 3, 'a': 3, 'c': 1, 'e': 1}
CMP = ['LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql']
LEAVES = ['s<', 's>', 's<=', 's>=', 's==', 's!=', 'k<s', 'k>=s', 'k!=s', 's', 'a', 'c', 'a==', 'k>a', 's==a', 's[0]', 's+1', '&s', '|s', '^s', '~|s', '-s', '~s', '~c', '1', '0']
FEW = ['s<', 's!=', 'k<s', 'c', 'a==', 's==a']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    add('leaf', 'h_leaf')
    for l in LEAVES:
        add('two-%s' % l, 'h_two', first=l, second=['s>=', 's!=', 'c', 'a', '0'] if q else LEAVES)
    for l in FEW:
        add('three-%s' % l, 'h_three', first=l, rest=['k>=s', 'c'] if q else FEW, q=q)
        add('list3-%s' % l, 'h_list', first=l, n=3, rest=['s!=', 'c'] if q else FEW, q=q)
    for l in ('s<', 's!=', 'c'):
        for op in ('Land', 'Lor'):
            add('four-%s-%s' % (l, op), 'h_four', first=l, op=op, rest=['s>=', 'c'] if q else ['s>=', 'c', 's!='], q=q)
        add('list4-%s' % l, 'h_list', first=l, n=4, rest=['s>=', 'e'] if q else ['s>=', 'e', '!!'], q=q)
    for na in range(0, 3 if q else 4):
        for nb in range(0, 3 if q else 4):
            add('ranges-%d-%d' % (na, nb), 'h_ranges', na=na, nb=nb, q=q)
    for k in range(9):
        add('nodes-%d' % k, 'h_nodes', k=k, q=q)
    for k in range(10):
        add('active-%d' % k, 'h_active', k=k)
    return out


def build(ctx):
    return dft.B(ctx, dict(W))


def leaf(b, kind):
    s, a = b.sig('s'), b.sig('a')
    k = lambda: b.const(0, 9)
    m = {'<': 'LessThan', '>': 'GreaterThan', '<=': 'LessEq', '>=': 'GreaterEq', '==': 'Eq', '!=': 'NotEq'}
    if kind == 's==a':
        return b.op('Eq', s, a)
    if kind == 's[0]':
        return b.bit('s', 0)
    if kind == 's+1':
        return b.op('Plus', s, b.ev(1))
    if kind in 'sace':
        return b.sig(kind)
    if kind in '10':
        return b.ev(int(kind))
    if kind == '~c':
        return b.op('Unot', b.sig('c'))
    if kind == '!!':
        return b.op('Ulnot', b.op('Lor', b.op('Eq', s, k()), b.sig('c')))
    u = {'&s': 'Uand', '|s': 'Uor', '^s': 'Uxor', '~|s': 'Unor', '-s': 'Uminus', '~s': 'Unot'}
    if kind in u:
        return b.op(u[kind], s)
    if kind[0] == 'k':
        return b.op(m[kind[1:-1]], k(), b.sig(kind[-1]))
    return b.op(m[kind[1:]], b.sig(kind[0]), k())


def wrap(ctx, b, t, i=''):
    w = ctx.choose('wrap' + i, ['', '!', '~', '!!', '|'])
    for o in {'': [], '!': ['Ulnot'], '~': ['Unot'], '!!': ['Ulnot', 'Ulnot'], '|': ['Uor']}[w]:
        t = b.op(o, t)
    return t


def judge(ctx, b, conds, w=3):
    t = target.load()
    what = lambda: 'states and condition of [%s]' % ', '.join(c.tostr() for c in conds)
    ctx.note(what)
    before = [c.tostr() for c in conds] if not ctx.symbolic else None
    want = z3.And(*[b.truth(c) for c in conds]) if conds else z3.BoolVal(True)
    node = call(ctx, 'walkCondlist', t.transition.walkCondlist, tuple(conds), b.name('s'), w)
    v = dft.num(b.val('s'))
    ctx.check(dft.node_pred(b, node, v) == want, what)
    for n in (node.nodelist if isinstance(node, t.transition.StateNodeList) else [node] if node else []):
        ctx.check(isinstance(n.isany, bool) and not (n.isany and len(n.range_pairs)), lambda: what() + ': shape of %r' % n)
    ctx.check(z3.And(*[b.truth(c) for c in conds]) == want if conds else True, lambda: what() + ': the conditions themselves are unchanged')
    return node


def h_leaf(ctx):
    b = build(ctx)
    t = leaf(b, ctx.choose('leaf', LEAVES))
    judge(ctx, b, [wrap(ctx, b, t)])
    judge(ctx, b, [])


def combine(ctx, b, x, y, i=''):
    return b.op(ctx.choose('op' + i, ['Land', 'Lor', 'And', 'Or', 'Xor']), *((x, y) if ctx.flag('order' + i) else (y, x)))


def h_two(ctx, first, second):
    b = build(ctx)
    x = leaf(b, first)
    y = leaf(b, ctx.choose('second', second))
    judge(ctx, b, [wrap(ctx, b, combine(ctx, b, x, y))])


def h_three(ctx, first, rest, q):
    b = build(ctx)
    x = leaf(b, first)
    y, z = leaf(b, ctx.choose('second', rest)), leaf(b, ctx.choose('third', rest))
    o1, o2 = ctx.choose('ops', [(p, r) for p in (('Land', 'Lor') if q else ('Land', 'Lor', 'And')) for r in ("Land", "Lor")])
    t = b.op(o1, x, y)
    t = ctx.choose('inner', [t, b.op('Ulnot', t)])
    t = b.op(o2, t, z)
    judge(ctx, b, [t if q else ctx.choose('outer', [t, b.op('Ulnot', t)])])


def h_four(ctx, first, op, rest, q):
    """two combined conditions combined again"""
    b = build(ctx)
    x = b.op(op, leaf(b, first), leaf(b, ctx.choose('l2', rest)))
    o = ctx.choose('o', ['Land', 'Lor'])
    y = b.op(o, leaf(b, ctx.choose('l3', rest)), leaf(b, 'k!=s' if q else ctx.choose('l4', rest)))
    if not q and ctx.flag('not left'):
        x = b.op('Ulnot', x)
    if ctx.flag('not right'):
        y = b.op('Ulnot', y)
    judge(ctx, b, [b.op(ctx.choose('mid', ['Land', 'Lor']), x, y)])


def h_list(ctx, first, n, rest, q):
    b = build(ctx)
    cs = [leaf(b, first)] + [leaf(b, ctx.choose('c%d' % i, rest)) for i in range(1, n)]
    neg = ctx.choose('negated', [(), (0, n - 1)] if q else [(), (0,), (1,), (0, n - 1)])
    judge(ctx, b, [b.op('Ulnot', c) if i in neg else c for i, c in enumerate(cs)])


# ---------------------------------------------------------------------------- the operations on nodes
def pairs(ctx, nm, n, maxv):
    """n disjoint ascending ranges in any list order"""
    out, last = [], -1
    for i in range(n):
        lo, hi = ctx.int('%slo%d' % (nm, i), 0, maxv), ctx.int('%shi%d' % (nm, i), 0, maxv)
        ctx.assume(dft.b2z(lo > last))
        ctx.assume(dft.b2z(lo <= hi))
        out.append((lo, hi))
        last = hi
    if n > 1 and not (ctx.tier == 'quick' and nm == 'b') and ctx.flag(nm + ' reversed'):
        out.reverse()
    return tuple(out)


def snap(n, v, b):
    return dft.node_pred(b, n, v)


def h_ranges(ctx, na, nb, q):
    t = target.load().transition
    b = build(ctx)
    maxv = 7
    v = dft.num(b.val('s'))
    c, e = b.sig('c'), b.sig('e')
    full = [(x, y) for x in (None, c, b.op('Ulnot', c)) for y in (None, e, b.op('Ulnot', e), b.op('Ulnot', c))]
    ca, cb = ctx.choose('conditions', full if not q or na + nb < 3 else [(None, e), (c, e)])
    A = t.StateNode(pairs(ctx, 'a', na, maxv), 0, maxv, ca)
    B_ = t.StateNode(pairs(ctx, 'b', nb, maxv), 0, maxv, cb)
    ops(ctx, t, b, v, A, B_, q and na + nb > 2)


def ops(ctx, t, b, v, A, B_, q):
    what = lambda o: (lambda: '%s of %r and %r' % (o, A, B_))
    pa, pb = snap(A, v, b), snap(B_, v, b)
    for o, f, want in [ctx.choose('operation', [('and', lambda: t.andStateNodeList(A, B_), z3.And(pa, pb)), ('or', lambda: t.orStateNodeList(A, B_), z3.Or(pa, pb)),
                       ('not', lambda: t.notStateNodeList(A), z3.Not(pa)), ('and (swapped)', lambda: t.andStateNodeList(B_, A), z3.And(pa, pb)),
                       ('not not', lambda: t.notStateNodeList(t.notStateNodeList(A)), pa),
                       ('not of the and', lambda: t.notStateNodeList(t.andStateNodeList(A, B_)), z3.Not(z3.And(pa, pb))),
                       ('not of the or', lambda: t.notStateNodeList(t.orStateNodeList(A, B_)), z3.Not(z3.Or(pa, pb)))][:3 if q else None])]:
        r = call(ctx, what(o), f)
        ctx.check(snap(r, v, b) == want, what(o))
        ctx.check(z3.And(snap(A, v, b) == pa, snap(B_, v, b) == pb), lambda: what(o)() + ': an operand changed')


def h_nodes(ctx, k, q):
    """lists of nodes, nodes for every state, empty nodes"""
    t = target.load().transition
    b = build(ctx)
    v = dft.num(b.val('s'))
    mx = 7
    node = lambda n, c=None, i='': t.StateNode(pairs(ctx, 'x' + i, n, mx), 0, mx, c)
    anyn = lambda c: t.StateNode(maxvalue=mx, transcond=c, isany=True)
    c, e, a = b.sig('c'), b.sig('e'), leaf(b, 'a==')
    A, B_ = [
        lambda: (anyn(c), node(2)), lambda: (anyn(None), node(1, e)), lambda: (node(0), anyn(c)), lambda: (anyn(c), anyn(b.op('Ulnot', e))),
        lambda: (t.StateNodeList((node(1, c, 'p'), node(1, None, 'q'))), node(1, e, 'r')),
        lambda: (node(1, e), t.StateNodeList((anyn(c), node(1, None, 'q')))),
        lambda: (t.StateNodeList((node(1, c, 'p'), anyn(e))), t.StateNodeList((node(1, None, 'q'), anyn(a)))),
        lambda: (t.StateNodeList((anyn(c), anyn(e), node(1))), anyn(a)),
        lambda: (t.StateNodeList((node(1, None, 'p'), node(1, None, 'q'), node(1, c, 'r'))), t.StateNodeList((node(0), node(1, e, 'u'))))][k]()
    ops(ctx, t, b, v, A, B_, q and k in (4, 8))


# ---------------------------------------------------------------------------- active conditions of a design
def h_active(ctx, k):
    t = target.load()
    ks = [ctx.int('k%d' % i, 0, 3 if i < 2 or ctx.tier != 'quick' else 1) for i in range(3)]
    vs = [ctx.int('v%d' % i, 0, 1 if i else 2) for i in range(2)]
    L = [V.emit(K(x, 2)) for x in ks]
    M = [V.emit(K(x, 2)) for x in vs]
    ns = ('if(!RST) state <= 0; else case(state) 0: if(c) state <= 1; 1: state <= %s; default: state <= 0; endcase' % L[2],
          'if(!RST) state <= 3; else if(state == 2) state <= 1; else if(c) state <= state + 1;')
    out = [
        'case(state) %s: if(c) o <= %s; %s: o <= %s; endcase' % (L[0], M[0], L[1], M[1]),
        'if(state == %s) o <= %s; else if(state > %s && c) o <= %s;' % (L[0], M[0], L[1], M[1]),
        'if(state != %s) begin if(a == 1) o <= %s; else o <= a; end else if(state == %s) o <= %s;' % (L[0], M[0], L[1], M[1]),
        'if(!RST) o <= 0; else begin if(state == %s || state == %s) o <= %s; else if(c) o <= o; else if(state < 3) o <= %s; end' % (L[0], L[1], M[0], M[1]),
        'if(state == %s) if(c) o <= %s; else o <= %s; else if(state >= %s && !(a == 2)) o <= c ? a : %s;' % (L[0], M[0], M[1], L[1], M[0]),
        'o <= 0; if(state == %s && state == %s) o <= %s; if(state == %s) o <= %s;' % (L[0], L[1], M[0], L[1], M[1]),
        'if(c & (state == %s)) o <= %s; else if(!(state <= %s) & (a != %s)) o <= %s;' % (L[0], M[0], L[1], L[2], M[1]),
        'if(!RST) o <= %s; else o <= %s;' % (M[0], M[1]),
        'if(!RST) o <= %s; else if(state == %s) o <= %s; else o <= 0;' % (M[0], L[0], M[1]),
        'if(!RST) o <= %s; else if(c) o <= %s; else o <= a;' % (M[0], M[1])][k]
    always = {0: None}
    text = ('module TOP(input CLK, input RST, input c, input [1:0] a, output reg [1:0] o);\nreg [1:0] state;\n'
            'always @(posedge CLK or negedge RST) begin\n%s\nend\nalways @(posedge CLK or negedge RST) begin\n%s\nend\nendmodule\n') % (ctx.choose('next', ns), out)
    ctx.note(text)
    fl = call(ctx, 'analysis of\n' + text, V.analyze, text)
    o = V.walker(fl).resolver
    with V.quiet():
        an = call(ctx, 'active analysis of\n' + text, t.active_analyzer.VerilogActiveConditionAnalyzer, 'TOP', fl.terms_raw, fl.binds_raw,
                  o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        which = ctx.choose('which', ['active', 'modify', 'unmodify'])
        f = {'active': t.splitter.active_constant, 'modify': t.splitter.active_modify, 'unmodify': t.splitter.active_unmodify}[which]
        r = call(ctx, 'active conditions of o in\n' + text, an.getActiveConditions, V.name_of(fl, 'TOP.o'), f)
    env = {'TOP.' + n: V.Val(ctx.sig(n, w)) for n, w in (('c', 1), ('a', 2), ('o', 2), ('state', 2))}
    env['TOP.RST'] = V.Val(z3.BitVecVal(1, 1))
    b = dft.B(ctx, {'c': 1, 'a': 2, 'o': 2, 'state': 2})
    b.env = env
    # what the code does, read off the recorded dataflow of o: leaf by leaf
    def active(tree):
        if isinstance(tree, t.dataflow.DFBranch):
            c = b.truth(tree.condnode)
            return z3.If(c, active(tree.truenode), active(tree.falsenode))
        if tree is None:
            return z3.BoolVal(which == 'unmodify')
        self_ = isinstance(tree, t.dataflow.DFTerminal) and str(tree.name) == 'TOP.o'
        if which == 'active':
            e = V.df2e(tree, None)
            if e[0] != 'k':
                return z3.BoolVal(False)
            return dft.b2z(e[1] > 0)
        return z3.BoolVal(self_ == (which == 'unmodify'))
    tree = fl.binds['TOP.o'][-1].tree
    if k == 4:
        tree = t.reorder.reorder(tree)
    if len(fl.binds['TOP.o']) > 1:
        tree = an.getTree(V.name_of(fl, 'TOP.o'))
        tree = an.treewalker.walkTree(tree)
        tree = t.reorder.reorder(tree)
    want = active(tree)
    for sig, lst in r.items():
        for state, cond in lst:
            if state == 'any':
                ctx.check(want, 'o is active in every state in\n' + text)
                continue
            nm = str(sig)
            w = 2
            p = V.Val(env[nm].b).b == z3.BitVecVal(0, w) + (z3.BitVecVal(int(state), w))
            if cond is not None:
                p = z3.And(p, b.truth(cond))
            ctx.check(z3.Implies(p, want), lambda: 'o is %s when %s == %s and %s in\n%s' % (which, nm, state, cond and cond.tostr(), text))
