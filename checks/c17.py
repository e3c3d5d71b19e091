"""C17: splitting a tree into cases partitions its behaviour.
Real code: pyverilog/controlflow/splitter.py; in the design jobs also the parser, the analyzer, walker, merge, reorder, replace, optimizer
(VerilogControlflowAnalyzer.makeTree, getFuncdict)."""
import z3
from sx import engine as E, target, vlog as V, dft
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'every tree of up to 5 conditionals over 6 conditions (repeats allowed; comparisons with symbolic constants, logical operators) with holes and repeated leaves; '
             'designs: registers assigned under up to 5 nested or consecutive conditions (if, else-if, case with several labels, casez, conditional expressions, later overrides, '
             'partial drivers, combinational next values), with and without a reset; all constants and signal values symbolic',
    'thorough': 'as quick with trees of up to 6 conditionals and every combination of two design statements'}
OUTSIDE = ('reset branches that contain conditions of their own and resets tested below other conditions (recognition of reset tests is by name: rst, reset); '
           'the obsolete function remove_reset_condition on condition lists that do not come from one tree')
ASSUMPTIONS = []
W = {'p': 3, 'a': 3, 'c': 1, 'e': 1, 'g': 1, 'RST': 1}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for n in range(0, 5 if q else 6):
        for l in range(0, n):
            add('tree-%d-%d' % (n, l), 'h_tree', n=n, left=l)
    add('tree-0', 'h_tree', n=0, left=0)
    add('chain', 'h_chain')
    for f in ('active', 'modify', 'unmodify'):
        for n in (1, 2, 3):
            add('filter-%s-%d' % (f, n), 'h_filter', f=f, n=n)
    for k in range(12):
        for rst in ('none', 'low', 'high'):
            add('design-%d-%s' % (k, rst), 'h_design', k=k, rst=rst)
    add('reset-0', 'h_reset', part=0)
    add('reset-1', 'h_reset', part=1)
    return out


# ---------------------------------------------------------------------------- trees
class T(object):
    """random access to tree shapes: every choice is explored"""

    def __init__(self, ctx, b, holes=2, hi=9):
        self.hi = hi
        self.ctx, self.b, self.n, self.holes = ctx, b, 0, holes
        self.conds = []

    def cond(self):
        b = self.b
        self.n += 1
        i = self.n
        kinds = [lambda: b.op('Eq', b.sig('a'), b.const(0, self.hi)), lambda: b.sig('c'), lambda: b.op('Ulnot', b.op('Land', b.sig('e'), b.sig('g'))),
                 lambda: b.op('LessThan', b.sig('p'), b.sig('a')), lambda: b.sig('g')]
        c = kinds[(i - 1) % 5]()
        if self.conds and len(self.conds) == i - 1 and i > 1 and self.ctx.flag('repeat%d' % i):
            c = self.conds[0]
        self.conds.append(c)
        return c

    def leaf(self):
        b = self.b
        if self.holes and self.ctx.flag('hole%d' % self.holes):
            self.holes -= 1
            return None
        self.n += 0
        self.leaves = getattr(self, 'leaves', 0) + 1
        return [lambda: b.const(0, 7), lambda: b.sig('p'), lambda: b.op('Plus', b.sig('a'), b.ev(1)), lambda: b.ev(0)][self.leaves % 4]()

    def tree(self, n, left=None):
        if n == 0:
            return self.leaf()
        c = self.cond()
        l = left if left is not None else self.ctx.choose('left', list(range(n)))
        if n == 1:
            l = 0
        return self.b.d.DFBranch(c, self.tree(l), self.tree(n - 1 - l))


def regions(b, tree, cond, out):
    """(leaf, condition under which the tree selects it) in order"""
    if isinstance(tree, b.d.DFBranch):
        c = b.truth(tree.condnode)
        regions(b, tree.truenode, z3.And(cond, c), out)
        regions(b, tree.falsenode, z3.And(cond, z3.Not(c)), out)
    elif tree is not None:
        out.append((tree, cond))
    return out


def conj(b, conds):
    return z3.And(*[b.truth(c) for c in conds]) if conds else z3.BoolVal(True)


def judge(ctx, b, tree):
    t = target.load()
    desc = tree.tostr() if tree is not None else 'None'
    what = lambda: 'cases of %s' % desc
    ctx.note(what)
    rs = regions(b, tree, z3.BoolVal(True), [])
    r = call(ctx, what(), t.splitter.split, tree)
    if not isinstance(tree, b.d.DFBranch):
        ctx.check(len(r) == 0, what)
        return r
    items = list(r.items())
    cover = [z3.BoolVal(False)]
    sel = z3.BitVecVal(0, 8)
    for l, c in rs:
        sel = z3.If(c, b.value(l, 8), sel)
    some = z3.Or(z3.BoolVal(False), *[c for _, c in rs])
    for conds, leaf in items:
        ctx.check(isinstance(conds, tuple) and leaf is not None and not isinstance(leaf, b.d.DFBranch), what)
        p = conj(b, conds)
        # a case names its leaf: wherever its conditions hold, the tree selects that leaf
        ctx.check(z3.Implies(p, z3.And(some, b.value(leaf, 8) == sel)), lambda: what() + ': case %s -> %s' % ([c.tostr() for c in conds], leaf.tostr()))
        cover.append(p)
    ctx.check(z3.Or(*cover) == some, lambda: what() + ': together they apply wherever the tree selects a value')
    for i in range(len(items)):
        for j in range(i):
            ctx.check(z3.Not(z3.And(cover[i + 1], cover[j + 1])), lambda: what() + ': two cases apply at once')
    ctx.check((tree.tostr() if tree is not None else 'None') == desc if not ctx.symbolic else True, lambda: what() + ': the tree changed')
    return r


def h_tree(ctx, n, left):
    b = dft.B(ctx, dict(W))
    judge(ctx, b, T(ctx, b, holes=2 if n < 4 else 1, hi=9 if n < 3 else 3 if n == 3 else 1).tree(n, left))


def h_chain(ctx):
    """long else-if chains and deep nests"""
    b = dft.B(ctx, dict(W))
    n = 7
    deep = ctx.choose('deep', ['else', 'then', 'zigzag'])
    tree = ctx.choose('last', [None, b.sig('p')])
    for i in range(n):
        c = b.op('Eq' if i % 3 else 'GreaterThan', b.sig('a'), b.const(0, 9) if i == 3 else b.ev((5 * i) % 8))
        leaf = b.ev(i) if i % 2 else b.op('Plus', b.sig('p'), b.ev(i))
        if deep == 'else' or (deep == 'zigzag' and i % 2):
            tree = b.d.DFBranch(c, leaf, tree)
        else:
            tree = b.d.DFBranch(c, tree, leaf)
    judge(ctx, b, tree)


def h_filter(ctx, f, n):
    b = dft.B(ctx, dict(W))
    t = target.load()
    leaves = [lambda: b.const(0, 5), lambda: b.sig('p'), lambda: b.sig('a'), lambda: b.op('Plus', b.sig('p'), b.ev(1))]

    def tree(m):
        if m == 0:
            return ctx.choose('leaf', leaves)()
        return b.d.DFBranch(b.op('Eq', b.sig('a'), b.const(0, 7)) if m == 1 else b.sig('c') if m == 2 else b.sig('e'), tree(m - 1), ctx.choose('alt', leaves if n < 3 else leaves[:2])())
    tr = tree(n)
    cases = call(ctx, 'split', t.splitter.split, tr)
    fn = {'active': t.splitter.active_constant, 'modify': t.splitter.active_modify, 'unmodify': t.splitter.active_unmodify}[f]
    op, val = '>', 0
    if f == 'active' and n < 3:
        op, val = ctx.choose('op', ['>', '>=', '==', '<', '!=', None]) if n == 1 else '>=', ctx.int('value', 0, 5)
    cmp = {'>': lambda x: x > val, '>=': lambda x: x >= val, '==': lambda x: x == val, '<': lambda x: x < val, '!=': lambda x: x != val}
    what = lambda: 'cases of %s filtered by %s %s %s' % (tr.tostr(), f, op, val)
    ctx.note(what)
    if f == 'active' and op is not None and n < 3:
        r = call(ctx, 'filter', t.splitter.filter, cases, b.name('p'), lambda tn, nd: fn(tn, nd, op, val))
    else:
        op, val = '>', 0
        r = call(ctx, 'filter', t.splitter.filter, cases, b.name('p'), fn)
    for conds, leaf in cases.items():
        kept = conds in r
        isp = isinstance(leaf, b.d.DFTerminal) and str(leaf.name) == 'TOP.p'
        if f == 'modify':
            want = not isp
        elif f == 'unmodify':
            want = isp
        else:
            want = dft.b2z(cmp[op](leaf.value)) if isinstance(leaf, b.d.DFEvalValue) else False
        ctx.check(want == z3.BoolVal(kept) if z3.is_expr(want) else want == kept, lambda: what() + ': %s' % leaf.tostr())
        if kept:
            ctx.check(r[conds] is leaf, what)
    ctx.check(len([c for c in r if c not in cases]) == 0, what)


# ---------------------------------------------------------------------------- designs
def k(ctx, n, hi=7, w=3):
    return K(ctx.int(n, 0, hi), w)


def body(ctx, i):
    a, p, c, e, g = S('a'), S('p'), S('c'), S('e'), S('g')
    eq = lambda x, y: ('b', 'Eq', x, y)
    asg = lambda x: ('<=', p, x)
    k1, k2, k3 = k(ctx, 'k1'), k(ctx, 'k2'), k(ctx, 'k3')
    seq = lambda *s: ('seq', list(s), None)
    return [
        lambda: ('if', eq(a, k1), asg(k2), None),
        lambda: ('if', c, asg(k1), ('if', eq(p, k2), asg(('b', 'Plus', p, a)), ('if', e, asg(k3), None))),
        lambda: ('case', p, [([k1, k2], ('if', c, asg(k3), None)), ([K(5, 3)], asg(a)), (None, asg(p))]),
        lambda: ('case', a, [([k1], asg(k2)), ([k3], ('if', e, asg(a), asg(p)))]),
        lambda: seq(('if', c, asg(k1), None), ('if', e, asg(k2), None)),
        lambda: seq(asg(k1), ('if', c, ('if', e, asg(k2), None), ('if', g, asg(p), None))),
        lambda: asg(('?', ('b', 'LessThan', a, k1), ('?', c, k2, p), ('b', 'Plus', a, k3))),
        lambda: ('if', ('b', 'Land', c, eq(a, k1)), ('if', ('u', 'Ulnot', e), asg(k2), asg(('?', g, p, a))), ('if', ('b', 'Lor', e, g), asg(k3), None)),
        lambda: ('if', c, seq(('<=', ('sel', p, K(2), K(1)), ('sel', a, K(1), K(0))), ('<=', ('idx', p, K(0)), e)), ('<=', p, k1)),
        lambda: ('if', ('?', c, e, eq(a, k1)), asg(k2), asg(('b', 'Minus', p, k3))),
        lambda: ('casez', a, [([('x', 3, '3\'b1?0')], asg(k1)), ([('x', 3, '3\'b??1')], ('if', c, asg(k2), None)), (None, asg(k3))]),
        lambda: ('if', ('b', 'GreaterThan', S('n'), k1), asg(S('n')), ('if', S('m'), asg(k2), None))][i]()


def h_design(ctx, k, rst):
    t = target.load()
    i = k
    st = body(ctx, i)
    kr = globals()['k'](ctx, 'kr')
    full = st
    if rst != 'none':
        test = ('u', 'Ulnot', S('RST')) if rst == 'low' else S('RST')
        full = ('if', test, ('<=', S('p'), kr), st)
    sens = '@(posedge CLK%s)' % {'none': '', 'low': ' or negedge RST', 'high': ' or posedge RST'}[rst]
    comb = ''
    nxt = None
    decl = ''
    if i == 11:
        nxt = ('if', S('c'), ('=', S('n'), ('b', 'Plus', S('p'), K(1, 3))), ('=', S('n'), ('?', S('g'), S('a'), S('p'))))
        decl = '  reg [2:0] n;\n  wire m;\n'
        comb = '\n  always @(*)\n%s\n  assign m = %s;\n' % (V.emit_stmt(nxt), V.emit(('b', 'Land', S('e'), S('c'))))
    ins = ['CLK', 'RST', 'a', 'c', 'e', 'g']
    src = V.text_module('  input CLK, RST, c, e, g;\n  input [2:0] a;\n  output reg [2:0] p;\n' + decl,
                        '  always %s\n%s' % (sens, V.emit_stmt(full)) + comb, ports=ins + ['p'])
    ctx.note(src)
    fl = call(ctx, 'analysis of\n' + src, V.analyze, src)
    o = V.walker(fl).resolver
    env = {n: V.Val(ctx.sig(n, w)) for n, w in W.items()}
    widths = dict(W, n=3, m=1)
    cur = dict(env)
    if nxt:
        cur['n'] = V.Val(z3.BitVecVal(0, 3))
        cur = V.Exec(cur, widths).run(nxt)
        cur['m'] = V.Val(V.Sem(cur).ev(('b', 'Land', S('e'), S('c')), 1).b)
    want = V.Exec(cur, widths).run(full)['p'].b
    with V.quiet():
        an = call(ctx, 'control-flow analysis', t.controlflow_analyzer.VerilogControlflowAnalyzer, 'TOP', fl.terms_raw, fl.binds_raw,
                  o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
        nm = V.name_of(fl, 'TOP.p')
        tree = call(ctx, 'tree of p in\n' + src, an.makeTree, nm)
        cases = call(ctx, 'cases of p in\n' + src, t.splitter.split, tree)
        freed, delay = call(ctx, 'cases of p without reset in\n' + src, an.getFuncdict, nm)
    b = dft.B(ctx, dict(W))
    b.env = {'TOP.' + n: v for n, v in env.items()}
    kn = [('C17-pattern', z3.BoolVal(True))] if i == 10 else None  # x, z, ? digits in a case label
    inactive = z3.BoolVal(True) if rst == 'none' else env['RST'].b == (1 if rst == 'low' else 0)
    for fd, pre, name in ((cases, z3.BoolVal(True), 'cases'), (freed, inactive, 'cases without reset')):
        if not fd:
            ctx.check(fd is cases and not isinstance(tree, t.dataflow.DFBranch), lambda: 'there are no %s of p in\n%s' % (name, src))
            ctx.check(b.value(tree, 3) == want, src)
            continue
        ps = []
        for conds, leaf in fd.items():
            p = z3.And(pre, conj(b, conds))
            ctx.check(z3.Implies(p, b.value(leaf, 3) == want),
                      lambda: '%s: p becomes %s when %s in\n%s' % (name, leaf.tostr(), [c.tostr() for c in conds], src), known=kn)
            ps.append(p)
        ctx.check(z3.Implies(pre, z3.Or(*ps)), lambda: '%s of p cover every situation in\n%s' % (name, src), known=kn)
        for x in range(len(ps)):
            for y in range(x):
                ctx.check(z3.Not(z3.And(ps[x], ps[y])), lambda: 'two %s of p apply at once in\n%s' % (name, src), known=kn)
        ctx.check(delay == 0, src)


def h_reset(ctx, part):
    """removing reset conditions from condition lists: other conditions, their order and the leaves stay"""
    t = target.load()
    b = dft.B(ctx, {'a': 3, 'c': 1, 'RST': 1, 'sys_reset_n': 1, 'rst2': 1, 'xResetX': 1, 'other': 1})
    rname = ctx.choose('reset', ['RST', 'sys_reset_n', 'rst2', 'xResetX'])
    r = ctx.choose('test', [lambda: b.sig(rname), lambda: b.op('Ulnot', b.sig(rname)), lambda: b.op('Eq', b.sig(rname), b.ev(0)), lambda: b.bit(rname, 0)])()
    others = [b.sig('c'), b.op('Eq', b.sig('a'), b.const(0, 7) if not part else b.ev(6)), b.op('Ulnot', b.sig('other'))]
    if part:
        return reset_cases(ctx, t, b, r, others)
    n = ctx.choose('n', [0, 1, 2, 3])
    pos = ctx.choose('pos', list(range(n + 1)))
    twice = ctx.flag('twice')
    conds = others[:n]
    lst = tuple(conds[:pos] + [r] + conds[pos:] + ([b.op('Ulnot', r)] if twice else []))
    got = call(ctx, 'remove_reset_condlist', t.splitter.remove_reset_condlist, lst)
    ctx.check(len(got) == n and all(x is y for x, y in zip(got, conds)), lambda: 'conditions other than reset tests of %s: %s' % (lst, got))


def reset_cases(ctx, t, b, r, others):
    inner = b.d.DFBranch(b.sig('c'), b.const(0, 7), ctx.choose('inner', [lambda: b.sig('a'), lambda: b.d.DFBranch(others[1], b.sig('other'), b.ev(3))])())
    rv = b.ev(5)
    tree = ctx.choose('tree', [lambda: b.d.DFBranch(r, rv, inner), lambda: b.d.DFBranch(r, inner, rv), lambda: inner])()
    fd = call(ctx, 'split', t.splitter.split, tree)
    got = call(ctx, 'remove_reset_condition', t.splitter.remove_reset_condition, fd)
    want = call(ctx, 'split', t.splitter.split, inner)
    ctx.check(len(got) == len(want) and all(c in got and got[c] is f for c, f in want.items()), lambda: 'cases of %s without reset: %s' % (tree.tostr(), got))
    only = call(ctx, 'remove_reset_condition', t.splitter.remove_reset_condition, t.splitter.split(b.d.DFBranch(r, None, b.sig('a'))))
    ctx.check(list(only.keys()) == [()] and str(only[()]) == 'TOP.a', 'the only case is kept')
