"""C25: the graph drawn for a dataflow tree has exactly its nodes and relations.
Real code: pyverilog/dataflow/graphgen.py (and, in the design jobs, the walker, optimizer and replacement it calls).
pygraphviz is not installed: a recording stand-in (sx/pgv.py) keeps nodes and edges the way pygraphviz does (strict graphs merge parallel edges)."""
import itertools
import z3
from sx import engine as E, target, vlog as V, symstr as S
from sx.runner import call
from c22 import ident, same_name, zb

BOUNDS = {
    'quick': 'trees with every node kind below every node kind (every operand place), up to 5 leaves; terminals with one symbolic character in one or two name parts, constants symbolic; '
             'shared and separate terminals; two trees in one graph; stated designs with symbolic select bounds and constants, walking 0..3 steps, with and without reordering',
    'thorough': 'as quick with a third kind below'}
OUTSIDE = "drawing itself (layout, colours); signals whose name contains '_graphrename_'; order of the edges"
ASSUMPTIONS = ['pygraphviz keeps nodes by name, merges parallel edges only in strict graphs, and shows the name of a node without a label']
KINDS = ['term', 'const', 'intconst', 'floatconst', 'str', 'undef', 'hiz', 'unary', 'binary', 'ps', 'ptr', 'concat1', 'concat3', 'branch', 'branch-t', 'branch-f', 'delay', 'syscall']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    out = []
    for k in KINDS:
        for same in (False, True):
            out.append(dict(id='tree-%s-%d' % (k, same), h='h_tree', p=dict(kind=k, same=same), max_paths=20000))
    out.append(dict(id='two', h='h_two', p={}))
    for i in range(len(DESIGNS)):
        for same in (False, True):
            out.append(dict(id='design-%d-%d' % (i, same), h='h_design', p=dict(i=i, same=same)))
    return out


class Make(object):
    def __init__(self, ctx):
        self.ctx, self.t, self.n = ctx, target.load(), 0
        self.d, self.s = self.t.dataflow, self.t.scope
        self.shared = None

    def name(self):
        s, ctx = self.s, self.ctx
        self.n += 1
        parts = ctx.choose('parts%d' % self.n, [1, 2]) if self.n <= 2 else 1
        ls = [s.ScopeLabel('T', 'module')]
        if parts == 2:
            ls.append(s.ScopeLabel(ident(ctx, 'm%d' % self.n, 1), 'module'))
        # a_b in one part looks like a and b in two
        ls.append(s.ScopeLabel(ident(ctx, 'n%d' % self.n, 3 if self.n == 2 and parts == 1 else 1), 'signal'))
        return s.ScopeChain(ls)

    def leaf(self):
        return self.d.DFTerminal(self.name())

    def node(self, kind, sub):
        d, ctx = self.d, self.ctx
        self.n += 1
        i = self.n
        if kind == 'term':
            return self.leaf()
        if kind == 'const':
            return d.DFEvalValue(ctx.int('c%d' % i, -4, 20), ctx.choose('w%d' % i, [32, 4]))
        if kind == 'intconst':
            return d.DFIntConst(ctx.num2str(ctx.int('c%d' % i, 0, 20)))
        if kind == 'floatconst':
            return d.DFFloatConst('1.5')
        if kind == 'str':
            return d.DFStringConst('txt')
        if kind == 'undef':
            return d.DFUndefined(ctx.int('w%d' % i, 1, 40))
        if kind == 'hiz':
            return d.DFHighImpedance(ctx.int('w%d' % i, 1, 40))
        if kind == 'unary':
            return d.DFOperator((sub(),), 'Ulnot')
        if kind == 'binary':
            return d.DFOperator((sub(), sub()), 'Minus')
        if kind == 'ps':
            return d.DFPartselect(sub(), sub(), sub())
        if kind == 'ptr':
            return d.DFPointer(sub(), sub())
        if kind == 'concat1':
            return d.DFConcat((sub(),))
        if kind == 'concat3':
            return d.DFConcat((sub(), sub(), sub()))
        if kind == 'branch':
            return d.DFBranch(sub(), sub(), sub())
        if kind == 'branch-t':
            return d.DFBranch(sub(), sub(), None)
        if kind == 'branch-f':
            return d.DFBranch(sub(), None, sub())
        if kind == 'delay':
            return d.DFDelay(sub())
        if kind == 'syscall':
            return d.DFSyscall('signed', (sub(),))


def relations(tree):
    """(edge label, child) of a node: the fields of its class"""
    n = type(tree).__name__
    g = lambda *fs: [(l, getattr(tree, f)) for l, f in fs if getattr(tree, f) is not None]
    if n in ('DFOperator', 'DFConcat', 'DFSyscall'):
        return [(None, c) for c in tree.nextnodes]
    if n == 'DFPartselect':
        return g(('VAR', 'var'), ('MSB', 'msb'), ('LSB', 'lsb'))
    if n == 'DFPointer':
        return g(('VAR', 'var'), ('PTR', 'ptr'))
    if n == 'DFBranch':
        return g(('COND', 'condnode'), ('TRUE', 'truenode'), ('FALSE', 'falsenode'))
    if n == 'DFDelay':
        return g((None, 'nextnode'))
    return []


def label_ok(ctx, shown, tree):
    """z3: the text shown for a node tells what it is"""
    n = type(tree).__name__
    if n == 'DFOperator':
        return same_name(shown, tree.operator)
    if n == 'DFTerminal':
        return same_name(shown, flat(tree.name))
    if n in ('DFIntConst', 'DFFloatConst', 'DFStringConst'):
        return same_name(shown, tree.value)
    if n == 'DFEvalValue':
        # the sign of the value is decided by the run
        w = '' if tree.width == 32 else '%d' % tree.width
        if bool(tree.value < 0):
            return number(ctx, shown, "(-" + w + "'d", -tree.value, ")")
        return number(ctx, shown, w + "'d", tree.value, '')
    if n in ('DFUndefined', 'DFHighImpedance'):
        c = "'dx" if n == 'DFUndefined' else "'dz"
        if bool(tree.width == 32):
            return same_name(shown, c)
        return number(ctx, shown, '', tree.width, c)
    return same_name(shown, n[2:] if n != 'DFPartselect' else 'PartSelect')


def number(ctx, shown, before, v, after):
    """z3: the text is a number between two texts"""
    if not (isinstance(shown, str) and shown.startswith(before) and shown.endswith(after)):
        return z3.BoolVal(False)
    shown = shown[len(before):len(shown) - len(after)]
    if not shown.isdigit():
        return z3.BoolVal(False)
    got = ctx.str2num(shown) if ctx.symbolic else int(shown)
    return zb((int(shown) if got is None else got) == v)


def show(x):
    return x if isinstance(x, str) else repr(x)


def flat(name):
    out = ''
    for i, l in enumerate(name.scopechain):
        out = out + ('_' if i else '') + l.scopename
    return out


def kids(g, node):
    return [e for e in g.edge_list if e[0] is node]


def match(ctx, g, node, tree, same):
    """z3: what hangs below the graph node is the tree"""
    shown = node[1].get('label', node[0])
    out = [label_ok(ctx, shown, tree)]
    rel, es = relations(tree), kids(g, node)
    if len(rel) != len(es):
        return z3.BoolVal(False)
    alts = []
    for perm in itertools.permutations(range(len(es))):
        if all(es[j][2].get('label') == rel[i][0] for i, j in enumerate(perm)):
            alts.append(z3.And(*[match(ctx, g, es[j][1], rel[i][1], same) for i, j in enumerate(perm)]))
    return z3.And(*(out + [z3.Or(*alts) if alts else z3.BoolVal(False)]))


def describe(tree):
    return type(tree).__name__ + (repr([l.scopename for l in tree.name.scopechain]) if type(tree).__name__ == 'DFTerminal' else '(%s)' % ', '.join(describe(c) for _, c in relations(tree)))


def count(tree):
    return 1 + sum(count(c) for _, c in relations(tree))


def terms(tree, acc):
    if type(tree).__name__ == 'DFTerminal':
        acc.append(tree)
    for _, c in relations(tree):
        terms(c, acc)
    return acc


def namez(a, b):
    if len(a.scopechain) != len(b.scopechain):
        return z3.BoolVal(False)
    return z3.And(*[same_name(x.scopename, y.scopename) for x, y in zip(a.scopechain, b.scopechain)])


def judge(ctx, g, trees, roots, same, what):
    """trees: with the label of their root nodes"""
    edges = sum(count(t) for t in trees)   # one to every node, from its parent or the root
    ts = [x for t in trees for x in terms(t, [])]
    total = sum(count(t) for t in trees) + len(trees)
    n = z3.BitVecVal(total if same else total - len(ts), 8)
    if not same:
        for i, x in enumerate(ts):
            n = n + z3.If(z3.Or(*[namez(x.name, y.name) for y in ts[:i]]) if i else z3.BoolVal(False), z3.BitVecVal(0, 8), z3.BitVecVal(1, 8))
    text = lambda: '%s: nodes %s, edges %s' % (what(), [(show(x[0]), show(x[1].get('label', ''))) for x in g.node_list],
                                                   [(show(e[0][0]), show(e[1][0]), e[2].get('label')) for e in g.edge_list])
    ctx.check(len(g.edge_list) == edges, lambda: 'the graph has %d edges for %d relations; %s' % (len(g.edge_list), edges, text()))
    ctx.check(n == len(g.node_list), lambda: 'wrong number of nodes; %s' % text())
    into = [e[1] for e in g.edge_list]
    tops = [x for x in g.node_list if not any(x is y for y in into)]
    ctx.check(len(tops) == len(trees), lambda: 'wrong roots; %s' % text())
    conds = []
    for r, t in zip(tops, trees):
        es = kids(g, r)
        ok = len(es) == 1 and es[0][2].get('label') is None
        ctx.check(ok, lambda: 'the signal has no edge of its own; %s' % text())
        conds.append(match(ctx, g, es[0][1], t, same))
    for r, want in zip(tops, roots):
        if want is not None:
            conds.append(same_name(r[1].get('label', r[0]), want))
    ctx.check(z3.And(*conds), lambda: 'the graph is not the tree; %s' % text())


def generator(same):
    t = target.load()
    g = t.graphgen.VerilogGraphGenerator('T', {}, {}, {}, {}, {}, 'out.png')
    g.identical = same
    return g


def h_tree(ctx, kind, same):
    m = Make(ctx)
    depth2 = ctx.choose('below', [None] + KINDS)
    place = [0]
    at = ctx.choose('at', [0, 1, 2]) if depth2 else 0
    if ctx.tier == 'thorough' and depth2:
        depth3 = ctx.choose('below2', [None] + KINDS)
    else:
        depth3 = None

    def inner():
        return m.node(depth3, m.leaf) if depth3 else m.leaf()

    def sub():
        k = place[0]
        place[0] += 1
        if depth2 and k == at:
            return m.node(depth2, inner)
        return m.leaf()
    tree = m.node(kind, sub)
    if place[0] <= at and depth2:
        raise E.Infeasible()
    g = generator(same)
    g.add_node('root', label='sig')
    with V.quiet():
        call(ctx, 'graph', lambda: g.visit(tree, 'root'))
    judge(ctx, g.graph, [tree], ['sig'], same, lambda: describe(tree))


def h_two(ctx):
    m = Make(ctx)
    same = ctx.flag('same')
    a, b = m.node('binary', m.leaf), m.node('branch', m.leaf)
    g = generator(same)
    for i, t in enumerate((a, b)):
        g.add_node('root%d' % i, label='sig%d' % i)
        with V.quiet():
            call(ctx, 'graph', lambda: g.visit(t, 'root%d' % i))
    judge(ctx, g.graph, [a, b], ['sig0', 'sig1'], same, lambda: describe(a) + describe(b))


DESIGNS = [('module TOP(input [7:0] a, b, input s, output [7:0] f); wire [7:0] t; assign t = s ? a + %(k)d : b; assign f = t - t; endmodule', 'f'),
           ('module TOP(input c, input [7:0] a, output reg [7:0] f); always @(posedge c) if (a[0]) f <= a; endmodule', 'f'),
           ('module TOP(input [7:0] a, output [7:0] f); assign f[3:0] = a[7:4]; endmodule', 'f'),
           ('module TOP(input signed [7:0] a, output [7:0] f); assign f = $signed(a[3:0]) + %(k)d; endmodule', 'f'),
           ("module TOP(input [7:0] a, input e, output [7:0] f); assign f = e ? a : 8'bz; endmodule", 'f'),
           ('module TOP(input [7:0] a, b, output f); wire [7:0] t; assign t = {a[3:0], b[%(k)d], 3\'d1}; assign f = t[2]; endmodule', 'f')]


def h_design(ctx, i, same):
    t = target.load()
    text, sig = DESIGNS[i]
    text = text % dict(k=ctx.choose('k', [0, 3, 7]))
    flow = V.analyze(text)
    o = V.walker(flow).resolver
    walk = ctx.flag('walk')
    step = ctx.choose('step', [0, 1, 3]) if walk else 1
    re_ = ctx.flag('reorder')
    delay = ctx.flag('delay') if walk else False
    args = ('TOP', flow.terms_raw, flow.binds_raw, o.getResolvedTerms(), o.getResolvedBinddict(), o.getConstlist())
    g = t.graphgen.VerilogGraphGenerator(*(args + ('out.png',)))
    with V.quiet():
        call(ctx, 'generate', lambda: g.generate('TOP.' + sig, identical=same, walk=walk, step=step, do_reorder=re_, delay=delay))
        name = t.util.toTermname('TOP.' + sig)
        w = t.walker.VerilogDataflowWalker(*args)
        tree = w.getTree(name)
        if walk:
            tree = w.walkTree(tree, visited=set(), step=step, delay=delay)
            if re_:
                tree = t.reorder.reorder(tree)
        tree = t.optimizer.VerilogOptimizer(flow.terms_raw, o.getConstlist()).optimize(tree)
        if re_:
            tree = t.reorder.reorder(tree)
        tree = t.replace.replaceUndefined(tree, name)
    judge(ctx, g.graph, [tree], ['TOP.' + sig], same, lambda: describe(tree))
