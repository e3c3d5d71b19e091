"""C05: equality and hashing of syntax trees, dataflow trees and terms agree with their structure.
Real code: pyverilog/vparser/ast.py (Node.__eq__/__ne__/__hash__, children and attr_names of every class), pyverilog/dataflow/dataflow.py (DF*, Term, Bind)."""
import copy
import z3
from sx import engine as E, target, vlog as V, symstr as S, astx
from sx.runner import call

BOUNDS = {
    'quick': 'pairs of nodes of every syntax-tree class (103) and every dataflow class, Term and Bind: all names, values, numbers and flags of both nodes symbolic and independent (strings of 1 and 2 characters), '
             'lists of 0 to 2 elements, any two fields (classes without code of their own: every fourth pair) with any two of the forms absent / identifier / number / select while the others are identifiers; the same one level deeper (classes with code of their own); '
             'pairs of nodes of different classes; every pair of 90 parsed statements, expressions and declarations',
    'thorough': 'as quick with lists of up to 3 elements, two levels deeper, and three varying fields'}
OUTSIDE = 'ModuleDef.default_nettype and source lines (not compared, by design); AlwaysInfo objects compare by identity; abstract DFNode'
ASSUMPTIONS = []


def setup(symbolic):
    V.setup_parser()


PARTS = 12


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p, max_paths=100000))
    for i in range(PARTS):
        add('ast-%02d' % i, 'h_ast', part=i, n=2 if q else 3)
        add('deep-%02d' % i, 'h_deep', part=i, depth=1 if q else 2)
        add('kinds-%02d' % i, 'h_kinds', part=i)
        add('parsed-%02d' % i, 'h_parsed', part=i)
    for c in DF:
        add('df-%s' % c, 'h_df', cls=c, n=2 if q else 3)
    add('df-kinds', 'h_dfkinds')
    add('term', 'h_term')
    add('bind', 'h_bind')
    return out


def name(ctx, nm, n):
    cs = [ctx.byte('%s%d' % (nm, i)) for i in range(n)]
    for c in cs:
        ctx.assume(S.inrange(c, 97, 122))
    if not ctx.symbolic:
        return ''.join(chr(c) for c in cs)
    s = S.mkstr(cs)
    if S.is_sym(s):
        s.h = 4711
    return s


def zb(x):
    return x.t if isinstance(x, E.SymBool) else x if z3.is_expr(x) else z3.BoolVal(bool(x))


def same(a, b):
    """z3: the two structures are the same (oracle, never uses == of nodes)"""
    if astx.isnode(a) or astx.isnode(b):
        if type(a) is not type(b):
            return z3.BoolVal(False)
        x, y = dict(astx.attrs(a)), dict(astx.attrs(b))
        if type(a) is target.load().vast.ModuleDef:
            x.pop('default_nettype'), y.pop('default_nettype')
        return z3.And([z3.BoolVal(set(x) == set(y))] + [same(x[k], y[k]) for k in x if k in y])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return z3.And([z3.BoolVal(len(a) == len(b))] + [same(p, q) for p, q in zip(a, b)])
    if isinstance(a, str) and isinstance(b, str):
        x, y = S.chars_of(a), S.chars_of(b)
        return zb(S.conj([S.ceq(p, q) for p, q in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return z3.BoolVal(a is b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return z3.BoolVal(False)
    if isinstance(a, (E.SymInt, E.SymBool, int, bool)) and isinstance(b, (E.SymInt, E.SymBool, int, bool)):
        return zb(a == b)
    d = target.load().dataflow
    if isinstance(a, (d.DFNode, d.Term, d.Bind)) or isinstance(b, (d.DFNode, d.Term, d.Bind)):
        if type(a) is not type(b):
            return z3.BoolVal(False)
        x, y = vars(a), vars(b)
        return z3.And([z3.BoolVal(set(x) == set(y))] + [same(x[k], y[k]) for k in x if k in y])
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return z3.BoolVal(a == b)
    sc = target.load().scope
    if isinstance(a, sc.ScopeChain) and isinstance(b, sc.ScopeChain):
        return same([(l.scopename, l.scopetype, l.scopeloop) for l in a.scopechain], [(l.scopename, l.scopetype, l.scopeloop) for l in b.scopechain])
    return z3.BoolVal(a is b)


def judge(ctx, a, b, what, hashes=True):
    want = same(a, b)
    eq = call(ctx, '== of %s' % what, lambda: a == b)
    ne = call(ctx, '!= of %s' % what, lambda: a != b)
    eq2 = call(ctx, '== of %s, other way round' % what, lambda: b == a)
    for x, nm in ((eq, '=='), (ne, '!='), (eq2, '==')):
        ctx.check(isinstance(x, (bool, E.SymBool)), '%s of %s gives %s' % (nm, what, type(x).__name__))
    ctx.check(zb(eq) == want, lambda: '== of %s is %s:\n%s\n%s' % (what, eq, show(a), show(b)))
    ctx.check(zb(ne) == z3.Not(want), lambda: '!= of %s is %s:\n%s\n%s' % (what, ne, show(a), show(b)))
    ctx.check(zb(eq2) == want, lambda: '== of %s is not symmetric:\n%s\n%s' % (what, show(a), show(b)))
    for x, nm in ((a, 'first'), (b, 'second')):
        ctx.check(zb(call(ctx, '== of %s with itself' % what, lambda: x == x)), lambda: '%s is not equal to itself: %s' % (what, show(x)))
        c = copy.copy(x)
        ctx.check(zb(call(ctx, '== of %s with a copy' % what, lambda: c == x)), lambda: '%s is not equal to its copy: %s' % (what, show(x)))
        for o in (None, 'x', 3, (), object()):
            r = call(ctx, '== of %s with %r' % (what, type(o).__name__), lambda: x == o)
            ctx.check(z3.Not(zb(r)), '%s equals %r' % (what, o))
    if hashes:
        ha, hb = call(ctx, 'hash of %s' % what, hash, a), call(ctx, 'hash of %s' % what, hash, b)
        ctx.check(z3.Implies(want, z3.BoolVal(ha == hb)), lambda: 'equal %s have different hashes:\n%s\n%s' % (what, show(a), show(b)))


def show(x):
    if astx.isnode(x):
        return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (k, show(v)) for k, v in astx.attrs(x)))
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(show(y) for y in x)
    if hasattr(x, '__dict__') and not isinstance(x, (str, E.SymInt, E.SymBool)):
        return '%s(%s)' % (type(x).__name__, ', '.join('%s=%s' % (k, show(v)) for k, v in vars(x).items()))
    return str(x)


def leaf(ctx, nm, form):
    v = target.load().vast
    if form == 'none':
        return None
    if form == 'id':
        return v.Identifier(name(ctx, nm, 1))
    if form == 'num':
        return v.IntConst(name(ctx, nm, 1))
    if form == 'sel':
        return v.Pointer(v.Identifier(name(ctx, nm, 1)), v.IntConst(name(ctx, nm + 'i', 1)))
    if form == 'minus':
        return v.Uminus(v.Identifier(name(ctx, nm, 1)))
    raise KeyError(form)


def element(ctx, cls, f, nm):
    v = target.load().vast
    if cls.__name__ in ('Instance', 'InstanceList') and f == 'parameterlist':
        return v.ParamArg(None, leaf(ctx, nm, 'id'))
    if cls.__name__ == 'Instance':
        return v.PortArg(None, leaf(ctx, nm, 'id'))
    if cls.__name__ == 'InstanceList':
        return v.Disable(name(ctx, nm, 1))
    if cls.__name__ == 'IdentifierScope':
        return v.IdentifierScopeLabel(name(ctx, nm, 1), None)
    return leaf(ctx, nm, 'id')


FLAGS = ('signed',)
NONEOK = {'Block': ('scope',), 'ParallelBlock': ('scope',), 'Port': ('name', 'type'), 'ParamArg': ('paramname',), 'PortArg': ('portname',), 'Instance': ('name',), 'Variable': ('name',)}


def node(ctx, cls, side, forms, n=2):
    """a node; forms: field -> form, other fields are identifiers / one-element lists / one-letter names"""
    kw = {}
    for f in astx.fields(cls):
        nm = '%s_%s' % (side, f)
        form = forms.get(f)
        if f in astx.plain(cls):
            if f in FLAGS:
                kw[f] = ctx.flag(nm)
            elif form == 'none':
                kw[f] = None
            else:
                kw[f] = name(ctx, nm, 2 if form == 'long' else 1)
        elif f in astx.lists(cls):
            if form == 'none':
                kw[f] = None
            else:
                kw[f] = tuple(element(ctx, cls, f, '%s%d' % (nm, i)) for i in range(form if isinstance(form, int) else 1))
        else:
            kw[f] = leaf(ctx, nm, form or 'id')
    return cls(lineno=ctx.choose(side + '_line', [7]) if side == 'a' else 8, **kw)


def forms(cls, f, n):
    if f in astx.plain(cls):
        return ['short'] if f in FLAGS else ['short', 'long'] + (['none'] if f in astx.base(cls, NONEOK) else [])
    if f in astx.lists(cls):
        return list(range(n + 1)) + (['none'] if f in astx.optional(cls) else [])
    return ['id', 'num', 'sel'] + (['none'] if f in astx.optional(cls) else [])


def owncode(cls):
    return [k for k in vars(cls) if k not in ('__module__', '__doc__', '__firstlineno__', '__static_attributes__')]


def h_ast(ctx, part, n):
    cls = ctx.choose('class', astx.classes()[part::PARTS])
    fs = astx.fields(cls)
    pairs = [(f, g) for i, f in enumerate(fs) for g in fs[i + 1:]] or [(fs[0], None)]
    if n == 2 and not owncode(cls):
        pairs = pairs[::4]
    f, g = ctx.choose('fields', pairs)
    fa, fb = {}, {}
    for x in (f, g):
        if x is not None:
            fo = forms(cls, x, n)
            if len(fs) > 3 and x in astx.lists(cls):
                fo = fo[:3] + (['none'] if 'none' in fo else [])
            elif len(fs) > 3:
                fo = [y for y in fo if y not in ('sel', 'long')]
            i, j = ctx.choose('form_' + x, [(i, j) for i in fo for j in fo if fo.index(i) <= fo.index(j) or x == g])
            fa[x], fb[x] = i, j
    a, b = node(ctx, cls, 'a', fa), node(ctx, cls, 'b', fb)
    ctx.note(lambda: '%s\n%s' % (show(a), show(b)))
    judge(ctx, a, b, cls.__name__)


def h_deep(ctx, part, depth):
    """nodes that differ below the top"""
    v = target.load().vast
    own = [c for c in astx.classes() if depth > 1 or owncode(c)]
    cls = ctx.choose('class', [c for c in own[part::PARTS] if [f for f in astx.fields(c) if f not in astx.plain(c)]])
    f = ctx.choose('field', [f for f in astx.fields(cls) if f not in astx.plain(cls)])
    kinds = ['Partselect', 'IfStatement', 'Uminus', 'Block', 'Width', 'BlockingSubstitution']
    if depth == 1:
        k = own.index(cls) % 3
        kinds = kinds[2 * k:2 * k + 2]
    inner = ctx.choose('inner', kinds)
    icls = getattr(v, inner)
    g = ctx.choose('inner_field', astx.fields(icls))
    fo = [x for x in forms(icls, g, 2) if x not in ('sel',)]
    i, j = ctx.choose('inner_form', [(x, y) for x in fo for y in fo if depth > 1 or fo.index(x) <= fo.index(y)])
    pair = []
    for side, form in (('a', i), ('b', j)):
        x = node(ctx, icls, side + 'x', {g: form})
        for d in range(depth - 1):
            x = v.Plus(v.Identifier('k'), x)
        y = node(ctx, cls, side, {f: 0 if f in astx.lists(cls) else 'id'})
        setattr(y, f, (v.Identifier('q'), x) if f in astx.lists(cls) else x)
        pair.append(y)
    ctx.note(lambda: '%s\n%s' % (show(pair[0]), show(pair[1])))
    judge(ctx, pair[0], pair[1], cls.__name__)


def h_kinds(ctx, part):
    """same contents, different classes (every class against those with the same fields)"""
    cls = ctx.choose('class', astx.classes()[part::PARTS])
    other = ctx.choose('other', [c for c in astx.classes() if c is cls or sorted(astx.fields(c)) == sorted(astx.fields(cls)) or issubclass(c, cls)])
    a, b = node(ctx, cls, 'a', {}), node(ctx, other, 'b', {})
    ctx.note(lambda: '%s\n%s' % (show(a), show(b)))
    judge(ctx, a, b, '%s and %s' % (cls.__name__, other.__name__))


STMTS = ['a = b;', 'a <= b;', 'a = #5 b;', '#5 a = b;', '#5 a = #5 b;', '#5;', 'a = b + c;', 'a = b + c + d;', 'a = b + (c + d);', 'a = {b};', 'a = {b, c};', 'a = {b, {c}};', 'a = {2{b}};', 'a = {2{b, c}};',
         'a = {{b, c}};', '{a} = b;', '{a, b} = c;', 'a[1] = b;', 'a[1:0] = b;', 'a[b] = c;', 'a = b[1];', 'a = b[1:0];', 'a = b[1][0];', 'a = b ? c : d;', 'a = b ? c : (d ? e : f);', 'a = -b;', 'a = ~b;', 'a = !b;',
         'a = f(b);', 'a = f(b, c);', 'a = $signed(b);', 'a = $time;', 'a = s.b;', 'a = s[1].b;', 'a = s[2].b;', 'a = t.s.b;', "a = 1'b1;", "a = 1'h1;", 'a = 1.5;', 'a = "x";', 'if(a) b = c;', 'if(a) b = c; else ;', 'if(a) ; else b = c;',
         'if(a) begin b = c; end', 'if(a) begin end else b = c;', 'if(a) b = c; else d = e;', 'if(a) if(b) c = d; else e = f;', 'if(a) begin if(b) c = d; end else e = f;', 'begin end', 'begin a = b; end', 'begin a = b; c = d; end',
         'begin : n a = b; end', 'begin : m a = b; end', 'begin begin a = b; end c = d; end', 'begin a = b; begin c = d; end end', 'case(a) b: c = d; endcase', 'case(a) b, c: c = d; endcase', 'case(a) b: c = d; c: c = d; endcase',
         'case(a) default: c = d; endcase', 'case(a) b: c = d; default: c = d; endcase', 'casex(a) b: c = d; endcase', 'casez(a) b: c = d; endcase', 'unique case(a) b: c = d; endcase', 'unique case(b) b: c = d; endcase', ';',
         'for(i = 0; i < 2; i = i + 1) a = b;', 'for(i = 0; i < 2; i = i + 1) begin a = b; end', 'for(; i < 2; i = i + 1) a = b;', 'for(i = 0; ; i = i + 1) a = b;', 'for(i = 0; i < 2; ) a = b;', 'while(a) b = c;', 'forever b = c;', 'wait(a) b = c;',
         'wait(a);', '@(a);', '@(posedge a);', '@(negedge a);', '@(a or b);', 'disable a;', '$display(a);', '$display(a, b);', '$finish;', 'fork a = b; join', 'fork join']
ITEMS = ['wire a;', 'reg a;', 'wire [1:0] a;', 'wire [1:1] a;', 'wire signed a;', 'wire a, b;', 'wire a = b;', 'wire #5 a = b;' if False else 'tri a;', 'reg a [1:0];', 'reg [1:0] a;', 'reg [1:0] a [1:0];', 'reg [1:0] a [2:0];', 'integer a;', 'real a;', 'genvar a;', 'input a;',
         'output a;', 'inout a;', 'output reg a;', 'input [1:0] a;', 'input signed [1:0] a;', 'supply0 a;', 'supply1 a;', 'parameter a = 1;', 'localparam a = 1;', 'parameter [1:0] a = 1;', 'parameter signed [1:0] a = 1;', 'parameter signed a = 1;', 'parameter a = 1, b = 1;',
         'assign a = b;', 'assign #5 a = b;', 'assign a[1] = b;', 'always @(a) b = c;', 'always @(*) b = c;', 'always @(a or d) b = c;', 'always @(posedge a) b = c;', 'always_ff @(posedge a) b = c;', 'always_comb b = c;', 'always_latch b = c;', 'initial b = c;',
         'm u();', 'm u(a);', 'm u(a, b);', 'm u(.p(a));', 'm u(.p());', 'm #(a) u();', 'm #(a) u(b);', 'm #(.p(a)) u();', 'm u[1:0](a);', 'm u(a), w(b);', 'm w(a);', 'and(a, b, c);', 'or(a, b, c);', 'and u(a, b, c);',
         'function f; input a; f = a; endfunction', 'function [1:0] f; input a; f = a; endfunction', 'function f; input a, b; f = a; endfunction', 'task f; input a; b = a; endtask', 'task f; input a; begin b = a; end endtask',
         'generate wire a; endgenerate', 'generate if(a) wire b; endgenerate', 'generate for(i = 0; i < 2; i = i + 1) begin : g wire a; end endgenerate', '']


def h_parsed(ctx, part):
    """all pairs of parsed statements (and module items): equal exactly when the trees are the same"""
    texts = [('module m; always @(*) %s endmodule' % s) for s in STMTS] + ['module m; %s endmodule' % s for s in ITEMS] + ['module m(a); endmodule', 'module m(a, b); endmodule', 'module m(input a); endmodule',
             'module m(input [1:0] a); endmodule', 'module m(output reg a); endmodule', 'module m #(parameter a = 1)(); endmodule', 'module m #(parameter a = 1)(b); endmodule', 'module n; endmodule', 'module m; endmodule module m; endmodule']
    trees = []
    for x in texts:
        trees.append(V.parse(x))
    again = V.parse(texts[part])
    for i, a in enumerate(trees):
        if i % PARTS != part:
            continue
        fresh = V.parse('\n' + texts[i].replace(' ', '  '))
        ctx.check(zb(call(ctx, '==', lambda: a == fresh)) == same(a, fresh), lambda: 'the same text parsed twice: %s' % texts[i])
        ctx.check(hash(a) == hash(fresh) or not z3.is_true(z3.simplify(same(a, fresh))), lambda: 'hashes of the same text parsed twice: %s' % texts[i])
        for j, b in enumerate(trees):
            eq = call(ctx, '== of %s and %s' % (texts[i], texts[j]), lambda: a == b)
            ctx.check(zb(eq) == same(a, b), lambda: '== is %s for the trees of\n%s\n%s' % (eq, texts[i], texts[j]))
            ctx.check((i == j) == z3.is_true(z3.simplify(same(a, b))) , lambda: 'different texts give the same tree:\n%s\n%s' % (texts[i], texts[j]))


# ---------------------------------------------------------------------------- dataflow
DF = {'DFTerminal': [('name', 'chain')], 'DFConstant': [('value', 'str')], 'DFIntConst': [('value', 'str')], 'DFFloatConst': [('value', 'str')], 'DFStringConst': [('value', 'str')],
      'DFOperator': [('nextnodes', 'list'), ('operator', 'str')], 'DFPartselect': [('var', 'node'), ('msb', 'node'), ('lsb', 'node')], 'DFPointer': [('var', 'node'), ('ptr', 'node')], 'DFConcat': [('nextnodes', 'list')],
      'DFBranch': [('condnode', 'node'), ('truenode', 'node?'), ('falsenode', 'node?')], 'DFEvalValue': [('value', 'int'), ('width', 'int'), ('isfloat', 'flag'), ('isstring', 'flag')],
      'DFUndefined': [('width', 'int')], 'DFHighImpedance': [('width', 'int')], 'DFDelay': [('nextnode', 'node')], 'DFSyscall': [('syscall', 'str'), ('nextnodes', 'list')]}


def dfleaf(ctx, nm, form):
    d = target.load().dataflow
    sc = target.load().scope
    if form == 'none':
        return None
    if form == 'term':
        return d.DFTerminal(sc.ScopeChain([sc.ScopeLabel('TOP', 'module'), sc.ScopeLabel(name(ctx, nm, 1), 'signal')]))
    if form == 'num':
        return d.DFIntConst(name(ctx, nm, 1))
    if form == 'val':
        return d.DFEvalValue(ctx.int(nm, 0, 2), 8)
    if form == 'not':
        return d.DFOperator((dfleaf(ctx, nm, 'term'),), 'Unot')
    raise KeyError(form)


def field(ctx, nm, kind, form):
    sc = target.load().scope
    if kind == 'chain':
        return sc.ScopeChain([sc.ScopeLabel('TOP', 'module'), sc.ScopeLabel(name(ctx, nm, 1), 'signal')][:form])
    if kind == 'str':
        return name(ctx, nm, form)
    if kind == 'int':
        return ctx.int(nm, 0, 2)
    if kind == 'flag':
        return ctx.flag(nm)
    if kind == 'list':
        n, tup = form
        x = [dfleaf(ctx, '%s%d' % (nm, i), ['term', 'num', 'not'][i]) for i in range(n)]
        return tuple(x) if tup else x
    return dfleaf(ctx, nm, form)


def fforms(kind, n):
    return {'chain': [1, 2], 'str': [1, 2], 'int': [0], 'flag': [0], 'list': [(i, t) for i in range(n + 1) for t in (True, False)], 'node': ['term', 'num', 'val', 'not'], 'node?': ['term', 'num', 'none', 'not']}[kind]


def dfnode(ctx, cls, side, fs):
    d = target.load().dataflow
    return getattr(d, cls)(**{f: field(ctx, '%s_%s' % (side, f), k, form) for (f, k), form in zip(DF[cls], fs)})


def h_df(ctx, cls, n):
    pick = []
    for side in 'ab':
        fs = []
        for i, (f, k) in enumerate(DF[cls]):
            fo = fforms(k, n)
            if len(DF[cls]) > 2 and k.startswith('node'):
                fo = [x for x in fo if x in (('term', 'num') if k == 'node' else ('term', 'none', 'not'))]
            fs.append(ctx.choose('%s_%s_form' % (side, f), fo))
        pick.append(fs)
    a, b = dfnode(ctx, cls, 'a', pick[0]), dfnode(ctx, cls, 'b', pick[1])
    ctx.note(lambda: '%s\n%s' % (show(a), show(b)))
    judge(ctx, a, b, cls)


def h_dfkinds(ctx):
    c1, c2 = ctx.choose('class', [(x, y) for x in sorted(DF) for y in sorted(DF) if x != y])
    a, b = [dfnode(ctx, c, s, [fforms(k, 1)[0] for _, k in DF[c]]) for c, s in ((c1, 'a'), (c2, 'b'))]
    ctx.note(lambda: '%s\n%s' % (show(a), show(b)))
    judge(ctx, a, b, '%s and %s' % (c1, c2))


def h_term(ctx):
    d = target.load().dataflow
    sc = target.load().scope
    ts = []
    for side in 'ab':
        tt = set(ctx.choose(side + '_type', [('Input',), ('Output', 'Reg'), ('Reg', 'Output')]))
        lsb = dfleaf(ctx, side + 'lsb', ctx.choose(side + '_lsb', ['num', 'none']))
        dims = ctx.choose(side + '_dims', [None, (), 1])
        dims = ((dfleaf(ctx, side + 'd0', 'num'), dfleaf(ctx, side + 'd1', 'num')),) if dims == 1 else dims
        ts.append(d.Term(sc.ScopeChain([sc.ScopeLabel('TOP', 'module'), sc.ScopeLabel(name(ctx, side + 'n', 1), 'signal')]), tt, dfleaf(ctx, side + 'msb', 'num'), lsb, dims))
    ctx.note(lambda: '%s\n%s' % (show(ts[0]), show(ts[1])))
    judge(ctx, ts[0], ts[1], 'Term')


def h_bind(ctx):
    t = target.load()
    d, sc = t.dataflow, t.scope
    infos = [None, t.visit.AlwaysInfo(), t.visit.AlwaysInfo()]
    bs = []
    for side in 'ab':
        dest = sc.ScopeChain([sc.ScopeLabel('TOP', 'module'), sc.ScopeLabel(name(ctx, side + 'n', 1), 'signal')])
        form = ctx.choose(side + '_form', ['term', 'none'])
        ptr = ctx.choose(side + '_ptr', ['num', 'none'])
        info = ctx.choose(side + '_info', [0, 1, 2])
        bs.append(d.Bind(dfleaf(ctx, side + 't', ctx.choose(side + '_tree', ['term', 'num'])), dest, dfleaf(ctx, side + 'm', form), dfleaf(ctx, side + 'l', form), dfleaf(ctx, side + 'p', ptr),
                         alwaysinfo=infos[info], parameterinfo=name(ctx, side + 'pi', 1)))
    ctx.note(lambda: '%s\n%s' % (show(bs[0]), show(bs[1])))
    judge(ctx, bs[0], bs[1], 'Bind')
