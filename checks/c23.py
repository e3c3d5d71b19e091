"""C23: listing and renaming identifiers is complete and exact.
Real code: pyverilog/utils/identifiervisitor.py, pyverilog/utils/identifierreplace.py, pyverilog/dataflow/visit.py (NodeVisitor), pyverilog/vparser/ast.py."""
import re
import z3
from sx import engine as E, target, vlog as V, symstr as S, astx
from sx.runner import call

BOUNDS = {
    'quick': 'a node of every syntax-tree class with identifiers in every place a node may stand, and source programs with every construct of the parser (about 150 identifier occurrences); '
             'every identifier name of a program is one of up to three symbolic names of 1 to 3 characters; rename maps of up to three symbolic entries, chains and swaps included',
    'thorough': 'as quick with names up to 5 characters'}
OUTSIDE = 'names in declarations, ports, instances and scope labels (they are not identifiers of the tree but attributes)'
ASSUMPTIONS = []

PROGRAMS = {
    'module': '''module m #(parameter P = r1, parameter [r2:0] Q = r3 + 1)(input [r4-1:0] a, output reg [P1:r5] b, inout c);
localparam L = r6 * r7; parameter signed [r8:r9] M = {r10, r11};
wire [r12:0] w; wire r50 = r13; reg [r14:r15] mem [r16:0]; integer i; genvar g; supply0 s0; tri [r17:0] t; input signed [r18:0] d; real rr;
endmodule''',
    'assign': '''module m; assign r1 = r2 + r3 * -r4; assign r5[r6] = r7 ? r8 : r9; assign r10[r11:r12] = {r13, {r14{r15, r16}}, r17[r18 +: 2]};
assign {r19, r20[r21]} = f1(r22, r23 && r24); assign #r25 r26 = #3 r27; assign r28 = $signed(r29) + $time; assign r30 = 4'd5; assign r31[r32 -: r33] = !r34 | ~&r35; endmodule''',
    'scopes': '''module m; assign r1 = u.v.r2; assign r3 = u[r4].r5; assign r6 = u.v[r7 + r8].w.r9[r10]; assign a.r11 = r12; assign u[3].r13 = a.b.r14; endmodule''',
    'always': '''module m; always @(posedge r1 or negedge r2[r3]) begin if(r4) r5 <= r6; else if(!r7) r8[r9] <= r10; else ; end
always @(r11, r12) r13 = r14; always @(*) r15 = r16; always @* begin : blk reg q; r17 = r18; end always r19 = r20;
always @(posedge r21) if(r22) begin end else r23 <= #r24 r25; always_ff @(posedge r26) r27 <= r28; always_comb r29 = r30; always_latch r31 = r32; endmodule''',
    'case': '''module m; always @(*) begin case(r1) r2: r3 = r4; r5, r6 + 1: begin r7 = r8; r9 = r10; end default: r11 = r12; endcase
casex(r13[r14]) 4'b1xx0: r15 = r16; endcase casez({r17, r18}) r19: if(r20) r21 = r22; default: ; endcase unique case(r23) r24: r25 = r26; endcase end endmodule''',
    'loops': '''module m; initial begin for(r1 = r2; r3 < r4; r5 = r6 + 1) r7[r8] = r9; while(r10) begin r11 = r12; end repeat_it = r13; forever begin r14 = r15; end end
initial begin wait(r16) r17 = r18; @(posedge r19); @(r20) ; #r21; #10 r22 = r23; disable blk; -> ev; end initial fork r24 = r25; join endmodule'''.replace('repeat_it = r13;', 'r13 = r13_;').replace('-> ev; ', '').replace('@(r20) ; ', ''),
    'calls': '''module m; function [r1:0] r2f; input [r3:0] a; reg k; begin r4 = r5; r6 = r7(r8, r9); end endfunction
task tt; input a; begin r10 = r11; end endtask always @(*) begin r12 = r13[r14]; $display("%d", r15, r16[r17]); $finish; end endmodule''',
    'instances': '''module m; sub u0(r1, r2 + r3); sub #(r4, 5) u1(.a(r5), .b(), .c({r6, r7})); sub #(.P(r8 * r9), .Q(2)) u2[r10:r11](.a(r12[r13])), u3(r14);
and (r15, r16, r17); not n1(r18, r19); endmodule''',
    'generate': '''module m; genvar i; generate for(r1 = 0; r2 < r3; r4 = r5 + 1) begin : g wire [r6:0] w; assign r7[r8] = r9; sub u(r10); end
if(r11 == 2) begin assign r12 = r13; end else assign r14 = r15; endgenerate endmodule''',
    'shared': '''module m(a, b); input [r1:0] aa, bb; input [r2:r3] a, b; output [r4:0] c, d, e; reg [r5:r6] f, g; wire [r7[r8]:0] h, k; assign r9 = r10; endmodule''',
    'pragma': '''(* r0 *) module m; (* keep = 1 *) assign r1 = r2; endmodule'''.replace('(* r0 *) ', ''),
}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for n in sorted(PROGRAMS):
        add('list-%s' % n, 'h_list', prog=n)
        for k in range(3):
            add('rename-%s-%d' % (n, k), 'h_rename', prog=n, k=k, m=3 if q else 5)
    for i in range(8):
        add('classes-%d' % i, 'h_classes', part=i)
    add('simultaneous', 'h_simultaneous', m=3 if q else 5)
    add('shared', 'h_shared')
    add('real', 'h_real')
    return out


def name(ctx, nm, n):
    cs = [ctx.byte('%s%d' % (nm, i)) for i in range(n)]
    for c in cs:
        ctx.assume(S.disj([S.inrange(c, a, b) for a, b in ((97, 122), (95, 95), (48, 57))]))
    if not ctx.symbolic:
        return ''.join(chr(c) for c in cs)
    s = S.mkstr(cs)
    if S.is_sym(s):
        s.h = 4711
    return s


class Map(dict):
    """a dict whose keys may be symbolic: keys are found by comparing (the engine follows both outcomes)"""

    def __init__(self, pairs):
        dict.__init__(self)
        self.p = []
        for k, v in pairs:
            self[k] = v

    def find(self, k):
        for i, (a, _) in enumerate(self.p):
            if isinstance(k, str) and a == k:
                return i
        return None

    def __setitem__(self, k, v):
        i = self.find(k)
        if i is None:
            self.p.append((k, v))
        else:
            self.p[i] = (self.p[i][0], v)

    def __contains__(self, k): return self.find(k) is not None

    def __getitem__(self, k):
        i = self.find(k)
        if i is None:
            raise KeyError(k)
        return self.p[i][1]

    def get(self, k, d=None):
        i = self.find(k)
        return d if i is None else self.p[i][1]

    def items(self): return list(self.p)
    def keys(self): return [a for a, _ in self.p]
    def values(self): return [b for _, b in self.p]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self.p)
    def __eq__(self, o): return self is o
    def copy(self): return Map(self.p)


def mkmap(ctx, pairs):
    return Map(pairs) if ctx.symbolic else dict(pairs)


def zb(x):
    return x.t if isinstance(x, E.SymBool) else x if z3.is_expr(x) else z3.BoolVal(bool(x))


def eqn(a, b):
    if type(a) is str and type(b) is str:
        return z3.BoolVal(a == b)
    if not isinstance(a, str) or not isinstance(b, str):
        return z3.BoolVal(a is b)
    x, y = S.chars_of(a), S.chars_of(b)
    return zb(S.conj([S.ceq(p, q) for p, q in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)


def parse(ctx, prog):
    src = PROGRAMS[prog]
    ctx.note(src)
    return src, V.parse(src)


IDENT = re.compile(r'\br\d+[_f]?\b')


def h_list(ctx, prog):
    t = target.load()
    src, ast = parse(ctx, prog)
    want = set(x for x in IDENT.findall(src) if not x.endswith('f')) | set({'module': ['P1'], 'assign': ['f1']}.get(prog, []))
    got = call(ctx, 'getIdentifiers', t.identifiervisitor.getIdentifiers, ast)
    ctx.check(isinstance(got, tuple) and set(got) == want, lambda: 'identifiers of\n%s\nlisted: %s\nnot listed: %s, too many: %s' % (
        src, got, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for n in astx.nodes(ast):
        # every part of the tree by itself
        w = sorted(x.name for x in astx.identifiers(n))
        g = call(ctx, 'getIdentifiers', t.identifiervisitor.getIdentifiers, n)
        ctx.check(sorted(g) == w, lambda: 'identifiers of a %s: %s, expected %s in\n%s' % (type(n).__name__, g, w, src))
    v = t.identifiervisitor.IdentifierVisitor()
    v.visit(ast)
    v.reset()
    ctx.check(v.getIdentifiers() == (), 'reset')


def compare(ctx, a, b, want, what, path=''):
    """b is a with every identifier name x replaced by want(x); everything else is the same"""
    if astx.isnode(a):
        ctx.check(type(a) is type(b), lambda: '%s: %s became %s' % (path, type(a).__name__, type(b).__name__))
        if type(a) is not type(b):
            return
        x, y = dict(astx.attrs(a)), dict(astx.attrs(b))
        ctx.check(set(x) == set(y) and getattr(a, 'lineno', 0) == getattr(b, 'lineno', 0), lambda: '%s: attributes of %s: %s, line %s -> %s in\n%s' % (
            path, type(a).__name__, sorted(set(x) ^ set(y)), getattr(a, 'lineno', 0), getattr(b, 'lineno', 0), what()))
        isid = type(a) is target.load().vast.Identifier
        for k in x:
            p = '%s/%s.%s' % (path, type(a).__name__, k)
            if isid and k == 'name':
                want(p, x[k], y[k])
            else:
                compare(ctx, x[k], y[k], want, what, p)
    elif isinstance(a, (list, tuple)):
        ctx.check(isinstance(b, (list, tuple)) and len(a) == len(b), lambda: '%s: list of %d became %s in\n%s' % (path, len(a), b, what()))
        for i, (p, q) in enumerate(zip(a, b)):
            compare(ctx, p, q, want, what, '%s[%d]' % (path, i))
    else:
        ctx.check(type(a) is type(b) and a == b, lambda: '%s: %r became %r in\n%s' % (path, a, b, what()))


def renamed(ctx, mp):
    """expected name: the entry of the map whose key it is, else itself"""
    def judge(path, old, new):
        want = eqn(new, old)
        for k, v in reversed(mp):
            want = z3.If(eqn(old, k), eqn(new, v), want)
        ctx.check(want, lambda: '%s: identifier %s became %s under %s' % (path, old, new, mp))
    return judge


def h_rename(ctx, prog, k, m):
    """all identifiers get one of the names n0 (symbolic), n1, n2; the map renames symbolic keys"""
    t = target.load()
    src, before = parse(ctx, prog)
    after = V.parse(src)
    names = [name(ctx, 'n', 1 + k % m)] + ['p', 'q_1']
    keys = [name(ctx, 'k', 1 + k % m), 'q_1'][:2 - k % 2]
    vals = [name(ctx, 'v', 2), 'p'][:len(keys)]
    for i, (x, y) in enumerate(zip(astx.identifiers(before), astx.identifiers(after))):
        x.name = y.name = names[i % 3]
    mp = list(zip(keys, vals))
    d = mkmap(ctx, mp)
    r = call(ctx, 'replaceIdentifiers', t.identifierreplace.replaceIdentifiers, after, d)
    ctx.check(r is not None, 'the renamed tree is returned')
    compare(ctx, before, r, renamed(ctx, list(d.items())), lambda: src)
    g = call(ctx, 'getIdentifiers', t.identifiervisitor.getIdentifiers, r)
    ctx.check(len(g) == len(astx.identifiers(before)), 'all identifiers are still there')


def h_simultaneous(ctx, m):
    """a -> b together with b -> a and longer chains"""
    t = target.load()
    src = 'module m; assign a = b + c * {a, b[c]}; always @(posedge a) if(b) c <= a; endmodule'
    before, after = V.parse(src), V.parse(src)
    ns = [name(ctx, 'n%d' % i, ctx.choose('len%d' % i, [1, m] if i else [1])) for i in range(3)]
    sub = dict(zip('abc', ns))
    for x in astx.identifiers(before) + astx.identifiers(after):
        x.name = sub[x.name]
    d = mkmap(ctx, [])
    for a, b in ctx.choose('map', [[(0, 1), (1, 0)], [(0, 1), (1, 2), (2, 0)], [(0, 1), (1, 2)], [(1, 0), (2, 0)], [(0, 0)], []]):
        d[ns[a]] = ns[b]
    mp = list(d.items())
    ctx.note(lambda: '%s with %s renamed by %s' % (src, ns, mp))
    r = call(ctx, 'replaceIdentifiers', t.identifierreplace.replaceIdentifiers, after, d)
    compare(ctx, before, r, renamed(ctx, mp), lambda: src)


def h_classes(ctx, part):
    """a node of every class with identifiers wherever nodes may stand"""
    t = target.load()
    v = t.vast
    cls = ctx.choose('class', astx.classes()[part::8])
    counter = [0]

    def ident(p):
        counter[0] += 1
        return v.Identifier(('x%d' if p % 2 else 'y') % (() if not p % 2 else (counter[0],)), lineno=p)

    def build(missing):
        counter[0] = 0
        kw = {}
        for i, f in enumerate(astx.fields(cls)):
            if f in astx.plain(cls):
                kw[f] = 'y' if f not in ('signed',) else True
            elif f in missing:
                kw[f] = None
            elif f in astx.lists(cls):
                kw[f] = (ident(i), v.Plus(ident(i + 1), v.IntConst('3')))
            else:
                kw[f] = v.Partselect(ident(i), ident(i + 1), v.IntConst('0')) if i % 2 else ident(i)
            if cls is v.Identifier and f == 'scope':
                kw[f] = v.IdentifierScope((v.IdentifierScopeLabel('y', ident(3)),))
            if cls is v.IdentifierScope:
                kw[f] = (v.IdentifierScopeLabel('y', None), v.IdentifierScopeLabel('y', ident(3)))
        return cls(lineno=9, **kw)
    missing = ctx.choose('missing', [()] + [(f,) for f in astx.optional(cls)])
    a, b = build(missing), build(missing)
    ctx.note('%s lacking %s' % (cls.__name__, missing))
    want = sorted(x.name for x in astx.identifiers(a))
    got = call(ctx, 'getIdentifiers', t.identifiervisitor.getIdentifiers, a)
    ctx.check(sorted(got) == want, lambda: 'identifiers of %s: %s, expected %s' % (cls.__name__, got, want))
    key, val = name(ctx, 'k', 1), name(ctx, 'v', 2)
    d = mkmap(ctx, [(key, val), ('x1', 'other')])
    mp = list(d.items())
    r = call(ctx, 'replaceIdentifiers in %s' % cls.__name__, t.identifierreplace.replaceIdentifiers, b, d)
    compare(ctx, a, r, renamed(ctx, mp), lambda: cls.__name__)


def h_shared(ctx):
    """one node object used in several places"""
    t = target.load()
    v = t.vast
    k = name(ctx, 'k', 1)
    mk = lambda: (lambda s: v.Concat([s, v.Plus(s, s), v.Pointer(s, v.Identifier('z'))]))(v.Partselect(v.Identifier('a'), v.Identifier('b'), v.Identifier('a')))
    a, b = mk(), mk()
    d = mkmap(ctx, [(k, 'b')])
    r = call(ctx, 'replaceIdentifiers', t.identifierreplace.replaceIdentifiers, b, d)
    if ctx.symbolic:
        pass
    exp = renamed(ctx, [(k, 'b')])
    # a node reached twice is renamed once: the map is applied to the original names
    compare(ctx, a, r, lambda p, o, n: exp(p, o, n), lambda: 'shared nodes')
    for m in ({}, {'none': 'x'}):
        r = call(ctx, 'replaceIdentifiers', t.identifierreplace.replaceIdentifiers, mk(), m)
        compare(ctx, a, r, renamed(ctx, []), lambda: 'nothing renamed')


def h_real(ctx):
    """the renamed tree is what parsing the renamed text gives, lines included"""
    t = target.load()
    prog = ctx.choose('program', sorted(PROGRAMS))
    src = PROGRAMS[prog]
    old = sorted(set(IDENT.findall(src)))
    pick = [o for i, o in enumerate(old) if not o.endswith('f') and i % 3 != 2]
    mp = {o: 'zz_%s' % o for o in pick}
    src2 = IDENT.sub(lambda m: mp.get(m.group(0), m.group(0)), src)
    r = call(ctx, 'replaceIdentifiers', t.identifierreplace.replaceIdentifiers, V.parse(src), mp)
    compare(ctx, V.parse(src2), r, lambda p, o, n: ctx.check(o == n, '%s: %s instead of %s' % (p, n, o)), lambda: src2)
