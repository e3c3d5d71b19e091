"""C12: clock and reset of always blocks.
Real code: lexer+parser, SignalVisitor, BindVisitor (visit_Always, sensitivity lists), FrameTable.getAlwaysStatus, AlwaysInfo, Bind accessors,
Bind.tocode, signaltype.isClock/isReset."""
import itertools
import re
import z3
from sx import engine as E, target, vlog as V, symstr as S
from sx.runner import call
from sx.vlog import K

BOUNDS = {
    'quick': 'always, always_ff, always_comb and always_latch blocks; one or two edges in both orders, with both separators and both edge kinds; clock and reset '
             'names fully symbolic with 3 to 8 identifier characters (each name class decided by the solver), plus chosen names up to 16 characters; '
             'bits that are symbolic literals 0..15 in every base, parameters, overridden parameters and genvars; level lists of up to three entries '
             '(signals, bits, parts) with such names; bodies with nested if/case/for/named blocks, blocking and nonblocking assignments to whole '
             'signals, parts, concatenations and memories, function calls; up to 6 blocks per module, 3 levels of instances, 4 generate iterations',
    'thorough': 'as quick with symbolic names up to 12 characters'}
OUTSIDE = ('two clocks in one list, a reset edge without a clock, clocks named neither clk nor clock, bit 0 of a vector with ascending range, '
           'hierarchical names in sensitivity lists, named events')
ASSUMPTIONS = ['symbolic names differ from every other name of the program and consist of letters, digits, _ and $']


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for kind in ('always', 'always_ff', 'always_latch'):
        add('edges-%s' % kind, 'h_edges', kind=kind)
    for k in range(3):
        add('names-%d' % k, 'h_names', k=k)
    for n in ((3, 5, 8) if q else (3, 4, 5, 6, 8, 10, 12)):
        add('sym-one-%d' % n, 'h_sym', lens=[n], level=False)
        add('sym-level-%d' % n, 'h_sym', lens=[n, n], level=True)
    for a, b in (((3, 3), (5, 4), (5, 6), (8, 7)) if q else ((3, 3), (5, 4), (5, 6), (8, 7), (12, 5), (7, 12), (10, 10))):
        add('sym-two-%d-%d' % (a, b), 'h_sym', lens=[a, b], level=False)
    add('sym-body', 'h_sym', lens=[5, 5], level=False, body=True)
    for k in range(6):
        add('bits-%d' % k, 'h_bits', k=k)
    add('level', 'h_level')
    for k in range(5):
        add('reject-%d' % k, 'h_reject', k=k)
    for k in range(11):
        add('body-%d' % k, 'h_body', k=k)
    for k in range(9):
        add('many-%d' % k, 'h_many', k=k)
    return out


# ---------------------------------------------------------------------------- the sensitivity of emitted code
def name_text(x):
    return x


def sens_of_text(ctx, code):
    """sensitivity list of emitted code, re-read by the real parser: [(edge, name, bit)] or None for a block without one"""
    if code.startswith('assign') or code.startswith('parameter') or code.startswith('localparam'):
        return None
    # only the head: whether the whole text is legal is the business of C16
    head = re.split(r'\bbegin\b', code, maxsplit=1)[0] + ' begin end'
    tree = call(ctx, 'parsing of emitted code\n%s' % code, V.parse, 'module m;\n%s\nendmodule\n' % head)
    t = target.load().vast
    al = [x for x in tree.description.definitions[0].items if isinstance(x, t.Always)]
    if len(al) != 1:
        ctx.fail('one always block is emitted:\n%s' % code)
    out = []
    for s in al[0].sens_list.list:
        if s.sig is None or s.type in ('level', 'all'):
            out.append(('level', None, 0))
        elif isinstance(s.sig, t.Pointer):
            v = ctx.str2num(s.sig.ptr.value)
            out.append((s.type, s.sig.var.name, int(s.sig.ptr.value) if v is None else v))
        else:
            out.append((s.type, s.sig.name, 0))
    return out


def eq(a, b):
    r = a == b
    return r.t if isinstance(r, E.SymBool) else bool(r)


def sensitivity(ctx, what, b, clk, rst, text):
    """clk/rst: None or (full dotted name, edge, bit)"""
    got = sens_of_text(ctx, call(ctx, 'tocode of %s in\n%s' % (what, text), b.tocode))
    want = [(x[1], x[0].replace('.', '_'), x[2]) for x in (clk, rst) if x is not None]
    if clk is None:
        ok = got is not None and all(s[0] == 'level' for s in got)
    else:
        ok = got is not None and len(got) == len(want) and all(g[0] == w[0] and g[1] == w[1] for g, w in zip(got, want))
        if ok:
            ok = S.conj([eq(g[2], w[2]) for g, w in zip(got, want)])
    ctx.check(ok, lambda: 'emitted code of %s is sensitive to %s, not %s, in\n%s' % (what, want, got, text))


def info(ctx, what, b, clk, rst, text, same=None, emit=True):
    """the recorded information of one driver"""
    same = same or (lambda raw, name: str(raw) == name)
    msg = lambda m: (lambda: '%s of %s (clock %s, reset %s) in\n%s' % (m, what, clk, rst, text))
    ctx.check(b.isClockEdge() == (clk is not None), msg('isClockEdge'))
    ctx.check(b.isCombination() == (clk is None), msg('isCombination'))
    for side, w, gn, ge, gb in (('clock', clk, b.getClockName, b.getClockEdge, b.getClockBit), ('reset', rst, b.getResetName, b.getResetEdge, b.getResetBit)):
        if w is None:
            ctx.check(gn() in (None, '') and ge() in (None, ''), msg('a %s (%s %s) is recorded for a driver without one:' % (side, ge(), gn())))
            continue
        ctx.check(gn() is not None and same(gn(), w[0]), msg('%s name (%r)' % (side, gn())))
        ctx.check(ge() == w[1], msg('%s edge (%s)' % (side, ge())))
        got = gb()
        ctx.check(got is not None and got is not False and eq(got, w[2]), msg('%s bit (%r)' % (side, got)))
    if emit:
        sensitivity(ctx, what, b, clk, rst, text)


def check(ctx, text, want, top='TOP', emit=True):
    """want: signal -> [(clk, rst), ...] in source order of its drivers, or one pair for all of them"""
    ctx.note(text)
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text, top)
    for n, exp in want.items():
        bs = fl.binds.get(n, [])
        if not bs:
            ctx.fail('%s has a driver in\n%s' % (n, text))
        if isinstance(exp, tuple):
            exp = [exp] * len(bs)
        ctx.check(len(bs) == len(exp), 'number of drivers of %s (%d) in\n%s' % (n, len(bs), text))
        for b, (c, r) in zip(bs, exp):
            info(ctx, n, b, c, r, text, emit=emit)
    return fl


def sens(entries, sep):
    return '@(%s)' % sep.join('%s %s' % (e[1], e[0]) for e in entries)


# ---------------------------------------------------------------------------- edges, order, separators, kinds
def h_edges(ctx, kind):
    ce = ctx.choose('clk edge', ['posedge', 'negedge'])
    two = ctx.choose('reset', [None, 'posedge', 'negedge'])
    body = ctx.choose('body', ['nb', 'if', 'blk'])
    clk, rst = ('TOP.clk', ce, 0), (two and ('TOP.rst_n', two, 0))
    es = [('clk', ce)]
    if two:
        es = [('clk', ce), ('rst_n', two)]
        if ctx.flag('reset first'):
            es.reverse()
    sep = ctx.choose('sep', [' or ', ', ']) if two else ''
    b = {'nb': 'y <= a;', 'if': 'if(!rst_n) y <= %s; else y <= a;' % V.emit(K(ctx.int('k', 0, 15), 4)), 'blk': 'begin : n\n if(a[0]) begin y[1:0] <= a[1:0]; end\n y[3] <= b; end'}[body]
    text = 'module TOP(input clk, input rst_n, input [3:0] a, input b, output reg [3:0] y);\n%s %s\n  %s\nendmodule\n' % (kind, sens(es, sep), b)
    check(ctx, text, {'TOP.y': (clk, rst)})


CLK = ['clk', 'CLK', 'Clock', 'sys_clk_i', 'clock_50MHz', 'ckClKx', 'u_clockrst', 'rst_clk', 'reset_of_clock', 'clk$1', '_clk']
RST = ['rst', 'RST_N', 'Reset', 'nreset', 'async_rst_b', 'burst', 'sys_ReSeT', 'firsT', 'rst2']


def h_names(ctx, k):
    c = ctx.choose('clock name', CLK)
    r = ctx.choose('reset name', RST)
    if k == 0:
        es, rst = [(c, 'posedge'), (r, 'negedge')], ('TOP.' + r, 'negedge', 0)
    elif k == 1:
        es, rst = [(r, 'posedge'), (c, 'negedge')], ('TOP.' + r, 'posedge', 0)
    else:
        es, rst = [(c, 'negedge')], None
    ce = dict(es)[c]
    text = 'module TOP(%s, %s, a, y);\n  input %s;\n  input %s;\n  input a;\n  output reg y;\n  always %s begin\n    if(%s) y <= 0;\n    else y <= a;\n  end\nendmodule\n' % (
        c, r, c, r, sens(es, ' or '), r)
    # names ending in _ or containing $ are ordinary identifiers
    check(ctx, text, {'TOP.y': (('TOP.' + c, ce, 0), rst)})


# ---------------------------------------------------------------------------- symbolic names
def identifier(ctx, nm, n, hv):
    cs = [ctx.byte('%s%d' % (nm, i)) for i in range(n)]
    letters = [(65, 90), (97, 122), (95, 95)]
    for i, c in enumerate(cs):
        ctx.assume(S.disj([S.inrange(c, a, b) for a, b in letters + ([(48, 57), (36, 36)] if i else [])]))
    if not ctx.symbolic:
        return ''.join(chr(c if isinstance(c, int) else E.as_int(c)) for c in cs)
    s = S.mkstr(cs)
    if S.is_sym(s):
        s.h = hv
    return s


def has(cs, words):
    """z3: the lower-case text contains one of the words"""
    out = []
    for w in words:
        for i in range(len(cs) - len(w) + 1):
            out.append(S.conj([S.inset(cs[i + j], ch.lower() + ch.upper()) for j, ch in enumerate(w)]))
    return S.disj(out)


def h_sym(ctx, lens, level, body=False):
    names = [identifier(ctx, 'n%d_' % i, n, 7001 + i) for i, n in enumerate(lens)]
    if len(names) == 2 and lens[0] == lens[1]:
        ctx.assume(S.neg(S.conj([S.ceq(a, b) for a, b in zip(S.chars_of(names[0]), S.chars_of(names[1]))])))
    edges = [('level', 'level') if level else ctx.choose('edges', [('posedge', 'negedge'), ('negedge', 'posedge')])][0]
    ph = ['QQ0', 'QQ1'][:len(names)]
    es = [(p, e) for p, e in zip(ph, edges)]
    lst = '@(%s)' % ' or '.join(ph) if level else sens(es, ' or ')
    b = 'y <= a;' if not body else 'begin\n if(QQ0) y[1] <= a; else begin t = a; case(QQ1) 0: y <= {t, a}; default: y[0] <= t; endcase end end'
    text = 'module TOP(%s, a, y);\n  input %s;\n  input a;\n  output reg [1:0] y;\n  reg t;\n  always %s\n    %s\nendmodule\n' % (
        ', '.join(ph), ', '.join(ph), lst, b)
    show = lambda: text + '(names %s)' % ', '.join('%s = %s' % (p, n if not ctx.symbolic else '...') for p, n in zip(ph, names))
    ctx.note(show)
    sub = dict(zip(ph, names))
    t = target.load()

    def rename(node):
        if type(getattr(node, 'name', None)) is str and node.name in sub:
            node.name = sub[node.name]
        for c in node.children():
            rename(c)
    ast = V.parse(text)
    rename(ast)
    isclk = [has(S.chars_of(n), ['clk', 'clock']) for n in names]
    isrst = [has(S.chars_of(n), ['rst', 'reset']) for n in names]
    sc = t.scope
    full = [sc.ScopeChain([sc.ScopeLabel('TOP', 'module'), sc.ScopeLabel(n, 'signal')]) for n in names]

    def same(raw, i):
        return raw == full[i]

    def z(c):
        return z3.BoolVal(c) if isinstance(c, bool) else c
    C = [z(c) for c in isclk]
    R = [z3.And(z(r), z3.Not(c)) for r, c in zip(isrst, C)]
    O = [z3.Not(z3.Or(c, r)) for c, r in zip(C, R)]
    if not level:
        # lists outside the statement: no clock at all, two clocks
        ctx.assume(C[0] if len(C) == 1 else z3.Xor(C[0], C[1]))
    bad = z3.BoolVal(False) if level or len(C) == 1 else z3.Or(O[0], O[1])
    FE = t.verror.FormatError if hasattr(t, 'verror') else None
    try:
        fl = V.analyze(ast, raw=True)
    except Exception as ex:
        if isinstance(ex, (E.Infeasible, E.Inconclusive)) or type(ex).__name__ != 'FormatError':
            if isinstance(ex, (E.Infeasible, E.Inconclusive)):
                raise
            call(ctx, 'analysis of\n%s' % text, _raise, ex)
        ctx.check(bad, lambda: 'the sensitivity list is rejected in\n%s' % show())
        return
    ctx.check(z3.Not(bad), lambda: 'a clock is mixed with another edge without being rejected in\n%s' % show())
    bs = [b for k, l in fl.binds_raw.items() if k[-1].scopename == 'y' for b in l]
    if not bs:
        ctx.fail('y has drivers in\n%s' % show())
    for b in bs:
        if level:
            ctx.check(b.isCombination() and not b.isClockEdge() and not b.getClockName() and not b.getResetName(),
                      lambda: 'the block has a clock or reset in\n%s' % show())
            continue
        ctx.check(b.isClockEdge() and not b.isCombination(), lambda: 'the block is clocked in\n%s' % show())
        for who, nm, ed, want in (('clock', b.getClockName(), b.getClockEdge(), C), ('reset', b.getResetName(), b.getResetEdge(), R)):
            for i in range(len(names)):
                is_i = nm is not None and nm is not '' and bool(same(nm, i))
                ctx.check(want[i] if is_i else z3.Not(want[i]), lambda: 'the %s is %s signal %d in\n%s' % (who, 'not' if not is_i else '', i, show()))
                if is_i:
                    ctx.check(ed == edges[i], lambda: 'edge of the %s in\n%s' % (who, show()))
            if nm is None or nm is '':
                ctx.check(ed in (None, ''), lambda: 'edge of no %s in\n%s' % (who, show()))


def _raise(ex):
    raise ex


# ---------------------------------------------------------------------------- bits
def h_bits(ctx, k):
    kc, kr = ctx.int('kc', 0, 15), ctx.int('kr', 0, 15)
    ce = ctx.choose('edge', ['posedge', 'negedge'])
    if k == 0:      # literals of every form
        base = ctx.choose('base', [10, 16, 8, 2])
        w = ctx.choose('width', [None, 4, 8])
        if w is None and base != 10:
            raise E.Infeasible()
        bit = V.emit(K(kc, w, base)) if w else V.emit(K(kc))
        rbit, rv = ctx.choose('reset bit', [('[%s]' % V.emit(K(kr)), kr), ('', 0)])
        text = ('module TOP(input [15:0] clk, input [15:0] rst, input a, output reg y);\n'
                'always @(%s clk[%s] or negedge rst%s) if(!rst%s) y <= 0; else y <= a;\nendmodule\n') % (ce, bit, rbit, rbit if rbit else '[0]')
        check(ctx, text, {'TOP.y': (('TOP.clk', ce, kc), ('TOP.rst', 'negedge', rv))})
    elif k == 1:    # parameters
        e, v = ctx.choose('expr', [('P', kc), ('P + 1', kc + 1), ('2 * P', 2 * kc), ('L', kc + kr), ('P - P', 0)])
        text = ('module TOP(input [31:0] clk, input [15:0] rst, input a, output reg y);\nparameter P = %s;\nlocalparam L = P + %s;\n'
                'always @(%s clk[%s], posedge rst[%s]) if(rst[%s]) y <= 0; else y <= a;\nendmodule\n') % (V.emit(K(kc)), V.emit(K(kr)), ce, e, V.emit(K(kr)), V.emit(K(kr)))
        check(ctx, text, {'TOP.y': (('TOP.clk', ce, v), ('TOP.rst', 'posedge', kr))})
    elif k == 2:    # overridden in each instance
        text = ('module S(input [15:0] clk, input a, output reg y);\nparameter P = 3;\nalways @(%s clk[P]) y <= a;\nendmodule\n'
                'module TOP(input [15:0] ck, input a, output y0, y1, y2);\n'
                'S #(.P(%s)) s0(.clk(ck), .a(a), .y(y0));\nS #(%s) s1(.clk(ck), .a(a), .y(y1));\nS s2(.clk(ck), .a(a), .y(y2));\nendmodule\n') % (
                    ce, V.emit(K(kc)), V.emit(K(kr)))
        check(ctx, text, {'TOP.s%d.y' % i: (('TOP.s%d.clk' % i, ce, v), None) for i, v in enumerate((kc, kr, 3))})
    elif k == 3:    # genvar
        n = ctx.choose('n', [2, 3, 4])
        e, f = ctx.choose('expr', [('i', lambda i: i), ('i+1', lambda i: i + 1), ('%d-i' % n, lambda i: n - i)])
        rst = ctx.flag('reset')
        text = ('module TOP(input [7:0] clk, input [7:0] rst, input a, output reg [7:0] y);\ngenvar i;\ngenerate for(i=0;i<%d;i=i+1) begin : g\n'
                'always @(%s clk[%s]%s) y[i] <= a;\nend endgenerate\nendmodule\n') % (n, ce, e, ' or posedge rst[i]' if rst else '')
        check(ctx, text, {'TOP.y': [(('TOP.clk', ce, f(i)), ('TOP.rst', 'posedge', i) if rst else None) for i in range(n)]})
    elif k == 4:    # several blocks with different bits of one clock
        text = ('module TOP(input [15:0] clk, input a, output reg y, output reg z, output reg w);\n'
                'always @(%s clk[%s]) y <= a;\nalways @(posedge clk) z <= a;\nalways @(negedge clk[%s]) w <= a;\nendmodule\n') % (ce, V.emit(K(kc)), V.emit(K(kr)))
        check(ctx, text, {'TOP.y': (('TOP.clk', ce, kc), None), 'TOP.z': (('TOP.clk', 'posedge', 0), None), 'TOP.w': (('TOP.clk', 'negedge', kr), None)})
    else:           # clock and reset are bits of similarly named vectors
        text = ('module TOP(input [15:0] clk_v, input [15:0] rst_v, input a, output reg [3:0] y);\n'
                'always @(negedge rst_v[%s] or %s clk_v[%s]) begin\n if(!rst_v[%s]) begin y[1:0] <= 0; y[3:2] <= 3; end else y <= {4{a}};\nend\nendmodule\n') % (
                    V.emit(K(kr, 4, 16)), ce, V.emit(K(kc)), V.emit(K(kr)))
        check(ctx, text, {'TOP.y': (('TOP.clk_v', ce, kc), ('TOP.rst_v', 'negedge', kr))})


# ---------------------------------------------------------------------------- blocks without edges
def h_level(ctx):
    kind = ctx.choose('kind', ['always', 'always_comb', 'always_latch'])
    names = ctx.choose('names', [('clk', 'a', 'rst'), ('clk_sel', 'a', 'b'), ('reset', 'clock_en', 'b'), ('a', 'b', 'c')])
    x, y, z = names
    form = ctx.choose('form', ['@*', '@(*)', '@(%s)' % x, '@(%s or %s)' % (x, y), '@(%s, %s, %s)' % names, '@(%s[1] or %s)' % (x, y), '@(%s[1:0], %s)' % (x, z),
                               '@%s' % x, ''])
    if form == '' and kind == 'always':
        raise E.Infeasible()
    body = ctx.choose('body', ['q = %s[0];' % x, 'if(%s[0]) q = %s[0]; else q = %s[1];' % names, 'begin : n\n q = 0;\n if(%s[1]) q = %s;\n end' % (z, V.emit(K(ctx.int('k', 0, 1), 1)))])
    text = 'module TOP(input [1:0] %s, input [1:0] %s, input [1:0] %s, output reg q);\n%s %s %s\nendmodule\n' % (x, y, z, kind, form, body)
    check(ctx, text, {'TOP.q': (None, None)})


# ---------------------------------------------------------------------------- lists that are no clock/reset list
def h_reject(ctx, k):
    es = [[('clk', 'posedge'), ('d', 'posedge')], [('d', 'negedge'), ('clock', 'posedge')], [('clk', 'negedge'), ('rst', 'negedge'), ('d', 'posedge')],
          [('clk', 'posedge'), ('d[1]', 'posedge')], [('d', 'posedge'), ('rst', 'posedge'), ('clk', 'posedge')]][k]
    sep = ctx.choose('sep', [' or ', ', '])
    nm = sorted(set(re.sub(r'\[.*', '', n) for n, e in es))
    text = 'module TOP(%s, output reg y, input a);\nalways %s y <= a;\nendmodule\n' % (', '.join('input [1:0] ' + n for n in nm), sens(es, sep))
    ctx.note(text)
    try:
        V.analyze(text)
    except Exception as ex:
        if isinstance(ex, (E.Infeasible, E.Inconclusive)):
            raise
        ctx.check(type(ex).__name__ == 'FormatError', 'the list is rejected with %r in\n%s' % (ex, text))
        return
    ctx.fail('a clock mixed with another edge signal is accepted in\n%s' % text)


# ---------------------------------------------------------------------------- every driver of the block
def h_body(ctx, k):
    ce = ctx.choose('edge', ['posedge', 'negedge'])
    re_ = ctx.choose('reset', [None, 'negedge'])
    c = [V.emit(K(ctx.int('k%d' % i, 0, 3), 2)) for i in range(3)]
    clk, rst = ('TOP.clk', ce, 0), re_ and ('TOP.rst', re_, 0)
    d, fn = '', ''
    if k == 0:
        b = 'if(a == %s) begin if(b == %s) y <= a; else z <= b; end else begin y <= b; w[0] <= 1; end' % (c[0], c[1])
    elif k == 1:
        b = 'case(a) %s: y <= b; %s: begin z <= a; w <= 0; end default: begin y <= 0; end endcase' % (c[0], c[1])
    elif k == 2:
        b = 'for(i=0;i<2;i=i+1) begin y[i] <= a[i]; z[i] <= b[1-i]; end\n w <= %s;' % c[0]
        d = 'integer i;'
    elif k == 3:
        b = '{y, z} <= {a, b} + %s;\n if(a[0]) w <= b;' % c[0]
    elif k == 4:
        b = 'begin : blk\n reg [1:0] t;\n t = a + %s;\n y = t; begin : inner z = t ^ b; end w <= z; end' % c[0]
    elif k == 5:
        b = 'y = a;\n if(b == %s) y = z;\n z <= y;\n w <= y + z;' % c[0]
    elif k == 6:
        b = 'y <= f(a);\n if(f(b) == %s) z <= f(f(a));\n w <= b;' % c[0]
        fn = 'function [1:0] f; input [1:0] x; begin if(x == %s) f = 0; else f = x; end endfunction' % c[1]
    elif k == 7:
        b = 'mem[a] <= b;\n y <= mem[b];\n z[1] <= a[0]; z[0] <= a[1]; w <= %s;' % c[0]
        d = 'reg [1:0] mem [0:3];'
    elif k == 8:
        b = 'casez(a) 2\'b1?: y <= b; default: if(b[0]) begin z[%s] <= 1; end else casex(b) 2\'bx1: w <= a; default: y <= 1; endcase endcase' % c[0]
    elif k == 9:
        b = 'if(a[0]) if(a[1]) if(b[0]) if(b[1]) y <= 1; else z <= 1; else w <= 1; else y <= 2; else begin z <= %s; w <= %s; end' % (c[0], c[1])
    else:
        b = 'if(a[0]) begin end\n else begin : l1 begin : l2 begin : l3 y <= %s; end z <= 1; end w <= 2; end' % c[0]
    text = ('module TOP(input clk, input rst, input [1:0] a, input [1:0] b, output reg [1:0] y, output reg [1:0] z, output reg [1:0] w);\n%s\n%s\n'
            'always @(%s clk%s) begin\n%s\nend\nendmodule\n') % (d, fn, ce, ' or %s rst' % re_ if re_ else '', b)
    want = {}
    for n in 'yzw':
        if re.search(r'\b%s\b[^;=]*(<=|=)' % n, b):
            want['TOP.' + n] = (clk, rst)
    if k == 7:
        want['TOP.mem'] = (clk, rst)
    # emission of memories and trees is the business of C16: here only its sensitivity
    check(ctx, text, want)


# ---------------------------------------------------------------------------- several blocks, instances, generate constructs
def h_many(ctx, k):
    ce = ctx.choose('edge', ['posedge', 'negedge'])
    oe = 'negedge' if ce == 'posedge' else 'posedge'
    K1 = V.emit(K(ctx.int('k', 0, 3), 2))
    if k == 0:      # six blocks in any order
        order = ctx.choose('order', [(0, 1, 2, 3, 4, 5), (3, 0, 5, 1, 4, 2), (5, 4, 3, 2, 1, 0)])
        B = ['always @(%s clk_a) y0 <= a;' % ce, 'always @(%s clk_b or negedge rst) if(!rst) y1 <= %s; else y1 <= a;' % (ce, K1), 'always @* y2 = a;',
             'always @(clk_a or a) y3 = clk_a & a;', 'always @(posedge rst2 or %s clk_a) y4 <= rst2 ? 0 : a;' % oe, 'assign y5 = clk_b;']
        t = 'module TOP(input clk_a, clk_b, rst, rst2, a, output reg [1:0] y0, y1, y2, y3, y4, output y5);\n%s\nendmodule\n' % '\n'.join(B[i] for i in order)
        t = t.replace('input clk_a, clk_b, rst, rst2, a, output reg [1:0] y0, y1, y2, y3, y4, output y5',
                      'input clk_a, input clk_b, input rst, input rst2, input a, ' + ', '.join('output reg [1:0] y%d' % i for i in range(5)) + ', output y5')
        fl = check(ctx, t, {'TOP.y0': (('TOP.clk_a', ce, 0), None), 'TOP.y1': (('TOP.clk_b', ce, 0), ('TOP.rst', 'negedge', 0)), 'TOP.y2': (None, None),
                            'TOP.y3': (None, None), 'TOP.y4': (('TOP.clk_a', oe, 0), ('TOP.rst2', 'posedge', 0))})
        ctx.check(fl.binds['TOP.y5'][0].isCombination() and not fl.binds['TOP.y5'][0].isClockEdge(), 'assign is combinational in\n' + t)
    elif k == 1:    # instances: the clock of each is its own port
        t = ('module L(input clk, input rst_n, input d, output reg q);\nalways @(%s clk or negedge rst_n) if(!rst_n) q <= 0; else q <= d;\nendmodule\n'
             'module M(input ck, input rn, input d, output q, output reg r);\nL l0(ck, rn, d, q);\nwire mclk = !ck;\nalways @(%s mclk) r <= d;\nendmodule\n'
             'module TOP(input x, input y, input d, output q0, output q1, output r0, output r1);\nM m0(x, y, d, q0, r0);\nM m1(.ck(y), .rn(x), .d(d), .q(q1), .r(r1));\nendmodule\n') % (ce, oe)
        w = {}
        for m in ('m0', 'm1'):
            w['TOP.%s.l0.q' % m] = (('TOP.%s.l0.clk' % m, ce, 0), ('TOP.%s.l0.rst_n' % m, 'negedge', 0))
            w['TOP.%s.r' % m] = (('TOP.%s.mclk' % m, oe, 0), None)
        check(ctx, t, w)
    elif k == 2:    # local clocks of generate iterations shadow nothing and are their own
        n = ctx.choose('n', [1, 3])
        t = ('module TOP(input [3:0] c, input d, input clk, output [3:0] q, output reg z);\ngenvar i;\ngenerate for(i=0;i<%d;i=i+1) begin : g\n'
             'wire lclk;\nassign lclk = c[i];\nreg r;\nalways @(%s lclk) r <= d;\nreg s;\nalways @(%s clk) s <= r;\nassign q[i] = s;\nend endgenerate\n'
             'always @(posedge clk) z <= d;\nendmodule\n') % (n, ce, oe)
        w = {'TOP.z': (('TOP.clk', 'posedge', 0), None)}
        fl = check(ctx, t, w, emit=False)
        for sig, cl, e in (('r', 'lclk', ce), ('s', None, oe)):
            found = [x for x in fl.binds if x.startswith('TOP.') and x.endswith('.' + sig)]
            ctx.check(len(found) == n, '%d registers %s (%s) in\n%s' % (n, sig, found, t))
            for x in found:
                for b in fl.binds[x]:
                    info(ctx, x, b, (x[:-1] + cl if cl else 'TOP.clk', e, 0), None, t, emit=False)
    elif k == 3:    # a block-local clock hides the outer one
        t = ('module TOP(input clk, input d, output reg z);\ngenerate if(1) begin : g\nwire clk;\nassign clk = d;\nreg r;\nalways @(%s clk) r <= d;\nend endgenerate\n'
             'always @(%s clk) z <= d;\nendmodule\n') % (ce, oe)
        fl = check(ctx, t, {'TOP.z': (('TOP.clk', oe, 0), None)})
        found = [x for x in fl.binds if x.endswith('.r')]
        ctx.check(len(found) == 1, 'one register r (%s) in\n%s' % (found, t))
        for b in fl.binds[found[0]]:
            info(ctx, found[0], b, (found[0][:-1] + 'clk', ce, 0), None, t, emit=False)
    elif k == 4:    # generate if selects the edge
        p = ctx.int('p', 0, 1)
        t = ('module TOP(input clk, input rst, input d, output reg z);\nparameter P = %s;\ngenerate if(P == 1) begin : g\nalways @(posedge clk) z <= d;\nend else begin : h\n'
             'always @(negedge clk or posedge rst) if(rst) z <= 0; else z <= d;\nend endgenerate\nendmodule\n') % V.emit(K(p))
        one = ctx.branch(eq(p, 1)) if ctx.symbolic else int(p) == 1
        check(ctx, t, {'TOP.z': (('TOP.clk', 'posedge', 0), None) if one else (('TOP.clk', 'negedge', 0), ('TOP.rst', 'posedge', 0))})
    elif k == 5:    # one signal driven by blocks of different clocks, part by part
        t = ('module TOP(input clk1, input clk2, input rst, input [3:0] a, output reg [3:0] y);\nalways @(%s clk1) y[0] <= a[0];\n'
             'always @(%s clk2 or posedge rst) if(rst) y[1] <= 0; else y[1] <= a[1];\nalways @(*) y[2] = a[2];\nalways @(%s clk2) y[3] <= a[3];\nendmodule\n') % (ce, oe, ce)
        check(ctx, t, {'TOP.y': [(('TOP.clk1', ce, 0), None), (('TOP.clk2', oe, 0), ('TOP.rst', 'posedge', 0)), (None, None), (('TOP.clk2', ce, 0), None)]})
    elif k == 6:    # named block, then another block: information does not leak
        t = ('module TOP(input clk, input rst, input [1:0] a, output reg [1:0] y, output reg [1:0] z, output [1:0] w);\n'
             'always @(%s clk or posedge rst) begin : seq\n if(rst) y <= %s; else begin : deep y <= a; end\nend\n'
             'always @(a or y) begin : comb\n z = a;\n if(y[0]) z = y;\nend\nassign w = y;\nendmodule\n') % (ce, K1)
        check(ctx, t, {'TOP.y': (('TOP.clk', ce, 0), ('TOP.rst', 'posedge', 0)), 'TOP.z': (None, None)})
    elif k == 7:    # instances inside a generate loop, array of instances
        t = ('module L(input clk, input d, output reg q);\nalways @(%s clk) q <= d;\nendmodule\n'
             'module TOP(input [3:0] c, input d, output [3:0] q, output [3:0] p);\ngenvar i;\ngenerate for(i=0;i<3;i=i+1) begin : g\nL l(c[i], d, q[i]);\nend endgenerate\n'
             'L arr [1:0] (.clk(c[1:0]), .d(d), .q(p[1:0]));\nendmodule\n') % ce
        ctx.note(t)
        fl = call(ctx, 'analysis of\n' + t, V.analyze, t)
        found = [n for n in fl.binds if n.endswith('.q') and n != 'TOP.q']
        ctx.check(len(found) == 5, 'five registers (%s) in\n%s' % (found, t))
        for n in found:
            for b in fl.binds[n]:
                info(ctx, n, b, (n[:-1] + 'clk', ce, 0), None, t, emit=False)
    else:           # the clock is an output, a register, an integer-like vector, declared after use
        d = ctx.choose('decl', ['output clk_o', 'output reg clk_o', 'output [1:0] clk_o'])
        t = ('module TOP(input a, %s, output reg y, output reg x);\nalways @(%s clk_o) y <= a;\nalways @(%s iclk, posedge irst) if(irst) x <= 0; else x <= a;\n'
             'reg iclk;\nwire irst;\nassign irst = a;\nendmodule\n') % (d, ce, oe)
        check(ctx, t, {'TOP.y': (('TOP.clk_o', ce, 0), None), 'TOP.x': (('TOP.iclk', oe, 0), ('TOP.irst', 'posedge', 0))})
