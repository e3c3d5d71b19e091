"""C21: syntax-tree nodes carry the source line of their construct.
Real code: pyverilog/vparser/{parser,ast}.py; in the texts jobs also lexer.py.
The parser is fed with token strings built from its own productions (checks/c04.py Grammar); the line of every token is a symbolic number, not smaller
than that of the token before it, so one run stands for every layout of line breaks.  The production actions are watched (not changed): a node belongs to
the smallest production, with at least one token, whose value contains it when it is first seen."""
import os
import sys
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import engine as E, target, vlog as V, symstr as S, astx
from sx.lexsym import symlex
from sx.runner import call
import c03
import c04

BOUNDS = {
    'quick': 'every production of the grammar in every place of every other production (one representative of the operators where an expression stands), '
             'the rest of the program minimal; every non-decreasing assignment of lines to the tokens; texts with a symbolic separator (blank or line break) between all tokens',
    'thorough': 'as quick with third productions in every small place'}
OUTSIDE = 'nodes made by the user; the line shifts of preprocessing (C24 covers which file is read); comments (C01)'
ASSUMPTIONS = []


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    g = c04.grammar()
    out = []
    for k, (l, r) in enumerate(g.all):
        if g.places((l, r)):
            out.append(dict(id='rule-%03d-%s' % (k, l), h='h_rules', p=dict(rule=[l, list(r)]), max_paths=1000000, all_cex=bool(os.environ.get('ALLCEX'))))
    for i in range(len(TEXTS)):
        out.append(dict(id='text-%d' % i, h='h_text', p=dict(i=i), max_paths=100000))
    return out


class Toks(object):
    def __init__(self, toks, lines):
        self.toks, self.lines, self.i, self.lineno = toks, lines, 0, 1

    def input(self, text): pass

    def token(self):
        if self.i >= len(self.toks):
            return None
        from ply.lex import LexToken
        t = LexToken()
        t.type, t.value = self.toks[self.i]
        t.lineno, t.lexpos, t.span = self.lines[self.i], self.i, (self.i, self.i)
        self.i += 1
        return t


def inside(x, seen, out):
    """nodes of a value that were not seen before"""
    if isinstance(x, (list, tuple)):
        for y in x:
            inside(y, seen, out)
    elif astx.isnode(x):
        if id(x) in seen:
            return
        out.append(x)
        for k, y in sorted(vars(x).items()):
            inside(y, seen, out)


class Watch(object):
    """notes which production each node comes from"""

    def __init__(self, parser):
        self.parser = parser
        self.seen, self.nodes = set(), []

    def __enter__(self):
        self.old = [(pr, pr.callable) for pr in self.parser.productions if getattr(pr, 'callable', None)]
        for pr, f in self.old:
            pr.callable = self.wrap(f, pr)
        return self

    def __exit__(self, *a):
        for pr, f in self.old:
            pr.callable = f

    def wrap(self, f, pr):
        def action(p):
            spans = [s.span for s in p.slice[1:] if getattr(s, 'span', None)]
            p.slice[0].span = span = (min(s[0] for s in spans), max(s[1] for s in spans)) if spans else None
            f(p)
            if span:
                new = []
                inside(p.slice[0].value, self.seen, new)
                for n in new:
                    if id(n) not in self.seen:
                        self.seen.add(id(n))
                        self.nodes.append((n, span, pr.str if hasattr(pr, 'str') else str(pr)))
        return action


def z(x):
    return x.t if isinstance(x, E.SymBool) else z3.BoolVal(bool(x))


def judge(ctx, nodes, lines, shown):
    def wrong(n, span):
        lo, hi = lines[span[0]], lines[span[1]]
        yield 'lineno', z(n.lineno >= lo), z(n.lineno <= hi)
        if hasattr(n, 'end_lineno'):
            yield 'end_lineno', z(n.end_lineno >= lo), z(n.end_lineno == hi)
    conds = {}
    for n, span, rule in nodes:
        key = (id(n.lineno), id(getattr(n, 'end_lineno', None)), span)
        if type(n).__name__ == 'Paramlist' and not n.params and type(n.lineno) is int and n.lineno == 0:
            continue    # an omitted parameter list has no line
        if key not in conds:
            conds[key] = [c for _, a, b in wrong(n, span) for c in (a, b)]
    ctx.check(z3.And([c for cs in conds.values() for c in cs]),
              lambda: 'line numbers in %s: %s' % (shown(), blame(ctx, nodes, lines, wrong)))


def blame(ctx, nodes, lines, wrong):
    out = []
    for n, span, rule in nodes:
        for what, a, b in wrong(n, span):
            s = z3.Solver()
            s.add(z3.Not(z3.And(a, b)))
            for x, y in zip(lines, lines[1:]):
                s.add(z(x <= y))
            s.add(z(lines[0] >= 1))
            if s.check() == z3.sat:
                out.append('%s of %s is not that of tokens %d..%d (%s): %s' % (what, type(n).__name__, span[0], span[1], rule, getattr(n, what)))
    return '; '.join(out[:4])


def h_rules(ctx, rule):
    t = target.load()
    g = c04.grammar()
    prod = (rule[0], tuple(rule[1]))
    quick = ctx.tier == 'quick'
    i = ctx.choose('place', g.places(prod))
    alts = c04.some(g.alts[prod[1][i]], quick)
    q = alts[ctx.choose('alternative', list(range(len(alts))))]
    subs = {}
    if q[0] != 'expression':
        places = [j for j in g.places(q) if len(g.alts[q[1][j]]) <= (3 if quick else 12)]
        j = ctx.choose('place2', [-1] + places)
        if j >= 0:
            alts2 = c04.some(g.alts[q[1][j]], quick)
            subs = {j: g.text(alts2[ctx.choose('alternative2', list(range(len(alts2))))], {})}
    kinds = g.program(prod, g.text(prod, {i: g.text(q, subs)}))
    p = V.setup_parser()
    lines, prev = [], None
    for st in c04.SIGTYPES if 'SIGTYPES' in kinds else [[]]:
        toks = []
        for k, x in enumerate(kinds):
            toks += [(y, c04.WORD[y]) for y in st] if x == 'SIGTYPES' else [(x, spelling(x, k))]
        while len(lines) < len(toks):
            lines.append(ctx.int('line%d' % len(lines), 0, 127))
        ctx.assume(z3.And([z(lines[0] >= 1)] + [z(a <= b) for a, b in zip(lines, lines[1:])]))
        shown = lambda: ' '.join(x for k, x in toks)
        p.lexer.directives = []
        p.lexer.default_nettype = 'wire'
        try:
            nodes = parse(p, toks, lines)
        except t.vparser.ParseError:
            continue
        ctx.note(shown)
        return judge(ctx, nodes, lines, shown)
    raise E.Infeasible()


def spelling(kind, k):
    if kind == 'ID':
        return 'n%d' % k
    if kind == 'STRING_LITERAL':
        return '"s"'
    if kind == 'FLOATNUMBER':
        return '1.5'
    if 'INTNUMBER' in kind:
        return {'DEC': '12', 'BIN': "4'b01", 'OCT': "4'o7", 'HEX': "8'hf"}[kind[-3:]] if not kind.startswith('SIGNED') else {'DEC': "4'sd1", 'BIN': "4'sb01", 'OCT': "4'so7", 'HEX': "8'shf"}[kind[-3:]]
    return c04.WORD[kind]


class Source(object):
    """stands in for the lexer below the parser's parse method"""

    def __init__(self, real, toks):
        self.real, self.t = real, toks

    def __getattr__(self, k):
        return getattr(self.real, k)

    def reset_lineno(self): pass

    def input(self, text): pass

    def token(self):
        return self.t.token()


def parse(p, toks, lines):
    """through the parser's own entry point"""
    old = p.lexer
    p.lexer = Source(old, Toks(toks, lines))
    try:
        with V.quiet(), Watch(p.parser) as w:
            p.parse('')
        return w.nodes
    finally:
        p.lexer = old


TEXTS = ['module m ( a , b ) ; input a ; output b ; assign b = ~ a ; endmodule',
         'module m ; reg [ 3 : 0 ] r ; always @ ( posedge c ) if ( x ) r <= r + 1 ; else begin r <= 0 ; end endmodule',
         'module m ; sub # ( 2 ) u ( . a ( x ) , . b ( y ) ) ; endmodule',
         'module m ; initial begin a = 1 ; # 3 ; b = 2 ; end endmodule',
         'module m ; always case ( s ) 0 : a = 1 ; default : a = 2 ; endcase endmodule',
         'module m ; generate for ( i = 0 ; i < 2 ; i = i + 1 ) begin : g wire w ; end endgenerate endmodule']


def h_text(ctx, i):
    """the lines the lexer counts: blanks or line breaks between the tokens"""
    p = V.setup_parser()
    words = TEXTS[i].split(' ')
    # two places after each other may hold line breaks, anywhere
    first = ctx.choose('from', list(range(0, len(words) - 1)))
    n = 4
    cs, line, lines = [], 1, []
    for k, x in enumerate(words):
        if k:
            if first <= k - 1 < first + n:
                c = ctx.byte('sep%d' % k)
                ctx.assume(S.inset(c, ' \n'))
                cs.append(c)
                line = line + E.sym_ite(E.mkbool(c == 10) if z3.is_expr(c) else c == 10, 1, 0)
            else:
                cs.append(32 if k % 5 else 10)
                line = line + (0 if k % 5 else 1)
        lines.append(line)
        cs += [ord(y) for y in x]
    text = S.mkstr(cs) if ctx.symbolic else ''.join(chr(c) for c in cs)
    lx = p.lexer
    lx.directives = []
    real = lx.token

    class Numbered(Source):
        k = 0

        def input(self, t): lx.input(t)

        def reset_lineno(self): lx.reset_lineno()

        def token(self):
            t = real()
            if t is not None:
                t.span = (self.k, self.k)
                self.k += 1
            return t
    p.lexer = Numbered(lx, None)
    lx.reset_lineno()
    try:
        with V.quiet(), Watch(p.parser) as w:
            if S.is_sym(text):
                with symlex(lx):
                    call(ctx, 'parse', lambda: p.parse(text))
            else:
                call(ctx, 'parse', lambda: p.parse(text))
    finally:
        p.lexer = lx
    judge(ctx, w.nodes, lines, lambda: repr(text))
