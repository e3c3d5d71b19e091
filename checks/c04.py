"""C04: generated Verilog parses back to the same tree.
Real code: pyverilog/ast_code_generator/codegen.py with its jinja2 templates, pyverilog/utils/op2mark.py, pyverilog/vparser/{lexer,parser,ast}.py.
Trees come from the real parser: the token strings it is given are built from the productions of its own grammar (every production in every place
another production has for it, and chains of three), and the characters of names, numbers and strings are symbolic all the way: through the
syntax tree, the code generator, the templates, the generated text, the real lexer and the second tree."""
import os
import sys
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sx import engine as E, target, vlog as V, symstr as S, astx
from sx.lexsym import symlex
from sx.runner import call
import c03
import c05

BOUNDS = {
    'quick': 'every production of the grammar in every place of every other production (the rest of the program minimal), and every production in every place of those outside expressions; 30 forms of expressions of up to 11 tokens with every choice of operators; '
             'names, digits and strings with symbolic characters (strings 2, escaped names 1 of printable ASCII)',
    'thorough': 'as quick with all chains of three productions, and longer expression forms; strings of 3 and escaped names of 2 arbitrary characters'}
OUTSIDE = 'trees the parser cannot produce; EmbeddedCode; comments and white space of the original text'
ASSUMPTIONS = []


def setup(symbolic):
    V.setup_parser()


# ---------------------------------------------------------------------------- the grammar of the real parser
class Grammar(object):
    PENALTY = {'event_statement': 30, 'single_statement': 12, 'disable': 5, 'pragma': 60}

    def __init__(self):
        p = V.setup_parser()
        self.prods = {}
        self.all = []
        for x in p.parser.productions:
            lhs, _, rhs = x.str.partition(' -> ')
            rhs = tuple(s for s in rhs.split() if s != '<empty>')
            if lhs == "S'":
                continue
            if (lhs, rhs) not in self.all:
                self.all.append((lhs, rhs))
                self.prods.setdefault(lhs, []).append(rhs)
        self.start = self.all[0][0]
        cost, best = {}, {}
        while True:
            ch = False
            for l, r in self.all:
                c = sum(cost.get(s, 10 ** 6) if s in self.prods else 1 for s in r) + self.PENALTY.get(l, 0)
                if c < cost.get(l, 10 ** 6):
                    cost[l], best[l] = c, r
                    ch = True
            if not ch:
                break
        self.cost, self.best = cost, best
        # the cheapest surroundings of every nonterminal
        self.ctxt = {self.start: ((), ())}
        w = {self.start: 0}
        while True:
            ch = False
            for l, r in self.all:
                if l not in w:
                    continue
                for i, s in enumerate(r):
                    if s in self.prods:
                        c = w[l] + sum(self.weigh(x) for j, x in enumerate(r) if j != i) + 1 + self.PENALTY.get(l, 0) / 2
                        if c < w.get(s, 10 ** 6):
                            pre = self.ctxt[l][0] + tuple(t for x in r[:i] for t in self.minimal(x))
                            post = tuple(t for x in r[i + 1:] for t in self.minimal(x)) + self.ctxt[l][1]
                            w[s], self.ctxt[s] = c, (pre, post)
                            ch = True
            if not ch:
                break
        self.alts = {x: self.closure(x, set()) for x in self.prods}

    def weigh(self, x): return self.cost[x] if x in self.prods else 1

    def minimal(self, x):
        if x not in self.prods:
            return (x,)
        if x == 'sigtypes':
            return ('SIGTYPES',)
        return tuple(t for s in self.best[x] for t in self.minimal(s))

    def closure(self, x, seen):
        """productions for x, through productions that only rename"""
        out = []
        seen.add(x)
        for r in self.prods[x]:
            if len(r) == 1 and r[0] in self.prods:
                if r[0] not in seen:
                    out += [q for q in self.closure(r[0], seen) if q not in out]
            elif (x, r) not in out:
                out.append((x, r))
        return out

    def places(self, prod):
        return [i for i, s in enumerate(prod[1]) if s in self.prods and (len(self.alts[s]) > 1 or True)]

    def text(self, prod, subs):
        """tokens of a production with some places filled in"""
        out = []
        for i, s in enumerate(prod[1]):
            out += list(subs[i]) if i in subs else list(self.minimal(s))
        return out

    def program(self, prod, toks):
        pre, post = self.ctxt[prod[0]]
        return list(pre) + list(toks) + list(post)


_G = None


def grammar():
    global _G
    if _G is None:
        _G = Grammar()
    return _G


def some(alts, quick):
    """representatives: one binary and one unary operator (all pairs of operators are the business of h_form), some numbers"""
    out = []
    for a in alts:
        if a[0] == 'expression' and not (a[1] in (('MINUS', 'expression'), ('expression', 'PLUS', 'expression'), ('expression', 'LE', 'expression'), ('LPAREN', 'expression', 'RPAREN')) or 'COND' in a[1]):
            continue
        if a[0] == 'intnumber' and a[1][0] not in ('INTNUMBER_DEC', 'SIGNED_INTNUMBER_HEX'):
            continue
        out.append(a)
    return out


def jobs(tier):
    q = tier == 'quick'
    g = grammar()
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p, max_paths=1000000, all_cex=bool(os.environ.get('ALLCEX'))))
    for k, (l, r) in enumerate(g.all):
        if g.places((l, r)):
            add('rule-%03d-%s' % (k, l), 'h_rules', rule=[l, list(r)])
    for f in c03.PATTERNS['quick'] + ([] if q else c03.PATTERNS['thorough']):
        add('form-%s' % f.replace('O', 'I'), 'h_form', pattern=f.replace('O', 'I'))
    for i in range(8):
        add('texts-%d' % i, 'h_texts', part=i, n=2 if q else 3)
    return out


# ---------------------------------------------------------------------------- tokens with symbolic characters
def printable(ctx, nm, without=''):
    c = ctx.byte(nm)
    ctx.assume(S.inset(c, ''.join(chr(i) for i in range(33, 127) if chr(i) not in without)))
    return c


def digit(ctx, nm, chars):
    c = ctx.byte(nm)
    ctx.assume(S.inset(c, chars))
    return c


def join(ctx, parts):
    cs = []
    for p in parts:
        cs += [ord(x) for x in p] if isinstance(p, str) else [p]
    return S.mkstr(cs) if ctx.symbolic else ''.join(chr(c) for c in cs)


DIGITS = {'DEC': '0123456789', 'BIN': '01xz', 'OCT': '01234567xz', 'HEX': '0123456789abcdefABCDEFxz'}
# what reserved words and operators look like
WORD = {v: k for k, v in [(w, w.upper()) for w in ('module endmodule begin end generate endgenerate genvar function endfunction task endtask input inout output tri reg logic wire integer real signed parameter localparam supply0 supply1 '
        'assign always always_ff always_comb always_latch posedge negedge initial if else for while case casex casez unique endcase default wait forever disable fork join').split()] + [('or', 'SENS_OR')]}
WORD.update(c03.TEXT)


def token(ctx, kind, k, style, n=2):
    """text of the k-th token"""
    if kind == 'ID':
        if style == 'escaped':
            return join(ctx, ['\\'] + [printable(ctx, 'e%d_%d' % (k, i)) for i in range(n - 1)] + [str(k)])
        return join(ctx, [digit(ctx, 'n%d' % k, 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'), str(k)])
    if kind == 'STRING_LITERAL':
        cs = []
        for i in range(n):
            c = ctx.byte('s%d_%d' % (k, i))
            ctx.assume(S.inset(c, ''.join(chr(i) for i in range(32, 127) if chr(i) not in '"\\')))
            cs.append(c)
        return join(ctx, ['"'] + cs + ['"'])
    if kind == 'FLOATNUMBER':
        return join(ctx, [digit(ctx, 'd%d' % k, '0123456789'), '.', digit(ctx, 'f%d' % k, '0123456789')])
    if 'INTNUMBER' in kind:
        b = kind[-3:]
        d = digit(ctx, 'd%d' % k, DIGITS[b])
        s = 's' if kind.startswith('SIGNED') else ''
        if b == 'DEC' and not s:
            return join(ctx, [d, '7'])
        return join(ctx, ["12'", s, {'DEC': 'd', 'BIN': 'b', 'OCT': 'o', 'HEX': 'h'}[b], d, '1'])
    return WORD[kind]


class Toks(c03.Lexer):
    pass


def same(a, b):
    """z3: the two trees are the same, apart from line numbers and from which declarations are gathered in one Decl (`wire a, b;` or `wire a; wire b;`)"""
    if astx.isnode(a) or astx.isnode(b):
        v = target.load().vast
        if type(a) is v.Decl and type(b) is v.Block and b.scope is None:
            # several declarations under a generate condition need a block
            return same([a], b.statements)
        if type(a) is not type(b):
            return z3.BoolVal(False)
        x, y = dict(astx.attrs(a)), dict(astx.attrs(b))
        return z3.And([z3.BoolVal(set(x) == set(y))] + [same(x[k], y[k]) for k in x if k in y])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        a, b = ungathered(a), ungathered(b)
        return z3.And([z3.BoolVal(len(a) == len(b))] + [same(p, q) for p, q in zip(a, b)])
    return c05.same(a, b)


def ungathered(items):
    out = []
    for x in items:
        out += ungathered(x.list) if type(x) is target.load().vast.Decl else [x]
    return out


def again(e):
    raise e


# what stands where any kind of declaration may: the first that the parser's own rules about them allow
SIGTYPES = [['INPUT'], ['WIRE'], ['REG']]


def round_trip(ctx, kinds, escaped=None, n=2):
    t = target.load()
    texts = [None if x == 'SIGTYPES' else token(ctx, x, k, 'escaped' if k == escaped else 'plain', n) for k, x in enumerate(kinds)]
    p = V.setup_parser()
    for st in SIGTYPES if 'SIGTYPES' in kinds else [[]]:
        toks = []
        for k, x in zip(kinds, texts):
            toks += [(y, WORD[y]) for y in st] if k == 'SIGTYPES' else [(k, x)]
        shown = lambda: ' '.join(plain(x) for k, x in toks)
        p.lexer.directives = []
        p.lexer.default_nettype = 'wire'
        with V.quiet():
            try:
                first = p.parser.parse('', lexer=Toks(toks))
            except t.vparser.ParseError:
                continue
            except Exception as e:
                call(ctx, lambda: 'parsing of %s' % shown(), again, e)
        ctx.note(shown)
        return check_tree(ctx, first, shown)
    raise E.Infeasible()


def check_tree(ctx, first, shown):
    t = target.load()
    p = V.setup_parser()
    text = call(ctx, lambda: 'code generation for %s' % shown(), lambda: t.codegen.ASTCodeGenerator().visit(first))
    lx = p.lexer
    lx.reset_lineno()
    lx.directives = []
    lx.default_nettype = 'wire'
    try:
        with V.quiet():
            if S.is_sym(text):
                with symlex(lx):
                    second = call(ctx, lambda: 'parsing of the generated %s' % flat(text), lambda: p.parser.parse(text, lexer=lx))
            else:
                second = call(ctx, lambda: 'parsing of the generated %s' % flat(text), lambda: p.parser.parse(text, lexer=lx))
    finally:
        lx.directives = []
    ctx.check(same(first, second), lambda: 'the tree of\n%s\nis generated as\n%s\nwhich is another tree: %s' % (shown(), plain(text), diff(first, second)))


def plain(x):
    """for messages: unknown characters are not looked at"""
    return repr(x) if S.is_sym(x) else str(x)


def flat(text):
    return ' '.join(plain(text).split())


def diff(a, b, where='tree'):
    if astx.isnode(a) and astx.isnode(b) and type(a) is type(b):
        x, y = dict(astx.attrs(a)), dict(astx.attrs(b))
        for k in x:
            if k in y and not z3.is_true(z3.simplify(same(x[k], y[k]))):
                return diff(x[k], y[k], where + '.' + k)
        return where
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        a, b = ungathered(a), ungathered(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if not z3.is_true(z3.simplify(same(p, q))):
                return diff(p, q, '%s[%d]' % (where, i))
    return '%s: %s / %s' % (where, c05.show(a), c05.show(b))


def spelled(ctx, kinds, style='plain', n=2):
    return [token(ctx, k, i, style, n) for i, k in enumerate(kinds)]


def h_rules(ctx, rule):
    g = grammar()
    prod = (rule[0], tuple(rule[1]))
    quick = ctx.tier == 'quick'
    i = ctx.choose('place', g.places(prod))
    alts = some(g.alts[prod[1][i]], quick)
    q = alts[ctx.choose('alternative', list(range(len(alts))))]
    subs = {}
    if q[0] != 'expression':
        # a third production
        places = [j for j in g.places(q) if not quick or len(g.alts[q[1][j]]) <= 12]
        j = ctx.choose('place2', [-1] + places)
        if j >= 0:
            alts2 = some(g.alts[q[1][j]], quick)
            subs = {j: g.text(alts2[ctx.choose('alternative2', list(range(len(alts2))))], {})}
    kinds = g.program(prod, g.text(prod, {i: g.text(q, subs)}))
    round_trip(ctx, kinds)


def h_form(ctx, pattern):
    """the operators are symbolic token kinds, as in C03"""
    t = target.load()
    pre, post, where = c03.CONTEXTS['assign']
    n = len(pattern)
    abs_ = [c03.CLASS[c] for c in pattern]
    vs = [ctx.int('t%d' % i, 0, len(abs_[i]) - 1) if len(abs_[i]) > 1 else 0 for i in range(n)]
    p = V.setup_parser()
    names = spelled(ctx, ['ID' if abs_[i] == ['ID'] else 'SEMICOLON' for i in range(n)])
    if ctx.symbolic:
        kinds = [c03.Kind(ctx, v, abs_[i]) for i, v in enumerate(vs)]
        toks = c03.fixed(pre) + list(zip(kinds, names)) + c03.fixed(post)
        old = p.parser.action
        if id(old) not in c03.ROWS:
            c03.ROWS[id(old)] = (old, {s: c03.Row(d) for s, d in old.items()} if isinstance(old, dict) else [c03.Row(d) for d in old])
        p.parser.action = c03.ROWS[id(old)][1]
    else:
        toks = c03.fixed(pre) + [(abs_[i][v], names[i]) for i, v in enumerate(vs)] + c03.fixed(post)
    try:
        with V.quiet():
            first = p.parser.parse('', lexer=Toks(toks))
    except t.vparser.ParseError:
        raise E.Infeasible()
    finally:
        if ctx.symbolic:
            p.parser.action = old
    check_tree(ctx, first, lambda: c05.show(where(first.description.definitions[0])))


def h_texts(ctx, part, n):
    """escaped names and longer strings everywhere names and strings may stand"""
    g = grammar()
    withid = [(l, r) for l, r in g.all if 'ID' in r or 'STRING_LITERAL' in r]
    prods = [(l, r) for l, r in g.all if g.places((l, r)) or 'ID' in r]
    prods = prods[part::8]
    prod = prods[ctx.choose('rule', list(range(len(prods))))]
    pl = [-1] + g.places(prod)
    i = ctx.choose('place', pl)
    subs = {}
    if i >= 0:
        alts = [a for a in g.alts[prod[1][i]] if 'ID' in a[1] or 'STRING_LITERAL' in a[1]]
        if not alts:
            raise E.Infeasible()
        subs = {i: g.text(alts[ctx.choose('alternative', list(range(len(alts))))], {})}
    kinds = g.program(prod, g.text(prod, subs))
    # one name is escaped (all of them would multiply the cases)
    ids = [k for k, x in enumerate(kinds) if x in ('ID', 'STRING_LITERAL')]
    if not ids:
        raise E.Infeasible()
    e = ctx.choose('which', ids)
    round_trip(ctx, kinds, e, n)
