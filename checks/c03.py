"""C03: expressions parse with Verilog precedence and associativity.
Real code: pyverilog/vparser/parser.py (all expression rules and the LALR automaton built from them), pyverilog/vparser/ast.py.
The kinds of the tokens of an expression are symbolic: every table lookup of the automaton on such a token is decided by the solver, and both the
accepted and the rejected outcomes are followed.  A reference recogniser written here from the Verilog grammar decides what the tree must be."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call

BOUNDS = {
    'quick': 'all token strings up to 3 tokens over all 36 operators, parentheses, ?: and operands, legal and illegal; up to 4-6 tokens over adjacent precedence levels with parentheses, over each operator with ?:, and over selects, '
             'concatenations and calls; 30 forms of 4 to 11 tokens (two and three binary operators, unary operators, nested ?:, selects, concatenations, replications, calls) with every choice of operators; ten places where expressions stand',
    'thorough': 'all token strings up to 5 tokens over everything; up to 6 tokens over all pairs of levels, 7 over selects, concatenations and calls, 9 with ?:; 12 further forms of up to 13 tokens with three binary operators'}
OUTSIDE = 'hierarchical names through multi-dimensional selects; the spelling of tokens (C01)'
ASSUMPTIONS = []

LEVELS = [['LOR'], ['LAND'], ['OR'], ['XOR', 'XNOR'], ['AND'], ['EQ', 'NE', 'EQL', 'NEL'], ['LT', 'GT', 'LE', 'GE'], ['LSHIFT', 'RSHIFT', 'LSHIFTA', 'RSHIFTA'], ['PLUS', 'MINUS'], ['TIMES', 'DIVIDE', 'MOD'], ['POWER']]
PREC = {o: i for i, l in enumerate(LEVELS) for o in l}
BIN = {'LOR': 'Lor', 'LAND': 'Land', 'OR': 'Or', 'XOR': 'Xor', 'XNOR': 'Xnor', 'AND': 'And', 'EQ': 'Eq', 'NE': 'NotEq', 'EQL': 'Eql', 'NEL': 'NotEql', 'LT': 'LessThan', 'GT': 'GreaterThan', 'LE': 'LessEq', 'GE': 'GreaterEq',
       'LSHIFT': 'Sll', 'RSHIFT': 'Srl', 'LSHIFTA': 'Sla', 'RSHIFTA': 'Sra', 'PLUS': 'Plus', 'MINUS': 'Minus', 'TIMES': 'Times', 'DIVIDE': 'Divide', 'MOD': 'Mod', 'POWER': 'Power'}
UN = {'PLUS': 'Uplus', 'MINUS': 'Uminus', 'LNOT': 'Ulnot', 'NOT': 'Unot', 'AND': 'Uand', 'NAND': 'Unand', 'OR': 'Uor', 'NOR': 'Unor', 'XOR': 'Uxor', 'XNOR': 'Uxnor'}
TEXT = {'LOR': '||', 'LAND': '&&', 'OR': '|', 'XOR': '^', 'XNOR': '~^', 'AND': '&', 'EQ': '==', 'NE': '!=', 'EQL': '===', 'NEL': '!==', 'LT': '<', 'GT': '>', 'LE': '<=', 'GE': '>=', 'LSHIFT': '<<', 'RSHIFT': '>>', 'LSHIFTA': '<<<',
        'RSHIFTA': '>>>', 'PLUS': '+', 'MINUS': '-', 'TIMES': '*', 'DIVIDE': '/', 'MOD': '%', 'POWER': '**', 'LNOT': '!', 'NOT': '~', 'NAND': '~&', 'NOR': '~|', 'COND': '?', 'COLON': ':', 'LPAREN': '(', 'RPAREN': ')', 'LBRACE': '{',
        'RBRACE': '}', 'LBRACKET': '[', 'RBRACKET': ']', 'COMMA': ',', 'PLUSCOLON': '+:', 'MINUSCOLON': '-:', 'DOT': '.', 'DOLLER': '$', 'SEMICOLON': ';', 'EQUALS': '=', 'AT': '@', 'MODULE': 'module', 'ENDMODULE': 'endmodule',
        'ASSIGN': 'assign', 'ALWAYS': 'always', 'IF': 'if', 'CASE': 'case', 'ENDCASE': 'endcase', 'INITIAL': 'initial', 'WHILE': 'while', 'PARAMETER': 'parameter', 'WIRE': 'wire', 'DELAY': '#'}
ALL = sorted(set(BIN) | set(UN)) + ['COND', 'COLON', 'LPAREN', 'RPAREN', 'ID', 'INTNUMBER_DEC']
FORMS = ['ID', 'INTNUMBER_DEC', 'LBRACKET', 'RBRACKET', 'COLON', 'PLUSCOLON', 'MINUSCOLON', 'PLUS', 'DOT']
BRACES = ['ID', 'LBRACE', 'RBRACE', 'COMMA', 'LPAREN', 'RPAREN', 'DOLLER', 'PLUS']
MIX = ['ID', 'LBRACE', 'RBRACE', 'COMMA', 'LBRACKET', 'RBRACKET', 'COLON', 'COND', 'MINUS']

# (name, tokens before, tokens after, where the expression is in the tree)
A = ['MODULE', 'ID:m', 'SEMICOLON']
CONTEXTS = {
    'assign': (A + ['ASSIGN', 'ID:y', 'EQUALS'], ['SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].right.var),
    'blocking': (A + ['INITIAL', 'ID:y', 'EQUALS'], ['SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].statement.right.var),
    'nonblocking': (A + ['INITIAL', 'ID:y', 'LE'], ['SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].statement.right.var),
    'if': (A + ['INITIAL', 'IF', 'LPAREN'], ['RPAREN', 'ID:y', 'EQUALS', 'ID:z', 'SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].statement.cond),
    'while': (A + ['INITIAL', 'WHILE', 'LPAREN'], ['RPAREN', 'ID:y', 'EQUALS', 'ID:z', 'SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].statement.cond),
    'case': (A + ['INITIAL', 'CASE', 'LPAREN'], ['RPAREN', 'ID:y', 'COLON', 'ID:z', 'EQUALS', 'ID:w', 'SEMICOLON', 'ENDCASE', 'ENDMODULE'], lambda d: d.items[0].statement.comp),
    'label': (A + ['INITIAL', 'CASE', 'LPAREN', 'ID:y', 'RPAREN'], ['COLON', 'ID:z', 'EQUALS', 'ID:w', 'SEMICOLON', 'ENDCASE', 'ENDMODULE'], lambda d: only(d.items[0].statement.caselist[0].cond)),
    'lindex': (A + ['ASSIGN', 'ID:y', 'LBRACKET'], ['RBRACKET', 'EQUALS', 'ID:z', 'SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].left.var.ptr),
    'parameter': (A + ['PARAMETER', 'ID:y', 'EQUALS'], ['SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].list[0].value.var),
    'width': (A + ['WIRE', 'LBRACKET'], ['COLON', 'ID:z', 'RBRACKET', 'ID:y', 'SEMICOLON', 'ENDMODULE'], lambda d: d.items[0].list[0].width.msb),
}


def only(x):
    assert len(x) == 1
    return x[0]


def setup(symbolic):
    V.setup_parser()


REPS = [l[0] for l in LEVELS]
PATTERNS = {  # B any binary operator, b one per level, U any unary operator, u three of them, O operand, I identifier
    'quick': ['OBOBO', 'UOBO', 'UUO', 'OBUO', 'IbIbIbI', 'UIbuI', 'IbI?I:I', 'I?I:IbI', 'I?IbI:I', 'uIbIbuI', 'I?I?I:I:I', 'I?I:I?I:I', 'IB(IBI)', '(IBI)BI', 'U(IBI)', 'I?U(IbI):I', 'Ib(I?I:I)', '{IBI,UI}', '{I{IBI}}', 'I[IBI]bI', 'I[I:I]BI',
              'I(IBI,I)', 'I[IBI:I]', 'I[I+IBI]', 'I[I-IBI]', 'UI[IbI]', 'I[I][IBI]', 'I[I+IbI]bI', '$I(IBI)', 'uI?uI:uI', 'IbI?IbI:IbI'],
    'thorough': ['OBOBOBO', 'UOBUOBO', 'UUUO', 'OBOB(OBO)', 'OBO?OBO:OBO', 'OBU(OBO)', '{OBO,UOBO}', 'I[IBIBI]', 'IbIbIbIbI', 'IBI?I:I?IBI:I', 'I?I?I?I:I:I:I', 'I?I:I?I:I?I:I']}
CLASS = {'B': sorted(BIN), 'b': REPS, 'U': sorted(UN), 'u': ['MINUS', 'NOT', 'AND'], 'O': ['ID', 'INTNUMBER_DEC'], 'I': ['ID'], '?': ['COND'], ':': ['COLON'], '(': ['LPAREN'], ')': ['RPAREN'], '{': ['LBRACE'], '}': ['RBRACE'],
         '[': ['LBRACKET'], ']': ['RBRACKET'], ',': ['COMMA'], '+': ['PLUSCOLON'], '-': ['MINUSCOLON'], '$': ['DOLLER']}


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, **p):
        out.append(dict(id=i, h='h_tokens', p=p, max_paths=3000000))
    for p in PATTERNS['quick'] + ([] if q else PATTERNS['thorough']):
        add('form-%s' % p, pattern=p, ctxt='assign')
    for n in range(1, 3 if q else 4):
        add('all-%d' % n, alphabet=ALL, n=n, ctxt='assign')
    for s in ALL:
        add('all-%d-%s' % (3 if q else 4, s), alphabet=ALL, n=3 if q else 4, ctxt='assign', first=s)
        if not q:
            add('all-5-%s' % s, alphabet=ALL, n=5, ctxt='assign', first=s)
    for i in range(len(LEVELS)):
        for j in {i, min(i + 1, len(LEVELS) - 1)} | (set(range(len(LEVELS))) if not q else set()):
            ops = sorted({LEVELS[i][0], LEVELS[i][-1], LEVELS[j][0], LEVELS[j][-1]})
            add('levels-%d-%d' % (i, j), alphabet=ops + ['ID', 'LPAREN', 'RPAREN', 'LNOT'], n=4 if q else 6, ctxt='assign')
    for o in sorted(BIN):
        add('cond-%s' % o, alphabet=['COND', 'COLON', 'ID', o], n=6 if q else 9, ctxt='assign')
    for n in range(1, 5 if q else 8):
        add('selects-%d' % n, alphabet=FORMS, n=n, ctxt='assign')
        add('braces-%d' % n, alphabet=BRACES, n=n, ctxt='assign')
        add('mix-%d' % n, alphabet=MIX, n=n, ctxt='assign')
    for c in sorted(CONTEXTS):
        # in an index, a colon at the top level makes it a part select
        add('in-%s' % c, alphabet=['ID', 'PLUS', 'LE', 'MINUS', 'LPAREN', 'RPAREN'] + ([] if c == 'lindex' else ['COND', 'COLON']), n=4 if q else 6, ctxt=c)
        add('in3-%s' % c, pattern='IBI', ctxt=c)
        add('in4-%s' % c, pattern='UIBI', ctxt=c)
        add('in5-%s' % c, pattern='IbI?I:I', ctxt=c)
    return out


# ---------------------------------------------------------------------------- reference recogniser
class Reject(Exception):
    pass


class More(Exception):
    pass


class Ref(object):
    """recursive descent over token kinds; operands are named by position"""

    def __init__(self, toks, end):
        self.t, self.i, self.end = toks, 0, end

    def peek(self):
        if self.i >= len(self.t):
            raise More()
        return self.t[self.i]

    def take(self, k):
        if self.peek() != k:
            raise Reject(self.i)
        self.i += 1
        return self.i - 1

    def whole(self):
        e = self.expr(0)
        # the expression is followed by the token the context demands
        if self.i != len(self.t) - 1 or self.t[self.i] != self.end:
            self.peek()
            raise Reject(self.i)
        return e

    def expr(self, level):
        """level 0: conditional"""
        if level == 0:
            c = self.binary(0)
            if self.peek() == 'COND':
                self.i += 1
                x = self.expr(0)
                self.take('COLON')
                y = self.expr(0)
                return ('Cond', c, x, y)
            return c

    def binary(self, level):
        if level == len(LEVELS):
            return self.unary()
        l = self.binary(level + 1)
        while self.peek() in LEVELS[level]:
            o = self.t[self.i]
            self.i += 1
            l = (BIN[o], l, self.binary(level + 1))
        return l

    def unary(self):
        k = self.peek()
        if k in UN:
            self.i += 1
            e = self.unary()
            return e if k == 'PLUS' else (UN[k], e)     # unary plus has no effect: the tree may show it or not
        return self.primary()

    def primary(self):
        k = self.peek()
        if k == 'LPAREN':
            self.i += 1
            e = self.expr(0)
            self.take('RPAREN')
            return e
        if k == 'INTNUMBER_DEC':
            self.i += 1
            return ('num', self.i - 1)
        if k == 'LBRACE':
            self.i += 1
            return self.braces()
        if k == 'DOLLER':
            self.i += 1
            n = self.take('ID')
            if self.peek() == 'LPAREN':
                return ('sys', n) + tuple(self.args())
            return ('sys', n)
        return self.name()

    def args(self):
        self.take('LPAREN')
        out = []
        if self.peek() == 'RPAREN':
            self.i += 1
            return out
        while True:
            out.append(self.expr(0))
            if self.peek() == 'RPAREN':
                self.i += 1
                return out
            self.take('COMMA')

    def braces(self):
        first = self.expr(0)
        if self.peek() == 'LBRACE':
            self.i += 1
            c = self.braces_list([self.expr(0)])
            self.take('RBRACE')
            return ('rep', first, c)
        return self.braces_list([first])

    def braces_list(self, es):
        while True:
            if self.peek() == 'RBRACE':
                self.i += 1
                return ('cat',) + tuple(es)
            self.take('COMMA')
            es.append(self.expr(0))

    def name(self):
        e = ('id', self.take('ID'))
        scope = ()
        depth = 0
        while True:
            k = self.peek()
            if k == 'DOT' and depth < 2:
                self.i += 1
                scope += ((e[1], None) if depth == 0 else (e[1][1], e[2]),)
                e = ('id', self.take('ID'), scope) if scope else e
                depth = 0
            elif k == 'LPAREN' and depth == 0:
                return ('call', e) + tuple(self.args())
            elif k == 'LBRACKET':
                self.i += 1
                b = self.expr(0)
                k = self.peek()
                if k == 'RBRACKET':
                    self.i += 1
                    e = ('idx', e, b)
                    depth += 1
                    continue
                if k not in ('COLON', 'PLUSCOLON', 'MINUSCOLON'):
                    raise Reject(self.i)
                self.i += 1
                c = self.expr(0)
                self.take('RBRACKET')
                if k == 'COLON':
                    return ('part', e, b, c)
                if k == 'PLUSCOLON':
                    return ('part', e, ('Minus', ('Plus', b, c), ('num', 'one')), b)
                return ('part', e, b, ('Plus', ('Minus', b, c), ('num', 'one')))
            else:
                return e


def reference(toks, end):
    """('tree', t) / ('reject', position) / ('more',)"""
    try:
        return ('tree', Ref(list(toks), end).whole())
    except More:
        return ('more',)
    except Reject as r:
        return ('reject', r.args[0])


def completion(prefix, n, alphabets, end):
    """some way to make prefix a legal expression of exactly n tokens, or None"""
    if len(prefix) == n:
        return [] if reference(prefix + [end], end)[0] == 'tree' else None
    if reference(prefix, end)[0] != 'more':
        return None
    for s in alphabets[len(prefix)]:
        r = completion(prefix + [s], n, alphabets, end)
        if r is not None:
            return [s] + r
    return None


# ---------------------------------------------------------------------------- symbolic tokens
class Kind(object):
    """the kind of a token: one of an alphabet, not yet decided"""

    def __init__(self, ctx, var, alphabet):
        self.ctx, self.v, self.ab = ctx, var, alphabet
        self.left = list(range(len(alphabet)))

    def decide(self, groups):
        """groups: lists of alphabet indices; follows every group the path condition allows"""
        for g in groups[:-1]:
            if self.ctx.branch(z3.Or([self.v.t == i for i in g]) if not isinstance(self.v, int) else self.v in g):
                self.left = g
                return g
        self.left = groups[-1]
        return groups[-1]

    def lookup(self, row):
        by = {}
        for i in self.left:
            by.setdefault(row.get(self.ab[i]), []).append(i)
        keys = sorted(by, key=lambda k: (k is None, k if k is not None else 0))
        g = self.decide([by[k] for k in keys])
        return row.get(self.ab[g[0]])

    def name(self):
        g = self.decide([[i] for i in self.left])
        return self.ab[g[0]]

    def __eq__(self, o):
        if isinstance(o, str):
            if o not in [self.ab[i] for i in self.left]:
                return False
            return self.name() == o
        return self is o

    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name())
    def __str__(self): return '|'.join(self.ab[i] for i in self.left)


def is_(v, i): return z3.BoolVal(v == i) if isinstance(v, int) else v.t == i


class Row(object):
    def __init__(self, d): self.d = d
    def get(self, k, default=None): return k.lookup(self.d) if isinstance(k, Kind) else self.d.get(k, default)
    def __getitem__(self, k): return k.lookup(self.d) if isinstance(k, Kind) else self.d[k]
    def __contains__(self, k): return (k.lookup(self.d) if isinstance(k, Kind) else self.d.get(k)) is not None
    def keys(self): return self.d.keys()
    def items(self): return self.d.items()
    def __iter__(self): return iter(self.d)


ROWS = {}


class Lexer(object):
    """hands out prepared tokens"""

    def __init__(self, toks):
        self.toks, self.i, self.lineno = toks, 0, 1

    def input(self, text): pass

    def token(self):
        if self.i >= len(self.toks):
            return None
        k, v = self.toks[self.i]
        self.i += 1
        from ply.lex import LexToken
        t = LexToken()
        t.type, t.value, t.lineno, t.lexpos = k, v, 1, self.i
        return t


def shape(x):
    """the real tree as tuples"""
    v = target.load().vast
    n = type(x).__name__

    def pos(s): return int(s.lstrip('i')) if s[:1] == 'i' else s
    if n == 'Identifier':
        if x.scope is not None:
            return ('id', pos(x.name), tuple((pos(l.name), None if l.loop is None else shape(l.loop)) for l in x.scope.labellist))
        return ('id', pos(x.name))
    if n == 'IntConst':
        return ('num', 'one' if x.value == '1' else int(x.value.lstrip('i')) - (0 if x.value[:1] == 'i' else 100))
    if n == 'Concat':
        return ('cat',) + tuple(shape(y) for y in x.list)
    if n == 'Repeat':
        return ('rep', shape(x.value), shape(x.times)) if False else ('rep', shape(x.times), shape(x.value))
    if n == 'Pointer':
        return ('idx', shape(x.var), shape(x.ptr))
    if n == 'Partselect':
        return ('part', shape(x.var), shape(x.msb), shape(x.lsb))
    if n == 'FunctionCall':
        return ('call', shape(x.name)) + tuple(shape(y) for y in x.args)
    if n == 'SystemCall':
        return ('sys', pos(x.syscall)) + tuple(shape(y) for y in x.args)
    if n == 'Cond':
        return ('Cond', shape(x.cond), shape(x.true_value), shape(x.false_value))
    if n == 'Uplus':
        return shape(x.right)
    if isinstance(x, v.UnaryOperator):
        return (n, shape(x.right))
    if isinstance(x, v.Operator):
        return (n, shape(x.left), shape(x.right))
    raise TypeError(n)


def spell(i, k):
    return 'i%d' % i if k == 'ID' else str(100 + i) if k == 'INTNUMBER_DEC' else TEXT[k]


def fixed(toks):
    return [(k.split(':')[0], k.split(':')[1] if ':' in k else TEXT[k]) for k in toks]


def h_tokens(ctx, ctxt, alphabet=None, n=None, first=None, pattern=None):
    if pattern:
        n = len(pattern)
        abs_ = [CLASS[c] for c in pattern]
    else:
        abs_ = [alphabet] * n
        if first is not None:
            abs_[0] = [first]
    t = target.load()
    pre, post, where = CONTEXTS[ctxt]
    end = post[0]
    vs = [ctx.int('t%d' % i, 0, len(abs_[i]) - 1) if len(abs_[i]) > 1 else 0 for i in range(n)]
    if not ctx.symbolic:
        toks = [abs_[i][v] for i, v in enumerate(vs)]
        src = ' '.join([x.split(':')[1] if ':' in x else TEXT[x] for x in pre] + [spell(i, k) for i, k in enumerate(toks)] + [x.split(':')[1] if ':' in x else TEXT[x] for x in post])
        ctx.note(src)
        want = reference(toks + [end], end)
        try:
            ast = V.parse(src)
        except t.vparser.ParseError as e:
            ctx.check(want[0] != 'tree', lambda: 'legal expression rejected: %s (%s)' % (src, e))
            return
        judge(ctx, ast, where, want, src)
        return
    kinds = [Kind(ctx, v, abs_[i]) for i, v in enumerate(vs)]
    toks = fixed(pre) + [(k, 'i%d' % i) for i, k in enumerate(kinds)] + fixed(post)
    lx = Lexer(toks)
    p = V.setup_parser()
    old = p.parser.action
    if id(old) not in ROWS:
        ROWS[id(old)] = (old, {s: Row(d) for s, d in old.items()} if isinstance(old, dict) else [Row(d) for d in old])
    p.parser.action = ROWS[id(old)][1]
    try:
        with V.quiet():
            ast = p.parser.parse('', lexer=lx)
    except t.vparser.ParseError:
        ast = None
    finally:
        p.parser.action = old
    m = min(max(lx.i - len(pre), 0), n + 1)
    read = kinds[:m]
    if ast is None:
        # the token read last is not accepted here: the reference must not accept it either
        done = [k.ab[k.left[0]] for k in read[:-1]] if m <= n else [k.ab[k.left[0]] for k in read]
        for k in (read[:-1] if m <= n else read):
            if len(k.left) > 1:
                raise E.Inconclusive('undecided token before the error')
        if m > n:
            ctx.check(reference(done + [end], end)[0] != 'tree', lambda: 'legal expression rejected: %s' % ' '.join(done))
            return
        for i in read[-1].left if read else []:
            s = read[-1].ab[i]
            rest = completion(done + [s], n, abs_, end)
            if rest is not None:
                bad = z3.And([is_(read[-1].v, i)] + [is_(vs[len(done) + 1 + j], abs_[len(done) + 1 + j].index(x)) for j, x in enumerate(rest)])
                ctx.check(z3.Not(bad), 'legal expression rejected: %s' % ' '.join(done + [s] + rest))
        ctx.check(True)
        return
    for k in kinds:
        k.name()
    names = [k.ab[k.left[0]] for k in kinds]
    ctx.note(' '.join(names))
    judge(ctx, ast, where, reference(names + [end], end), ' '.join(names))



def judge(ctx, ast, where, want, src):
    ctx.check(want[0] == 'tree', lambda: 'illegal expression accepted: %s' % src)
    d = ast.description.definitions[0]
    ctx.check(len(d.items) == 1, lambda: '%s gives %d items' % (src, len(d.items)))
    got = call(ctx, 'tree of %s' % src, lambda: shape(where(d)))
    ctx.check(got == want[1], lambda: '%s is grouped as %s, expected %s' % (src, got, want[1]))
