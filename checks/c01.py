"""C01: source text is split into the right tokens.
Real code: pyverilog/vparser/lexer.py (all token rules through PLY's own token loop, keyword table, line counting, directives, errors).
The characters of the text are symbolic; the master regular expression PLY compiled from the rules is interpreted over them.  A reference
tokenizer written here from the Verilog lexical grammar (longest match) decides what the tokens must be."""
import z3
from sx import engine as E, target, vlog as V, symstr as S
from sx.lexsym import symlex
from sx.runner import call

BOUNDS = {
    'quick': 'every text of up to 2 characters over all of 7-bit ASCII, alone and between other tokens; every text of up to 3 operator characters (all operators) and 4 of those that make up operators of several characters; numbers of up to 4 further characters '
             'after each of 22 beginnings; names up to 12 letters (every reserved word); strings, comments and directives with up to 2 arbitrary characters (4 of the significant ones) before following tokens',
    'thorough': 'every text of up to 3 characters over all of 7-bit ASCII; one character more in each other family'}
OUTSIDE = 'white space inside numbers; string escapes Verilog does not define; fractions without digits on both sides; unterminated comments; bytes above 127'
ASSUMPTIONS = []

KEYWORDS = ('module endmodule begin end generate endgenerate genvar function endfunction task endtask input inout output tri reg logic wire integer real signed parameter localparam supply0 supply1 assign always always_ff always_comb '
            'always_latch posedge negedge initial if else for while case casex casez unique endcase default wait forever disable fork join').split()
RESERVED = dict((k, k.upper()) for k in KEYWORDS)
RESERVED['or'] = 'SENS_OR'
OPS = {'||': 'LOR', '&&': 'LAND', '~|': 'NOR', '~&': 'NAND', '~^': 'XNOR', '^~': 'XNOR', '|': 'OR', '&': 'AND', '^': 'XOR', '!': 'LNOT', '~': 'NOT', '<<<': 'LSHIFTA', '>>>': 'RSHIFTA', '<<': 'LSHIFT', '>>': 'RSHIFT', '===': 'EQL', '!==': 'NEL',
       '==': 'EQ', '!=': 'NE', '<=': 'LE', '>=': 'GE', '<': 'LT', '>': 'GT', '**': 'POWER', '+': 'PLUS', '-': 'MINUS', '*': 'TIMES', '/': 'DIVIDE', '%': 'MOD', '?': 'COND', '=': 'EQUALS', '+:': 'PLUSCOLON', '-:': 'MINUSCOLON', '@': 'AT', ',': 'COMMA',
       ';': 'SEMICOLON', ':': 'COLON', '.': 'DOT', '(': 'LPAREN', ')': 'RPAREN', '[': 'LBRACKET', ']': 'RBRACKET', '{': 'LBRACE', '}': 'RBRACE', '#': 'DELAY', '$': 'DOLLER'}
DIGITS = '0123456789'
ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'
BASE = {'b': ('01', 'BIN'), 'o': ('01234567', 'OCT'), 'h': ('0123456789abcdefABCDEF', 'HEX'), 'd': (DIGITS, 'DEC')}
ASCII = ''.join(chr(i) for i in range(1, 128))
OPCH = ''.join(sorted(set(''.join(OPS))))
MULTI = '<>=!&|~^+-*:'


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, pre, n, post, ab=ASCII, first=None):
        out.append(dict(id=i, h='h_text', p=dict(pre=pre, n=n, post=post, ab=ab, first=first), max_paths=400000))
    chunks = [ASCII[i:i + 8] for i in range(0, len(ASCII), 8)]
    for k, ch in enumerate(chunks):
        for n in range(1, 3 if q else 4):
            add('any-%d-%02d' % (n, k), '', n, '', first=ch)
        for nm, pre, post in (('name', 'a', 'b'), ('num', '4', '5 c'), ('ops', '<', '= d'), ('line', '\n', '\nx'), ('dot', 'a.', '.b'), ('tick', "8'h", "'b1")):
            add('between-%s-%02d' % (nm, k), pre, 2, post, first=ch)
    for ch in OPCH:
        add('op3-%02x' % ord(ch), '', 3, '', OPCH, ch)
        if ch in MULTI:
            add('op4-%02x' % ord(ch), '', 4 if q else 5, ' ', MULTI, ch)
    for k, pre in enumerate(['', "'", "'s", "4'", "12'S", "'h", "4'sb", "4'b", "'o", "3'So", "4'h", "8'sH", "'d", "9'sd", '1', '1.', '1.5', '1e', '1.5E', '1_', "1_6'", '0']):
        add('number-%02d' % k, pre, 3 if q else 4, ' ;', "018_afxz?'sbdohBDOHXZSe.+-G")
        add('digits-%02d' % k, pre, 4 if q else 5, ' ;', "01289_'.eEsfxZb-")
    for n in range(1, 13):
        add('word-%d' % n, '', n, ' ', ALPHA + DIGITS, first=ALPHA)
        if n < 9:
            add('glued-%d' % n, '', n, '$', ALPHA, first=ALPHA)
            if n < (3 if q else 4):
                add('escaped-%d' % n, '\\', n, ' end', ASCII)
    add('name3', '', 3, ' ', ALPHA[::5] + DIGITS[::3] + '$\\\n ', first=ALPHA)
    for nm, ab in (('s', '"\\n/*\n`08 '), ('c', '/*\n"`\\a ')):
        n = 4 if q else 5
        add('string-' + nm, '"', n, '";\nz', ab)
        add('comment-' + nm, '/*', n, '*/ y\nz', ab)
        add('line-' + nm, '//', n, '\ny', ab)
        add('slash-' + nm, '', n, ' y', ab, first='/')
        add('directive-' + nm, '`', n, '\n y', ab)
    for n in range(0, 3 if q else 4):
        add('string-any-%d' % n, 'a"', n, '"b', ASCII)
        add('comment-any-%d' % n, 'a/*', n, '*/b', ASCII)
        add('line-any-%d' % n, 'a //', n, '\nb', ASCII)
        add('line-end-%d' % n, 'a //', n, '', ASCII)
        add('directive-any-%d' % n, 'a\n`d', n, '\nb', ASCII)
        add('directive-end-%d' % n, 'a\n`', n, '', ASCII)
        add('nettype-%d' % n, '`default_nettype ', n, '\nb', ALPHA + DIGITS)
    add('space', 'a', 5 if q else 6, 'b', ' \t\n\r\x0c;')
    return out


# ---------------------------------------------------------------------------- reference tokenizer
class Unjudged(Exception):
    pass


class Ref(object):
    def __init__(self, cs):
        self.cs, self.n = cs, len(cs)

    def at(self, i, chars):
        return i < self.n and S.br(S.inset(self.cs[i], chars))

    def word(self, i, w):
        return all(self.at(i + k, x) for k, x in enumerate(w))

    def run(self, i, chars):
        while self.at(i, chars):
            i += 1
        return i

    def tokens(self):
        """tokens [(kind, start, end, line)], directives [(line, start, end)], position of the first illegal character or None"""
        out, dirs, i, line = [], [], 0, 1
        while i < self.n:
            if self.at(i, ' \t\r\x0c'):
                i += 1
            elif self.at(i, '\n'):
                i += 1
                line += 1
            elif self.at(i, '`'):
                j = self.eol(i)
                dirs.append((line, i, j))
                line += self.lines(i, j)
                i = j
            elif self.at(i, '/') and self.at(i + 1, '/'):
                j = self.eol(i)
                line += self.lines(i, j)
                i = j
            elif self.at(i, '/') and self.at(i + 1, '*'):
                j = i + 2
                while not (self.at(j, '*') and self.at(j + 1, '/')):
                    j += 1
                    if j >= self.n:
                        raise Unjudged('unterminated comment')
                j += 2
                line += self.lines(i, j)
                i = j
            else:
                r = self.lexeme(i)
                if r is None:
                    return out, dirs, i
                out.append((r[0], i, r[1], line))
                i = r[1]
        return out, dirs, None

    def eol(self, i):
        while i < self.n and not self.at(i, '\n'):
            i += 1
        return min(i + 1, self.n)

    def lines(self, i, j):
        return sum(1 for k in range(i, j) if self.at(k, '\n'))

    def lexeme(self, i):
        if self.at(i, ALPHA):
            j = self.run(i + 1, ALPHA + DIGITS + '$')
            for w in RESERVED:
                if len(w) == j - i and self.word(i, w):
                    return RESERVED[w], j
            return 'ID', j
        if self.at(i, '\\'):
            if self.at(i + 1, '\x0b\x1c\x1d\x1e\x1f'):
                raise Unjudged('control character in a name')
            if i + 1 >= self.n or self.at(i + 1, ' \t\n\r\x0c'):
                return None
            j = i + 1
            while j < self.n and not self.at(j, ' \t\n\r\x0c'):
                if self.at(j, '\x0b\x1c\x1d\x1e\x1f'):
                    raise Unjudged('control character in a name')
                j += 1
            return 'ID', j
        if self.at(i, '"'):
            return self.string(i)
        if self.at(i, DIGITS):
            j = self.run(i + 1, DIGITS + '_')
            k = self.based(j)
            if k:
                return k
            if self.at(j, '.'):
                if not self.at(j + 1, DIGITS):
                    raise Unjudged('fraction without digits')
                j2 = self.run(j + 1, DIGITS + '_')
                return 'FLOATNUMBER', self.exponent(j2) or j2
            x = self.exponent(j)
            return ('FLOATNUMBER', x) if x else ('INTNUMBER_DEC', j)
        if self.at(i, "'"):
            return self.based(i)
        if self.at(i, '.') and self.at(i + 1, DIGITS):
            raise Unjudged('fraction without digits')
        return self.operator(i)

    def exponent(self, j):
        if self.at(j, 'eE'):
            k = j + 1
            if self.at(k, '+-'):
                k += 1
            if self.at(k, DIGITS):
                return self.run(k, DIGITS + '_')
        return None

    def based(self, j):
        if not self.at(j, "'"):
            return None
        k, sign = j + 1, ''
        if self.at(k, 'sS'):
            sign = 'SIGNED_'
            k += 1
        for b in 'bohd':
            if self.at(k, b + b.upper()):
                ds, nm = BASE[b]
                if self.at(k + 1, ds + 'xXzZ?'):
                    return sign + 'INTNUMBER_' + nm, self.run(k + 2, ds + 'xXzZ?_')
                return None
        return None

    def string(self, i):
        j = i + 1
        while True:
            if j >= self.n or self.at(j, '\n'):
                return None
            if self.at(j, '"'):
                return 'STRING_LITERAL', j + 1
            if self.at(j, '\\'):
                if j + 1 >= self.n or self.at(j + 1, '\n'):
                    return None
                if not self.at(j + 1, 'nt\\"01234567'):
                    raise Unjudged('undefined escape')
                j += 2
            else:
                j += 1

    def operator(self, i):
        for k in (3, 2, 1):
            for o in sorted(OPS):
                if len(o) == k and self.word(i, o):
                    return OPS[o], i + k
        return None


class Bad(Exception):
    pass


def lexer():
    vl = V.setup_parser().lexer
    return vl


def h_text(ctx, pre, n, post, ab, first=None):
    t = target.load()
    cs = [ctx.byte('c%d' % i) for i in range(n)]
    for i, c in enumerate(cs):
        ctx.assume(S.inset(c, first if i == 0 and first else ab))
    cs = [ord(x) for x in pre] + cs + [ord(x) for x in post]
    text = S.mkstr(cs) if ctx.symbolic else ''.join(chr(c) for c in cs)
    ctx.note(lambda: repr(str(text)))
    vl = lexer()
    errs = []
    old = vl.error_func
    vl.error_func = lambda m, l, c: errs.append((m, l, c, vl.lexer.lexpos))
    vl.directives = []
    vl.default_nettype = 'wire'
    try:
        if ctx.symbolic:
            with symlex(vl):
                got = call(ctx, 'tokens', drive, vl, text)
        else:
            got = call(ctx, 'tokens', drive, vl, text)
        dirs = list(vl.directives)
        net = vl.default_nettype
    finally:
        vl.error_func = old
        vl.directives = []
        vl.default_nettype = 'wire'
    try:
        want, wdirs, bad = Ref(cs).tokens()
    except Unjudged:
        return ctx.cover('not judged')
    # up to the first illegal character
    if bad is not None:
        ctx.check(len(errs) > 0 and errs[0][3] == bad, lambda: 'illegal character at %d of %r is reported %s' % (bad, str(text), errs[:1]))
        # the characters after it are tokens of their own again: same as lexing the rest alone
        try:
            rest, restd, bad2 = Ref(cs[bad + 1:]).tokens()
        except Unjudged:
            return ctx.cover('not judged')
        if bad2 is not None:
            got = [g for g in got if g[1] < bad]
            dirs = [d for d in dirs if d[0] <= 0]
            wdirs = []
        else:
            ctx.check(len(errs) == 1, lambda: 'errors %s in %r' % (errs, str(text)))
            line = 1 + sum(1 for k in range(bad) if Ref(cs).at(k, '\n'))
            want = want + [(k, s + bad + 1, e + bad + 1, l + line - 1) for k, s, e, l in rest]
            wdirs = wdirs + [(l + line - 1, s + bad + 1, e + bad + 1) for l, s, e in restd]
    else:
        ctx.check(not errs, lambda: 'error %s in %r' % (errs, str(text)))
    show = lambda: 'tokens of %r are %s, expected %s' % (str(text), got, want)
    ctx.check([g[:4] for g in got] == [list(w) for w in want], show)
    for g in got:
        ctx.check(S.conj([len(g[4]) == g[2] - g[1]] + [S.ceq(a, b) for a, b in zip(S.chars_of(g[4]), cs[g[1]:g[2]])]), lambda: 'text of token %s of %r is %r' % (g[:4], str(text), str(g[4])))
    if bad is None:
        ctx.check([d[0] for d in dirs] == [d[0] for d in wdirs], lambda: 'directives of %r are %s' % (str(text), dirs))
        for d, w in zip(dirs, wdirs):
            v = S.chars_of(d[1])
            ctx.check(S.conj([len(v) == w[2] - w[1]] + [S.ceq(a, b) for a, b in zip(v, cs[w[1]:w[2]])]), lambda: 'directive of %r is %r' % (str(text), str(d[1])))
    if pre.startswith('`default_nettype ') and n:
        ctx.check(S.conj([len(net) == n] + [S.ceq(a, b) for a, b in zip(S.chars_of(net), cs[len(pre):len(pre) + n])]), lambda: 'default net type of %r is %r' % (str(text), str(net)))


def drive(vl, text):
    vl.reset_lineno()
    vl.input(text)
    out = []
    while True:
        t = vl.token()
        if t is None:
            return out
        out.append([t.type, t.lexpos, t.lexpos + len(t.value), t.lineno, t.value])
        if len(out) > 200:
            raise Bad('endless')
