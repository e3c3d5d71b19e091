"""Runs the real PLY lexer of pyverilog/vparser/lexer.py on text with symbolic characters: its compiled master regular expression is interpreted
over symbolic characters, its keyword table compares symbolic text, everything else (token loop, rule functions, line counting, error handling) runs
as it is."""
import contextlib

from . import symstr as S


class Ignore(object):
    """PLY asks `lexdata[pos] in lexignore`"""

    def __init__(self, chars): self.chars = chars

    def __contains__(self, c):
        if S.is_sym(c):
            return S.br(S.inset(c.c[0], self.chars))
        return c in self.chars


class Hybrid(object):
    """A master pattern; tokens that lie wholly in concrete text are matched by the real re module."""

    def __init__(self, rx):
        self.p = S.pat(rx)
        self.rx = rx

    def match(self, s, pos=0):
        if not S.is_sym(s):
            return self.rx.match(s, pos)
        cs = s.c
        e = pos
        while e < len(cs) and type(cs[e]) is int:
            e += 1
        if e > pos and chr(cs[pos]) not in '`/"':
            m = self.rx.match(''.join(map(chr, cs[pos:e])))
            if m and pos + m.end() < e and chr(cs[pos + m.end()]) in ' \n;,()[]':
                return Shifted(m, pos)
        return self.p.match(s, pos)


class Shifted(object):
    def __init__(self, m, off): self.m, self.off, self.lastindex = m, off, m.lastindex
    def __bool__(self): return True
    def group(self, *a): return self.m.group(*a)
    def end(self, g=0): return self.m.end(g) + self.off
    def start(self, g=0): return self.m.start(g) + self.off


_cache = {}


@contextlib.contextmanager
def symlex(vl):
    """vl: a built VerilogLexer"""
    l = vl.lexer
    old = (l.lexre, l.lexignore, l.lexstatere, l.lexstateignore, l.lexliterals)
    had = 'reserved' in vl.__dict__
    if id(l.lexre) not in _cache:
        _cache[id(l.lexre)] = (l.lexre, [(Hybrid(rx), f) for rx, f in l.lexre])
    l.lexre = _cache[id(old[0])][1]
    l.lexignore = Ignore(old[1])
    l.lexstatere = {k: l.lexre for k in old[2]}
    l.lexstateignore = {k: l.lexignore for k in old[3]}
    l.lexliterals = ()
    vl.reserved = S.SymDict(type(vl).reserved)
    try:
        yield vl
    finally:
        l.lexre, l.lexignore, l.lexstatere, l.lexstateignore, l.lexliterals = old
        if not had:
            del vl.reserved
