"""C11: calls of user-defined functions are inlined with the meaning of the function.
Real code: parser, SignalVisitor, BindVisitor (FunctionCall expansion, blocking assignments in function bodies, renaming), FrameTable."""
import z3
from sx import engine as E, target, vlog as V
from sx.runner import call
from sx.vlog import S, K

BOUNDS = {
    'quick': 'functions with 1..4 (templates: up to 9) inputs of 1..8 bits, 0..2 local variables, bodies made of every tree of up to 3 assignments, if, if/else, '
             'case, parts of the result, loops, further calls; called from continuous assignments, always blocks, conditions, case subjects, indices, ports, '
             'other functions and other calls, up to 9 calls in one expression, in several instances and generate iterations; arguments narrower and wider than the port; '
             'all literals, conditions and signal values symbolic',
    'thorough': 'as quick with up to 4 assignments in a body'}
OUTSIDE = 'tasks, recursion, automatic/static storage shared between calls (every local is assigned before it is read), while, system functions'
ASSUMPTIONS = ['IEEE 1364-2005 function semantics as written here and in sx/vlog.py (Exec)']

W = {'a': 4, 'b': 4, 'c': 1, 'd': 8, 'e': 4}


def setup(symbolic):
    V.setup_parser()


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for first in ('A', 'L', 'IE', 'C', 'P', 'I'):
        for site in ('assign', 'nb', 'comb'):
            if site == 'nb' and first in ('P', 'I') and q:
                continue
            add('body-%s-%s' % (first, site), 'h_body', first=first, site=site, n=(2 if site == 'nb' else 3) if q else 4)
    for k in range(14):
        add('site-%d' % k, 'h_site', k=k)
    for k in range(10):
        add('args-%d' % k, 'h_args', k=k)
    for k in range(6):
        add('multi-%d' % k, 'h_multi', k=k)
    for k in range(7):
        add('scope-%d' % k, 'h_scope', k=k)
    for k in range(8):
        add('big-%d' % k, 'h_big', k=k)
    add('errors', 'h_errors')
    return out


class Fn(object):
    def __init__(self, name, rw, ports, body, locs=(), style=0, glob=None):
        self.name, self.rw, self.ports, self.body, self.locs, self.style = name, rw, ports, body, list(locs), style
        self.glob = glob or {}

    def text(self, ind='  '):
        t = ind + 'function %s%s;\n' % ('integer ' if self.rw == 32 and self.style == 2 else V.rng(self.rw), self.name)
        if self.style == 1 and len(set(w for n, w in self.ports)) == 1:
            t += ind + '  input %s%s;\n' % (V.rng(self.ports[0][1]), ', '.join(n for n, w in self.ports))
        else:
            t += ''.join(ind + '  input %s%s;\n' % (V.rng(w), n) for n, w in self.ports)
        t += ''.join(ind + ('  integer %s;\n' % n if w == 'int' else '  reg %s%s;\n' % (V.rng(w), n)) for n, w in self.locs)
        return t + V.emit_stmt(self.body, ind + '  ') + ind + 'endfunction\n'

    def call(self, funcs, env):
        def f(args):
            ws = dict(self.ports)
            e = dict(env)
            ww = {n: v.w for n, v in env.items() if isinstance(v, V.Val)}
            ww.update(ws)
            for (n, w), v in zip(self.ports, args):
                e[n] = v
            for n, w in self.locs + [(self.name, self.rw)]:
                w = 32 if w == 'int' else w
                ww[n] = w
                e[n] = V.Val(z3.BitVecVal(0, w), z3.BitVecVal(-1, w))
            # for-loop variables are constants of the loop
            for n, w in self.locs:
                if w == 'int':
                    e.pop(n)
            return V.Exec(e, ww, funcs=funcs).run(self.body)[self.name]
        return (self.rw, f)


def functions(fns, env):
    funcs = {}
    for f in fns:
        funcs[f.name] = f.call(funcs, env)
        funcs[f.name + '.ports'] = [w for n, w in f.ports]
    return funcs


def design(ctx, fns, body, outs, ins='abcde', decl='', pre='', post='', where=0, env=None, clk=False):
    ft = ''.join(f.text() for f in fns)
    D = ('  input CLK;\n' if clk else '') + ''.join('  input %s%s;\n' % (V.rng(W[n]), n) for n in ins) + \
        ''.join('  output %s%s%s;\n' % ('reg ' if r else '', V.rng(w), n) for n, w, r in outs) + decl
    body = (ft + body, body + ft)[where]
    return pre + V.text_module(D, body, ports=(['CLK'] if clk else []) + list(ins) + [n for n, w, r in outs]) + post


def compare(ctx, text, env, want, funcs, widths, more=None):
    """want: output -> expression or Val"""
    ctx.note(text)
    fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
    given = {'TOP.' + n: v for n, v in env.items()}
    given.update(more or {})
    d = V.DFEval(fl, given)
    d.free = [n for n in fl.terms if 'functioncall' in n]
    for n, e in want.items():
        full = n if n.startswith('TOP.') else 'TOP.' + n
        w = widths[n]
        try:
            got = V.vext(d.driven(full, old=env.get(n) if n in env else None), w)
        except V.Unsupported as ex:
            ctx.fail('the recorded drivers of %s are no value (%s) in\n%s' % (n, ex, text))
        v = e if isinstance(e, V.Val) else V.vext(V.Sem(dict(env), funcs=funcs).ev(e, w), w)
        ctx.check(V.same(v, got), lambda n=n: 'value of %s in\n%s' % (n, text))
    return fl


class Gen(object):
    def __init__(self, ctx):
        self.ctx, self.nk = ctx, 0
        self.wrote_t = False
        self.wrote = False

    def k(self, w=4):
        self.nk += 1
        return K(self.ctx.int('k%d' % self.nk, 0, 2 ** w - 1), w)

    def rhs(self):
        o = [S('x'), ('b', 'Plus', S('y'), self.k())]
        if self.wrote:
            o.append(('b', 'Minus', S('f'), S('x')))
        if self.wrote_t:
            o.append(('b', 'Xor', S('t'), S('y')))
        return self.ctx.choose('rhs%d' % self.nk, o)

    def cond(self):
        self.nk += 1
        return self.ctx.choose('cond%d' % self.nk, [S('s'), ('b', 'LessThan', S('x'), self.k())] + ([('b', 'Eq', S('t'), S('y'))] if self.wrote_t else []))

    def stmt(self, kind, budget):
        """(statement, assignments used)"""
        ctx = self.ctx
        if kind == 'A':
            r = self.rhs()
            self.wrote = True
            return ('=', S('f'), r), 1
        if kind == 'L':
            r = self.rhs()
            self.wrote_t = True
            return ('=', S('t'), r), 1
        if kind == 'P':
            h = ctx.choose('half%d' % self.nk, [(3, 2), (1, 0)])
            r = self.rhs()
            return ('=', ('sel', S('f'), K(h[0]), K(h[1])), r), 1
        if kind == 'I':
            save = (self.wrote, self.wrote_t)
            a, n = self.stmt(ctx.choose('in%d' % self.nk, ['A', 'L'] if self.wrote_t else ['A']), budget)
            self.wrote, self.wrote_t = save
            return ('if', self.cond(), a, None), n
        if kind == 'IE':
            c = self.cond()
            save = (self.wrote, self.wrote_t)
            a, n = self.stmt(ctx.choose('th%d' % self.nk, ['A', 'L'] if self.wrote_t else ['A']), budget)
            self.wrote, self.wrote_t = save
            b, m = self.stmt('A' if a[1] == S('f') else 'L', budget)
            return ('if', c, a, b), n + m
        if kind == 'C':
            e = ctx.choose('sub%d' % self.nk, [S('x'), ('sel', S('y'), K(1), K(0))])
            save = (self.wrote, self.wrote_t)
            a, n = self.stmt('A', budget)
            self.wrote, self.wrote_t = save
            b, m = self.stmt('A', budget)
            return ('case', e, [([self.k(2), self.k(2)] if ctx.flag('two%d' % self.nk) else [self.k(2)], a), (None, b)]), n + m

    def body(self, first, n):
        ctx = self.ctx
        out = []
        if first in ('P', 'I'):
            out.append(self.stmt('A', n)[0])
            n -= 1
        kind = first
        used = 0
        part = False
        full = {'A', 'IE', 'C'}
        while True:
            s, m = self.stmt(kind, n - used)
            used += m
            part = part or kind == 'P'      # a whole assignment after a part: see C08
            out.append(s)
            if kind in full and writes_f(s):
                self.wrote = True
            if kind == 'IE' and not writes_f(s):
                self.wrote_t = True
            opts = []
            if self.wrote:
                opts.append('end')
            if used < n:
                opts += (['A', 'I'] if not part else []) + (['P'] if self.wrote else []) + (['L'] if not self.wrote_t and used + 1 < n else [])
                if used + 2 <= n and not part:
                    opts += ['IE', 'C']
            if not opts:
                raise E.Infeasible()
            kind = ctx.choose('next%d' % len(out), opts)
            if kind == 'end':
                break
        return out[0] if len(out) == 1 and ctx.flag('bare') else ('seq', out, 'blk' if any(s[0] == '=' and s[1] == S('t') for s in out) and ctx.flag('nm') else None)


def writes_f(s):
    """every arm of a generated branching statement writes the same variable"""
    return {'=': lambda: s[1] == S('f'), 'if': lambda: writes_f(s[2]), 'case': lambda: True}[s[0]]()


def h_body(ctx, first, site, n):
    g = Gen(ctx)
    body = g.body(first, n)
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abce'}
    f = Fn('f', 4, [('x', 4), ('y', 4), ('s', 1)], body, [('t', 4)])
    funcs = functions([f], env)
    e = ('call', 'f', [S('a'), ('b', 'Plus', S('b'), S('e')), S('c')])
    if site == 'assign':
        return compare(ctx, design(ctx, [f], '  assign o = %s;\n' % V.emit(e), [('o', 4, 0)], 'abce'), env, {'o': e}, funcs, {'o': 4})
    env['o'] = V.Val(ctx.sig('o', 4))
    if site == 'nb':
        text = design(ctx, [f], '  always @(posedge CLK)\n    if (c) o <= %s;\n    else o <= %s;\n' % (V.emit(e), V.emit(('call', 'f', [S('e'), S('a'), K(1, 1)]))), [('o', 4, 1)], 'abce', clk=True)
        w = ('?', S('c'), e, ('call', 'f', [S('e'), S('a'), K(1, 1)]))
    else:
        text = design(ctx, [f], '  always @(*) begin\n    o = a;\n    o = %s;\n  end\n' % V.emit(('call', 'f', [S('o'), S('b'), S('c')])), [('o', 4, 1)], 'abce', where=1)
        w = ('call', 'f', [S('a'), S('b'), S('c')])
    compare(ctx, text, env, {'o': w}, funcs, {'o': 4})


def std(ctx):
    """two functions whose value tells the arguments apart"""
    k = ctx.int('k', 0, 15)
    f = Fn('f', 4, [('x', 4), ('y', 4)], ('if', ('b', 'LessThan', S('x'), K(k, 4)), ('=', S('f'), ('b', 'Minus', S('x'), S('y'))), ('=', S('f'), ('b', 'Xor', S('y'), K(5, 4)))))
    g = Fn('g', 4, [('y', 4)], ('seq', [('=', S('t'), ('b', 'Plus', S('y'), K(1))), ('=', S('g'), ('b', 'And', S('t'), S('y')))], None), [('t', 4)])
    return f, g


def h_site(ctx, k):
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abcde'}
    f, g = std(ctx)
    F = lambda x, y: ('call', 'f', [x, y])
    G = lambda x: ('call', 'g', [x])
    funcs = functions([f, g], env)
    w = {'o': 4}
    a, b, c, d, e = [S(n) for n in 'abcde']

    def asg(x):
        compare(ctx, design(ctx, [f, g], '  assign o = %s;\n' % V.emit(x), [('o', 4, 0)], where=int(ctx.flag('after'))), env, {'o': x}, funcs, w)
    if k == 0:
        return asg(ctx.choose('e', [('b', 'Plus', F(a, b), F(b, a)), ('b', 'Xor', F(a, b), F(a, b)), ('b', 'Minus', F(a, e), G(b)), ('b', 'Sll', G(a), F(a, b))]))
    if k == 1:
        return asg(ctx.choose('e', [F(F(a, b), e), F(a, F(b, e)), F(G(a), G(b)), G(F(a, b)), G(G(G(a)))]))
    if k == 2:
        return asg(ctx.choose('e', [('?', F(a, b), a, e), ('?', c, F(a, b), F(b, a)), ('?', ('b', 'LessThan', F(a, b), G(e)), b, G(a)), F(('?', c, a, b), e), G(('?', c, F(a, b), a))]))
    if k == 3:
        return asg(ctx.choose('e', [('cat', [('idx', a, K(3)), G(b), c]), ('u', 'Unot', F(a, b)), ('u', 'Uxor', G(a)), ('u', 'Ulnot', F(a, b)), ('rep', K(2), [G(a)])]))
    if k == 4:
        return asg(ctx.choose('e', [('sel', d, K(6), K(3)), F(('sel', d, K(7), K(4)), ('sel', d, K(3), K(0))), F(('cat', [c, ('sel', d, K(2), K(0))]), ('idx', d, K(7))), F(('b', 'LessThan', a, b), c)]))
    env['o'] = V.Val(ctx.sig('o', 4))

    def blk(stmt, mode):
        text = design(ctx, [f, g], '  always %s\n%s' % ('@(posedge CLK)' if mode == '<=' else '@(*)', V.emit_stmt(stmt)), [('o', 4, 1)], clk=mode == '<=')
        ex = V.Exec(env, {'o': 4}, funcs=funcs).run(stmt)
        compare(ctx, text, env, {'o': ex['o']}, funcs, w)
    m = ctx.choose('mode', ['<=', '='])
    asn = lambda v: (m, S('o'), v)
    if k == 5:
        return blk(('if', F(a, b), asn(G(a)), asn(e)), m)
    if k == 6:
        return blk(('case', F(a, b), [([K(ctx.int('l0', 0, 15), 4)], asn(a)), ([G(e)] if ctx.flag('gl') else [K(ctx.int('l1', 0, 15), 4)], asn(G(b))), (None, asn(e))]), m)
    if k == 7:
        return blk(('if', c, ('if', ('b', 'Eq', G(a), b), asn(F(a, b)), asn(F(b, a))), None), m)
    if k == 8:
        return blk(('seq', [asn(F(a, b)), ('if', c, asn(G(S('o'))), None)], None), m)
    if k == 9:
        return blk(('seq', [('if', c, asn(a), asn(b)), asn(F(S('o'), e))], None), m)
    if k == 10:
        # in the port of an instance
        sub = 'module sub (input [3:0] x, output [3:0] z);\n  assign z = x + 3;\nendmodule\n'
        env.pop('o')
        text = design(ctx, [f, g], '  sub u (.x(%s), .z(o));\n' % V.emit(F(a, G(b))), [('o', 4, 0)], pre=sub)
        return compare(ctx, text, env, {'o': ('b', 'Plus', F(a, G(b)), K(3))}, funcs, w)
    if k == 11:
        # declaration assignment and part destinations
        env.pop('o')
        text = design(ctx, [f, g], '  wire [3:0] t = %s;\n  assign o[3:2] = %s;\n  assign o[1:0] = t;\n' % (V.emit(F(a, b)), V.emit(G(e))), [('o', 4, 0)])
        return compare(ctx, text, env, {'o': V.Val(z3.Concat(z3.Extract(1, 0, V.Sem(dict(env), funcs=funcs).ev(G(e), 4).b), z3.Extract(1, 0, V.Sem(dict(env), funcs=funcs).ev(F(a, b), 4).b)))}, funcs, w)
    if k == 12:
        # concatenation as a target
        env.pop('o')
        text = design(ctx, [f, g], '  wire p;\n  wire [1:0] q;\n  assign {p, q} = %s;\n  assign o = {q, p};\n' % V.emit(F(a, b)), [('o', 4, 0)])
        v = V.Sem(dict(env), funcs=funcs).ev(F(a, b), 4).b
        return compare(ctx, text, env, {'o': V.Val(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(1, 0, v), z3.Extract(2, 2, v)))}, funcs, w)
    # index of a bit select
    env.pop('o')
    x = ('idx', d, ('sel', a, K(2), K(0)))
    text = design(ctx, [f, g], '  assign o = %s;\n' % V.emit(('b', 'Plus', G(x), ('u', 'Uand', F(a, x)))), [('o', 4, 0)])
    compare(ctx, text, env, {'o': ('b', 'Plus', G(x), ('u', 'Uand', F(a, x)))}, funcs, w)


def h_args(ctx, k):
    """argument and result widths"""
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abcde'}
    a, b, c, d, e = [S(n) for n in 'abcde']
    pw = ctx.choose('pw', [1, 2, 4, 8])
    rw = ctx.choose('rw', [1, 3, 4, 8])
    style = ctx.choose('style', [0, 1])
    ow = 8
    if k == 0:      # narrower and wider arguments
        f = Fn('f', rw, [('x', pw)], ('=', S('f'), ('b', 'Plus', S('x'), K(ctx.int('k', 0, 7)))), style=style)
        x = ('call', 'f', [ctx.choose('arg', [a, d, c, ('b', 'Plus', a, b), ('u', 'Unot', a), ('cat', [c, a])])])
    elif k == 1:    # result in a wider context
        f = Fn('f', rw, [('x', pw)], ('=', S('f'), ('b', ctx.choose('op', ['Plus', 'Times', 'Sll']), S('x'), S('x'))), style=style)
        x = ('b', 'Plus', ('call', 'f', [a]), d)
    elif k == 2:    # a local narrower/wider than what it holds
        f = Fn('f', rw, [('x', pw)], ('seq', [('=', S('t'), ('b', 'Plus', S('x'), K(ctx.int('k', 0, 7)))), ('=', S('f'), ('b', 'Srl', S('t'), K(1)))], None), [('t', ctx.choose('tw', [1, 4, 5]))])
        x = ('call', 'f', [d])
    elif k == 3:    # integer result
        f = Fn('f', 32, [('x', pw)], ('=', S('f'), ('b', 'Minus', S('x'), K(ctx.int('k', 0, 7)))), style=2)
        x = ('b', 'Srl', ('call', 'f', [a]), K(ctx.int('sh', 0, 7)))
    elif k == 4:    # three arguments, every order of the actuals
        ws = ctx.choose('ws', [(4, 4, 4), (4, 1, 8), (1, 8, 4)])
        f = Fn('f', 8, [(n, w) for n, w in zip('xyz', ws)], ('=', S('f'), ('b', 'Plus', ('b', 'Sll', S('x'), K(1)), ('b', 'Xor', S('y'), ('b', 'Sll', S('z'), K(2))))), style=style)
        import itertools
        x = ('call', 'f', list(ctx.choose('perm', list(itertools.permutations([a, b, d])))))
    elif k == 5:    # formal named like a module signal; actual named like a formal
        f = Fn('f', 8, [('b', 4), ('a', 4)], ('=', S('f'), ('b', 'Minus', S('b'), ('b', 'Sll', S('a'), K(2)))), style=style)
        x = ('call', 'f', ctx.choose('args', [[a, b], [b, a], [('b', 'Plus', a, b), a]]))
    elif k == 6:    # reads module signals
        f = Fn('f', 8, [('x', pw)], ('if', c, ('=', S('f'), ('b', 'Plus', S('x'), d)), ('=', S('f'), S('e'))))
        x = ('call', 'f', [a])
    elif k == 7:    # carry of a sum as argument
        f = Fn('f', rw, [('x', pw)], ('=', S('f'), S('x')))
        x = ('call', 'f', [('b', ctx.choose('op', ['Plus', 'Sll', 'Times']), a, b)])
    elif k == 8:    # selects of ports
        f = Fn('f', rw, [('x', 8), ('i', 2)], ('=', S('f'), ('cat', [('idx', S('x'), S('i')), ('sel', S('x'), K(5), K(2))])))
        x = ('call', 'f', [d, ('sel', a, K(1), K(0))])
    else:           # no range: one bit
        f = Fn('f', 1, [('x', 1), ('y', 4)], ('=', S('f'), ('b', 'Or', S('x'), S('y'))))
        x = ('b', 'Plus', ('call', 'f', [d, b]), ('call', 'f', [c, K(ctx.int('k', 0, 15), 4)]))
    funcs = functions([f], env)
    compare(ctx, design(ctx, [f], '  assign o = %s;\n' % V.emit(x), [('o', ow, 0)]), env, {'o': x}, funcs, {'o': ow})


def h_multi(ctx, k):
    """functions using functions, several outputs"""
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abcde'}
    a, b, c, d, e = [S(n) for n in 'abcde']
    f, g = std(ctx)
    kk = K(ctx.int('kk', 0, 15), 4)
    F = lambda x, y: ('call', 'f', [x, y])
    G = lambda x: ('call', 'g', [x])
    Hc = lambda x, y: ('call', 'h', [x, y])
    if k == 0:
        h = Fn('h', 4, [('x', 4), ('y', 4)], ('=', S('h'), ('b', 'Plus', F(S('y'), S('x')), G(S('x')))))
    elif k == 1:
        h = Fn('h', 4, [('x', 4), ('y', 4)], ('seq', [('=', S('t'), F(S('x'), kk)), ('=', S('h'), F(S('y'), S('t')))], None), [('t', 4)])
    elif k == 2:
        h = Fn('h', 4, [('x', 4), ('y', 4)], ('if', G(S('x')), ('=', S('h'), F(S('x'), S('y'))), ('=', S('h'), F(S('y'), S('x')))))
    elif k == 3:
        h = Fn('h', 4, [('x', 4), ('y', 4)], ('case', G(S('x')), [([kk], ('=', S('h'), G(S('y')))), (None, ('=', S('h'), F(S('x'), S('x'))))]))
    elif k == 4:
        h = Fn('h', 4, [('y', 4), ('x', 4)], ('seq', [('=', S('h'), G(S('x'))), ('if', S('y'), ('=', S('h'), F(S('h'), S('y'))), None)], None))
    else:
        h = Fn('h', 4, [('x', 4), ('y', 4)], ('=', S('h'), F(F(S('x'), S('y')), F(S('y'), S('x')))))
    fns = [f, g, h]
    funcs = functions(fns, env)
    order = ctx.choose('order', [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    x, y = ctx.choose('uses', [(Hc(a, b), Hc(b, a)), (('b', 'Xor', Hc(a, b), Hc(e, b)), F(a, e)), (Hc(Hc(a, b), e), G(Hc(b, b)))])
    text = design(ctx, [fns[i] for i in order], '  assign o = %s;\n  assign p = %s;\n' % (V.emit(x), V.emit(y)), [('o', 4, 0), ('p', 4, 0)])
    compare(ctx, text, env, {'o': x, 'p': y}, funcs, {'o': 4, 'p': 4})


def h_scope(ctx, k):
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abcde'}
    a, b, c, d, e = [S(n) for n in 'abcde']
    f, g = std(ctx)
    F = lambda x, y: ('call', 'f', [x, y])
    funcs = functions([f, g], env)
    w = {'o': 4, 'p': 4}
    if k == 0:
        # the same function name in two modules
        kk = ctx.int('kk', 0, 15)
        sub = 'module sub (input [3:0] x, output [3:0] z);\n%s  assign z = f(x, 4\'d3);\nendmodule\n' % Fn('f', 4, [('y', 4), ('x', 4)], ('=', S('f'), ('b', 'Plus', ('b', 'Minus', S('y'), S('x')), K(kk, 4)))).text()
        text = design(ctx, [f], '  sub u (a, o);\n  assign p = %s;\n' % V.emit(F(a, b)), [('o', 4, 0), ('p', 4, 0)], **{ctx.choose('pos', ['pre', 'post']): sub})
        return compare(ctx, text, env, {'o': ('b', 'Plus', ('b', 'Minus', a, K(3)), K(kk, 4)), 'p': F(a, b)}, funcs, w)
    if k == 1:
        # two instances of a module with a function
        sub = 'module sub (input [3:0] x, y, output [3:0] z);\n%s  assign z = f(x, y) ^ f(y, x);\nendmodule\n' % f.text()
        text = design(ctx, [], '  sub u (a, b, o);\n  sub v (e, a, p);\n', [('o', 4, 0), ('p', 4, 0)], pre=sub)
        return compare(ctx, text, env, {'o': ('b', 'Xor', F(a, b), F(b, a)), 'p': ('b', 'Xor', F(e, a), F(a, e))}, funcs, w)
    if k == 2:
        # in a generate loop
        n = ctx.choose('n', [1, 2, 3])
        env2 = dict(env)
        text = design(ctx, [f, g], '  wire [11:0] t;\n  genvar i;\n  generate for (i = 0; i < %d; i = i + 1) begin : blk\n    assign t[i*4+3:i*4] = f(a + i, b);\n  end endgenerate\n' % n, [('o', 4, 0)], decl='')
        want = V.Val(z3.BitVecVal(0, 12), z3.BitVecVal(-1, 12))
        for i in range(n):
            want = V.overlay(want, V.vext(V.Sem(dict(env), funcs=funcs).ev(F(('b', 'Plus', a, K(i)), b), 4), 4), 4 * i, 12)
        return compare(ctx, text, env, {'t': want}, funcs, {'t': 12})
    if k == 3:
        # parameter inside the function, overridden per instance
        p, q = ctx.int('p', 0, 15), ctx.int('q', 0, 15)
        sub = 'module sub #(parameter P = 1) (input [3:0] x, output [3:0] z);\n  function [3:0] f;\n    input [3:0] x;\n    f = x + P;\n  endfunction\n  assign z = f(x);\nendmodule\n'
        text = design(ctx, [], '  sub #(.P(%s)) u (a, o);\n  sub #(%s) v (b, p);\n' % (V.emit(K(p)), V.emit(K(q))), [('o', 4, 0), ('p', 4, 0)], pre=sub)
        ctx.note(text)
        fl = call(ctx, 'analysis of\n%s' % text, V.analyze, text)
        d_ = V.DFEval(fl, {'TOP.' + n: v for n, v in env.items()}, consts={'TOP.u.P': p, 'TOP.v.P': q})
        for n, s, v in (('o', 'a', p), ('p', 'b', q)):
            got = V.vext(d_.driven('TOP.' + n), 4)
            ctx.check(V.same(V.vext(V.Sem(dict(env)).ev(('b', 'Plus', S(s), K(v)), 4), 4), got), lambda n=n: 'value of %s in\n%s' % (n, text))
        return
    if k == 4:
        # two always blocks and an assign calling the same function
        text = design(ctx, [f, g], '  wire [3:0] t;\n  assign t = %s;\n  always @(*) o = %s;\n  always @(posedge CLK) p <= %s;\n' % (V.emit(F(a, b)), V.emit(F(S('t'), e)), V.emit(F(S('o'), a))), [('o', 4, 1), ('p', 4, 1)], clk=True)
        t = V.Val(V.Sem(dict(env), funcs=funcs).ev(F(a, b), 4).b)
        o = V.Val(V.Sem(dict(env, t=t), funcs=funcs).ev(F(S('t'), e), 4).b)
        pp = V.Val(V.Sem(dict(env, o=o), funcs=funcs).ev(F(S('o'), a), 4).b)
        return compare(ctx, text, env, {'o': o, 'p': pp}, funcs, w)
    if k == 5:
        # locals of the same name, statements after a call see their own
        h = Fn('h', 4, [('x', 4)], ('seq', [('=', S('t'), ('b', 'Minus', S('x'), K(1))), ('=', S('h'), ('b', 'Plus', ('call', 'g', [('u', 'Unot', S('x'))]), S('t')))], None), [('t', 4)])
        funcs = functions([f, g, h], env)
        x = ('b', 'Xor', ('call', 'h', [a]), ('call', 'h', [b]))
        text = design(ctx, [g, h], '  wire [3:0] t;\n  assign t = %s;\n  assign o = t + %s;\n' % (V.emit(x), V.emit(('call', 'h', [S('t')]))), [('o', 4, 0)])
        t = V.Val(V.Sem(dict(env), funcs=funcs).ev(x, 4).b)
        return compare(ctx, text, env, {'o': V.Val(V.Sem(dict(env, t=t), funcs=funcs).ev(('b', 'Plus', S('t'), ('call', 'h', [S('t')])), 4).b)}, funcs, w)
    # the calls of the branches of one always block are independent
    env['o'], env['p'] = V.Val(ctx.sig('o', 4)), V.Val(ctx.sig('p', 4))
    m = ctx.choose('m', ['<=', '='])
    st = ('if', c, ('seq', [(m, S('o'), F(a, b)), (m, S('p'), F(b, a))], None), ('seq', [(m, S('p'), F(e, a)), (m, S('o'), F(a, e))], None))
    text = design(ctx, [f], '  always %s\n%s' % ('@(posedge CLK)' if m == '<=' else '@(*)', V.emit_stmt(st)), [('o', 4, 1), ('p', 4, 1)], clk=m == '<=')
    ex = V.Exec(env, {'o': 4, 'p': 4}, funcs=funcs).run(st)
    compare(ctx, text, env, {'o': ex['o'], 'p': ex['p']}, funcs, w)


def h_big(ctx, k):
    env = {x: V.Val(ctx.sig(x, W[x])) for x in 'abcde'}
    a, b, c, d, e = [S(n) for n in 'abcde']
    f, g = std(ctx)
    F = lambda x, y: ('call', 'f', [x, y])
    G = lambda x: ('call', 'g', [x])
    asn = lambda n, v: ('=', S(n), v)
    w = {'o': 8}
    if k == 0:      # nine calls in one expression
        funcs = functions([f, g], env)
        x = None
        for i, t in enumerate([F(a, b), F(b, a), G(a), F(e, a), G(b), F(a, a), F(b, e), G(e), F(e, K(3, 4))]):
            x = t if x is None else ('b', 'Plus' if i % 2 else 'Xor', x, ('b', 'Sll', t, K(i % 3)))
    elif k == 1:    # nine arguments
        n = 9
        f = Fn('f', 8, [('x%d' % i, 4 if i % 3 else 1) for i in range(n)], asn('f', None))
        s = None
        for i in range(n):
            t = ('b', 'Times', S('x%d' % i), K(i + 1))
            s = t if s is None else ('b', 'Plus', s, t)
        f.body = asn('f', s)
        funcs = functions([f], env)
        acts = [a, b, c, e, ('sel', d, K(5), K(2)), a, ('b', 'Plus', a, b), K(ctx.int('k9', 0, 15), 4), b]
        r = ctx.choose('rot', range(n))
        x = ('call', 'f', acts[r:] + acts[:r])
    elif k == 2:    # long body
        ks = [K(ctx.int('k%d' % i, 0, 15), 4) for i in range(3)]
        f = Fn('f', 8, [('x', 4), ('y', 4)], ('seq', [asn('t', S('x')), asn('f', ('b', 'Plus', S('t'), ks[0])), ('if', ('b', 'Eq', S('t'), S('y')), asn('t', ks[1]), asn('t', ('b', 'Plus', S('f'), S('y')))),
                                                         ('if', ('b', 'GreaterThan', S('t'), ks[2]), ('seq', [asn('f', S('t')), asn('t', S('x'))], None), None),
                                                         asn('f', ('b', 'Xor', S('f'), ('b', 'Sll', S('t'), K(2))))], None), [('t', 5)])
        funcs = functions([f], env)
        x = ('b', 'Minus', ('call', 'f', [a, b]), ('call', 'f', [b, e]))
    elif k == 3:    # case with many labels
        n = 7
        f = Fn('f', 8, [('x', 4)], ('case', S('x'), [([K(i)] if i % 2 else [K(i), K(15 - i)], asn('f', K((i * 5 + 3) % 16, 4))) for i in range(n)] + [(None, asn('f', ('u', 'Unot', S('x'))))]))
        funcs = functions([f], env)
        x = ('call', 'f', [('b', 'Plus', a, K(ctx.int('k', 0, 15), 4))])
    elif k == 4:    # else-if chain
        st = asn('f', S('y'))
        for i in range(6):
            st = ('if', ('b', 'LessThan', S('x'), K(12 - i * 2, 4)), ('seq', [asn('f', ('b', 'Plus', S('y'), K(i)))], None) if i % 2 else asn('f', ('b', 'Xor', S('y'), K(i))), st)
        f = Fn('f', 8, [('x', 4), ('y', 8)], st)
        funcs = functions([f], env)
        x = ('call', 'f', [a, d])
    elif k == 5:    # chain of functions
        n = 5
        fns = []
        for i in range(n):
            nm = 'f%d' % i
            body = asn(nm, ('b', 'Plus', S('x'), K(i + 1))) if i == 0 else asn(nm, ('b', 'Xor', ('call', 'f%d' % (i - 1), [('b', 'Plus', S('x'), K(i))]), S('x')))
            fns.append(Fn(nm, 4, [('x', 4)], body))
        funcs = functions(fns, env)
        x = ('call', 'f4', [a])
        text = design(ctx, fns if ctx.flag('ord') else fns[::-1], '  assign o = %s;\n' % V.emit(x), [('o', 8, 0)])
        return compare(ctx, text, env, {'o': x}, funcs, w)
    elif k == 6:    # a loop
        n = ctx.choose('n', [1, 2, 3, 4])
        f = Fn('f', 4, [('x', 4)], ('seq', [asn('f', K(0, 4)), ('for', 'i', K(0), ('b', 'LessThan', S('i'), K(n)), ('b', 'Plus', S('i'), K(1)),
                                                                     asn('f', ('b', 'Plus', S('f'), ('idx', S('x'), S('i')))))], None), [('i', 'int')])
        funcs = functions([f], env)
        x = ('b', 'Plus', ('call', 'f', [a]), ('call', 'f', [b])) if ctx.flag('twice') else ('call', 'f', [a])
    else:           # a loop writing the bits of the result
        n = ctx.choose('n', [2, 4])
        f = Fn('f', 4, [('x', 4)], ('seq', [asn('f', K(0, 4)), ('for', 'i', K(0), ('b', 'LessThan', S('i'), K(n)), ('b', 'Plus', S('i'), K(1)),
                                                                     ('=', ('idx', S('f'), S('i')), ('idx', S('x'), ('b', 'Minus', K(3), S('i')))))], None), [('i', 'int')])
        funcs = functions([f], env)
        x = ('call', 'f', [a])
    fns = [f] + ([g] if k == 0 else [])
    compare(ctx, design(ctx, fns, '  assign o = %s;\n' % V.emit(x), [('o', 8, 0)]), env, {'o': x}, funcs, w)


def h_errors(ctx):
    """a wrong number of arguments and an unknown function are reported, not guessed"""
    f, g = std(ctx)
    args = ctx.choose('args', ['a', 'a, b, e', None])
    text = design(ctx, [f], '  assign o = %s;\n' % ('f(%s)' % args if args else 'nosuch(a)'), [('o', 4, 0)])
    ctx.note(text)
    t = target.load()
    try:
        V.analyze(text)
    except Exception as ex:
        if type(ex).__name__ in ('FormatError', 'DefinitionError'):
            ctx.check(True, 'rejected')
            return
        ctx.fail('analysis raised %s: %s for\n%s' % (type(ex).__name__, ex, text))
    ctx.fail('a wrong call is accepted in\n%s' % text)
