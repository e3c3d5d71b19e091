"""C22: hierarchical names behave like sequences of labels; operations are exact and change no operand.
Real code: pyverilog/utils/scope.py, pyverilog/utils/util.py, pyverilog/utils/verror.py."""
import z3
from sx import engine as E, target, symstr as S
from sx.runner import call

BOUNDS = {
    'quick': 'label names up to 4 symbolic characters, all kinds, loop indices absent or symbolic 0..2^31; chains of up to 4 labels; every slice with bounds -5..5 and steps -2..2; '
             'dotted names up to 5 symbolic characters; merges of dictionaries with up to 2 keys and 3 values each',
    'thorough': 'as quick with names up to 8 and dotted names up to 9 symbolic characters'}
OUTSIDE = 'labels changed after they were put into a name; names that contain a dot; different names whose flat text is equal although the names differ in more than loop indices (a.b_c and a.b.c)'
ASSUMPTIONS = ["the kind 'any' stands for every kind, so equality is an equivalence on names without it"]
KINDS = ['module', 'signal', 'block', 'functioncall', 'generate', 'always', 'function', 'task', 'taskcall', 'initial', 'for', 'while', 'if', 'any']


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    n = 4 if q else 8
    for la in range(0, n + 1):
        add('label-%d' % la, 'h_label', la=la, n=n)
    for la in range(0, 4):
        for lb in range(0, 4):
            add('chain-%d-%d' % (la, lb), 'h_chain', la=la, lb=lb)
    for n in range(0, 5):
        add('slice-%d' % n, 'h_slice', n=n)
        add('ops-%d' % n, 'h_ops', n=n)
        add('repr-%d' % n, 'h_repr', n=n)
    add('hash', 'h_hash')
    add('trans', 'h_trans')
    for n in range(1, 6 if q else 10):
        add('termname-%d' % n, 'h_termname', n=n)
    for k in range(6):
        add('flat-%d' % k, 'h_flat', k=k)
    add('errors', 'h_errors')
    add('merge', 'h_merge')
    add('util', 'h_util')
    return out


def ident(ctx, nm, n, dots=False):
    cs = []
    for i in range(n):
        c = ctx.byte('%s%d' % (nm, i))
        cs.append(c)
        ctx.assume(z3.Or(z3.And(c >= 97, c <= 99), z3.And(c >= 48, c <= 57), c == 95, *([c == 46] if dots else [])) if ctx.symbolic else True)
    if not ctx.symbolic:
        return ''.join(chr(int(str(c))) if not isinstance(c, int) else chr(c) for c in cs)
    s = S.SymStr(cs)
    s.h = 77
    return s


def byte_(c):
    return c


def zb(x):
    if isinstance(x, E.SymBool):
        return x.t
    return x if z3.is_expr(x) else z3.BoolVal(bool(x))


def same_name(a, b):
    if type(a) is str and type(b) is str:
        return z3.BoolVal(a == b)
    x, y = S.chars_of(a), S.chars_of(b)
    if len(x) != len(y):
        return z3.BoolVal(False)
    return zb(S.conj([S.ceq(p, q) for p, q in zip(x, y)]))


def same_loop(a, b):
    if a is None or b is None:
        return z3.BoolVal(a is None and b is None)
    return zb(a == b)


def same_label(a, b):
    """the specification: (name, kind, loop) triples"""
    k = a[1] == b[1] or 'any' in (a[1], b[1])
    return z3.And(same_name(a[0], b[0]), same_loop(a[2], b[2]), z3.BoolVal(k))


def label(ctx, nm, lens, kinds, loops=('none', 'sym')):
    name = ident(ctx, nm, ctx.choose(nm + ' length', lens))
    kind = ctx.choose(nm + ' kind', kinds)
    loop = ctx.choose(nm + ' loop', list(loops))
    loop = None if loop == 'none' else ctx.int(nm + ' index', 0, 1 << 31) if loop == 'sym' else loop
    return (name, kind, loop)


def mk(ctx, l):
    return call(ctx, 'ScopeLabel', target.load().scope.ScopeLabel, *l)


def truth(ctx, f, want, what):
    """the boolean the real code returns on this path equals want"""
    r = call(ctx, what, f)
    ctx.check(zb(r) == want if not isinstance(r, bool) else (want if r else z3.Not(want)), what)


def h_label(ctx, la, n):
    kinds = [('module', 'module'), ('module', 'signal'), ('signal', 'any'), ('any', 'for'), ('any', 'any'), ('block', 'functioncall'), ('if', 'if')]
    ka, kb = ctx.choose('kinds', kinds)
    a = label(ctx, 'a', [la], [ka])
    b = label(ctx, 'b', list(range(max(0, la - 1), min(n, la + 1) + 1)), [kb])
    A, B_ = mk(ctx, a), mk(ctx, b)
    eq = same_label(a, b)
    what = '%s of labels of kinds %s'
    truth(ctx, lambda: A == B_, eq, what % ('==', (ka, kb)))
    truth(ctx, lambda: B_ == A, eq, what % ('== (swapped)', (ka, kb)))
    truth(ctx, lambda: A != B_, z3.Not(eq), what % ('!=', (ka, kb)))
    truth(ctx, lambda: A == A, z3.BoolVal(True), 'a label equals itself')
    for o in ('x', None, 3, ('a',)):
        truth(ctx, lambda: A == o, z3.BoolVal(False), 'label == %r' % (o,))
        truth(ctx, lambda: A != o, z3.BoolVal(True), 'label != %r' % (o,))
    ctx.check(same_label((A.scopename, A.scopetype, A.scopeloop), a), 'the parts of a label')


def chain(ctx, ls):
    t = target.load()
    return call(ctx, 'ScopeChain', t.scope.ScopeChain, [mk(ctx, l) for l in ls])


def labels(ctx, nm, n, few=False):
    """n labels: names of one symbolic character, kinds by position"""
    out = []
    for i in range(n):
        last = i == n - 1
        kind = 'module' if i == 0 else 'signal' if last else ('block', 'for')[i % 2]
        if ctx.flag('%s%d any' % (nm, i)) if (last and not few) else False:
            kind = 'any'
        loop = ctx.int('%s%d index' % (nm, i), 0, 99) if kind == 'for' else None
        out.append((ident(ctx, '%s%d' % (nm, i), 1), kind, loop))
    return out


def parts(c):
    return [(x.scopename, x.scopetype, x.scopeloop) for x in c]


def expect(ctx, c, want, what):
    t = target.load()
    ctx.check(isinstance(c, t.scope.ScopeChain) and len(c) == len(want), lambda: '%s has %d parts, not %d' % (what, len(c), len(want)))
    for i, (x, y) in enumerate(zip(parts(c), want)):
        ctx.check(z3.And(same_name(x[0], y[0]), same_loop(x[2], y[2]), z3.BoolVal(x[1] == y[1])), lambda: '%s: part %d' % (what, i))


def h_chain(ctx, la, lb):
    a, b = labels(ctx, 'a', la), labels(ctx, 'b', lb)
    A, B_ = chain(ctx, a), chain(ctx, b)
    eq = z3.And(*[same_label(x, y) for x, y in zip(a, b)]) if la == lb else z3.BoolVal(False)
    eq = z3.BoolVal(True) if la == lb == 0 else eq
    truth(ctx, lambda: A == B_, eq, 'chains of %d and %d parts: ==' % (la, lb))
    truth(ctx, lambda: A != B_, z3.Not(eq), 'chains of %d and %d parts: !=' % (la, lb))
    truth(ctx, lambda: B_ == A, eq, 'chains of %d and %d parts: == (swapped)' % (la, lb))
    truth(ctx, lambda: A == A, z3.BoolVal(True), 'a chain equals itself')
    truth(ctx, lambda: (A + B_) == (A + B_), z3.BoolVal(True), 'equal sums')
    truth(ctx, lambda: A == None or A == 'TOP.x', z3.BoolVal(False), 'a chain equals nothing else')
    truth(ctx, lambda: len(A + B_) == la + lb, z3.BoolVal(True), 'length of the sum')
    if la:
        truth(ctx, lambda: (A + B_)[:la] == A, z3.BoolVal(True), 'the sum starts with the first operand')
        truth(ctx, lambda: (A + B_)[la:] == B_, z3.BoolVal(True), 'the sum ends with the second operand')


def h_slice(ctx, n):
    a = labels(ctx, 'a', n, True)
    A = chain(ctx, a)
    rng = [None] + list(range(-5, 6))
    i = ctx.choose('from', rng)
    for j in rng:
        for s in (None, 1, 2, -1, -2):
            expect(ctx, call(ctx, 'slice', lambda: A[i:j:s]), a[i:j:s], '[%s:%s:%s] of %d parts' % (i, j, s, n))
    for k in range(-n, n):
        x = call(ctx, 'index', lambda: A[k])
        ctx.check(same_label((x.scopename, x.scopetype, x.scopeloop), a[k]), 'part %d' % k)
    expect(ctx, A, a, 'the name itself after slicing')
    r = call(ctx, 'slice', lambda: A[:])
    r.append(mk(ctx, ('zz', 'signal', None)))
    expect(ctx, A, a, 'the name itself after its copy was extended')
    ctx.check(len(list(A)) == n and all(x is y for x, y in zip(A, [A[k] for k in range(n)])), 'iteration')


def h_ops(ctx, n):
    t = target.load()
    a = labels(ctx, 'a', n, True)
    m = ctx.choose('m', [0, 1, 2])
    b = labels(ctx, 'b', m, True)
    src = [mk(ctx, l) for l in a]
    A = call(ctx, 'ScopeChain', t.scope.ScopeChain, src)
    B_ = chain(ctx, b)
    x = ('q', ctx.choose('kind', KINDS), ctx.choose('loop', [None, 0, 7]))
    X = mk(ctx, x)
    R = call(ctx, 'chain + label', lambda: A + X)
    expect(ctx, R, a + [x], 'name + label')
    R2 = call(ctx, 'chain + chain', lambda: A + B_)
    expect(ctx, R2, a + b, 'name + name')
    R3 = call(ctx, 'chain + chain + label', lambda: A + B_ + X)
    expect(ctx, R3, a + b + [x], 'name + name + label')
    expect(ctx, A, a, 'first operand after +')
    expect(ctx, B_, b, 'second operand after +')
    call(ctx, 'append', R2.append, X)
    call(ctx, 'extend', R.extend, [X, X])
    call(ctx, 'extend', R3.extend, B_)
    expect(ctx, R2, a + b + [x], 'append')
    expect(ctx, R, a + [x, x, x], 'extend')
    expect(ctx, R3, a + b + [x] + b, 'extend by a name')
    expect(ctx, A, a, 'first operand after extending the sums')
    expect(ctx, B_, b, 'second operand after extending the sums')
    call(ctx, 'append', A.append, X)
    ctx.check(len(src) == n, 'appending to a name changes the list it was made from')
    expect(ctx, A, a + [x], 'append')
    src.append(X)
    src.append(X)
    expect(ctx, A, a + [x], 'changing the list a name was made from')
    call(ctx, 'empty', t.scope.ScopeChain).append(X)
    ctx.check(len(t.scope.ScopeChain()) == 0, 'new names are empty')
    ml = call(ctx, 'get_module_list', (R3 + A).get_module_list)
    want = [l for l in a + b + [x] + b + a + [x] if l[1] == 'module']
    ctx.check(len(ml) == len(want) and all(z3.is_true(z3.simplify(same_label((p.scopename, p.scopetype, p.scopeloop), q))) for p, q in zip(ml, want)), 'modules of a name')
    ctx.check(X.isPrintable() == (x[1] in ('module', 'block', 'signal', 'functioncall', 'any')), 'printable kinds')


def h_hash(ctx):
    """equal names have equal hashes and find each other in dictionaries and sets"""
    t = target.load()
    nm = ['a', 'b', 'ab']
    ks = ctx.choose('kinds', [('module', 'module'), ('signal', 'any'), ('any', 'for'), ('for', 'for'), ('block', 'signal')])
    pre = [('TOP', 'module', None)]
    l = [(ctx.choose('n%d' % i, nm), ks[i], ctx.choose('l%d' % i, [None, 'i0', 'i1'])) for i in (0, 1)]
    v = {'i0': ctx.int('i0', 0, 3), 'i1': ctx.int('i1', 0, 3), None: None}
    l = [(n, k, v[x]) for n, k, x in l]
    A, B_ = (chain(ctx, pre + [x]) for x in l)
    eq = same_label(*l)
    r = call(ctx, '==', lambda: A == B_)
    d = {A: 1}
    s = set([A[1]])
    found, got, hit = call(ctx, 'lookup', lambda: (B_ in d, d.get(B_), B_[1] in s))
    ctx.check((eq if found else z3.Not(eq)), lambda: '%r found under %r' % (B_, A))
    ctx.check(got == (1 if found else None) and hit == found, 'lookup')
    if bool(r):
        ctx.check(hash(A) == hash(B_) and hash(A[1]) == hash(B_[1]), lambda: 'hashes of the equal names %r and %r' % (A, B_))


def h_trans(ctx):
    """equality is transitive (kind any aside)"""
    ks = [ctx.choose('k%d' % i, ['module', 'signal', 'for']) for i in range(3)]
    ls = [(ident(ctx, 'n%d' % i, 2), ks[i], ctx.int('l%d' % i, 0, 9)) for i in range(3)]
    A, B_, C = (chain(ctx, [l]) for l in ls)
    x, y, z = (zb(call(ctx, '==', f)) for f in (lambda: A == B_, lambda: B_ == C, lambda: A == C))
    ctx.check(z3.Implies(z3.And(x, y), z), 'transitive')


def h_repr(ctx, n):
    """text of a name: parts joined by dots, loop index in brackets; readable back"""
    t = target.load()
    a = []
    for i in range(n):
        a.append((ctx.choose('n%d' % i, ['a', 'b_c', 'TOP', 'x1'] if i < 2 else ['z', 'zz']), ctx.choose('k%d' % i, ['signal', 'for', 'any'] if i < 2 else ['for']), ctx.choose('l%d' % i, [None, 's'])))
    a = [(x, k, ctx.int('i%d' % i, 0, 1000) if l else None) for i, (x, k, l) in enumerate(a)]
    A = chain(ctx, a)
    r = call(ctx, 'repr', lambda: A.__repr__())
    want = '.'.join(x + ('' if l is None else '[%s]' % (ctx.num2str(l) if ctx.symbolic else l)) for x, k, l in a)
    ctx.check(r == want, lambda: 'text of %s is %s' % (a, r))
    if n and all(l is None for _, _, l in a):
        B_ = call(ctx, 'toTermname', t.util.toTermname, r)
        ctx.check(B_ == A and A == B_ and hash(A) == hash(B_), lambda: 'toTermname(%s)' % r)
        for f in (list, tuple):
            C = call(ctx, 'toTermname', t.util.toTermname, f(x for x, _, _ in a))
            ctx.check(C == A and len(C) == n, lambda: 'toTermname of %s' % f.__name__)


def h_termname(ctx, n):
    """dotted text with symbolic characters"""
    t = target.load()
    s = ident(ctx, 's', n, dots=True)
    A = call(ctx, 'toTermname', t.util.toTermname, s)
    cs = S.chars_of(s) if ctx.symbolic else [ord(c) for c in s]
    got = []
    for i, x in enumerate(A):
        if i:
            got.append(46)
        got += S.chars_of(x.scopename) if type(x.scopename) is not str else [ord(c) for c in x.scopename]
        ctx.check(x.scopetype == 'any' and x.scopeloop is None, 'parts of a name made from text')
        for c in (S.chars_of(x.scopename) if type(x.scopename) is not str else [ord(c) for c in x.scopename]):
            ctx.check(zb(c != 46), 'a part contains no dot')
    ctx.check(len(got) == len(cs), 'toTermname keeps every character')
    for p, q in zip(got, cs):
        ctx.check(zb(p == q), 'toTermname keeps every character')
    ctx.check(len(call(ctx, 'getScope', t.util.getScope, A)) == len(A) - 1, 'scope')


def h_flat(ctx, k):
    """flat text: a function of the name; printable parts in order joined by _, loop indices of for scopes kept"""
    t = target.load()
    i, j = ctx.int('i', 0, 300), ctx.int('j', 0, 300)
    n = lambda v: ctx.num2str(v) if ctx.symbolic else str(v)
    M, G, A_, s = ('TOP', 'module', None), ('gen', 'generate', None), ('al', 'always', None), ('x', 'signal', None)
    a, want = [
        lambda: ([M, ('u', 'module', None), s], ['TOP_u_x']),
        lambda: ([M, G, A_, ('ifx', 'if', None), s], ['TOP_x']),
        lambda: ([M, ('blk', 'block', None), ('f', 'functioncall', None), s], ['TOP_blk_f_x']),
        lambda: ([M, ('g', 'for', i), s], None),
        lambda: ([M, ('g', 'for', i), ('u', 'module', None), ('h', 'for', j), s], None),
        lambda: ([('y', 'any', None), ('z', 'any', None)], ['y_z'])][k]()
    A = chain(ctx, a)
    r = call(ctx, 'toFlatname', t.util.toFlatname, A)
    if want:
        ctx.check(r in want, lambda: 'flat text of %r is %s' % (A, r))
    ctx.check(r == call(ctx, 'toFlatname', t.util.toFlatname, chain(ctx, a)), 'equal names have equal flat text')
    if k in (3, 4):
        i2, j2 = ctx.int('i2', 0, 300), ctx.int('j2', 0, 300)
        b = [(x, kd, {id(i): i2, id(j): j2}.get(id(l), l) if l is not None else None) for x, kd, l in a]
        r2 = call(ctx, 'toFlatname', t.util.toFlatname, chain(ctx, b))
        eq = zb(i == i2) if k == 3 else z3.And(zb(i == i2), zb(j == j2))
        # the texts contain the loop indices: compare them as texts of numbers
        ctx.check(text_eq(ctx, r, r2) == eq, lambda: 'flat texts %s and %s of names that differ in loop indices' % (r, r2))
        ctx.check(r.startswith('TOP_') and '_x' in r and n(i) in r and (k == 3 or '_u_' in r and n(j) in r), lambda: 'flat text %s' % r)
    ctx.check(all(c.isalnum() or c == '_' for c in r), lambda: 'flat text %s is an identifier' % r)


def text_eq(ctx, a, b):
    if not ctx.symbolic:
        return z3.BoolVal(a == b)
    import re
    x, y = re.split(r'(\d+)', a), re.split(r'(\d+)', b)
    if len(x) != len(y):
        return z3.BoolVal(False)
    out = []
    for p, q in zip(x, y):
        if p.isdigit() and q.isdigit():
            u, v = ctx.str2num(p), ctx.str2num(q)
            out.append(zb((int(p) if u is None else u) == (int(q) if v is None else v)))
        elif p != q:
            return z3.BoolVal(False)
    return z3.And(*out)


def h_errors(ctx):
    t = target.load()
    for f in (lambda: t.scope.ScopeLabel('a', 'nokind'), lambda: t.scope.ScopeChain() + 3, lambda: t.scope.ScopeChain() + 'a', lambda: t.scope.ScopeChain() + None):
        try:
            f()
        except t.verror.DefinitionError:
            continue
        except Exception as e:
            ctx.fail('a wrong name is reported as a definition error, not %s: %s' % (type(e).__name__, e))
        ctx.fail('a wrong name is reported')
    for x in (3, None, ['a', 3]):
        try:
            t.util.toTermname(x)
        except TypeError:
            continue
        ctx.fail('toTermname(%r) is an error' % (x,))
    for k in KINDS:
        ctx.check(call(ctx, 'label', t.scope.ScopeLabel, 'a', k).scopetype == k, 'kind %s' % k)


def h_merge(ctx):
    """dictlistmerge: union of two tables of lists, in order, without duplicates from the second; the operands stay"""
    t = target.load()
    pool = [('k', [ctx.choose('a%d' % i, [1, 2]) for i in range(ctx.choose('na', [0, 1, 2]))]), ('m', [7])]
    other = [('k', [ctx.choose('b%d' % i, [1, 2, 3]) for i in range(ctx.choose('nb', [0, 1, 2]))]), ('n', [8, 9])]
    a, b = dict(pool[:ctx.choose('ka', [0, 1, 2])]), dict(other[:ctx.choose('kb', [0, 1, 2])])
    a0, b0 = {k: list(v) for k, v in a.items()}, {k: list(v) for k, v in b.items()}
    r = call(ctx, 'dictlistmerge', t.util.dictlistmerge, a, b)
    want = {k: list(v) for k, v in a0.items()}
    for k, v in b0.items():
        if k in want:
            for x in v:
                if x not in want[k]:
                    want[k].append(x)
        else:
            want[k] = list(v)
    ctx.check(dict(r) == want and list(r) == list(want), lambda: 'merge of %s and %s: %s' % (a0, b0, r))
    ctx.check(a == a0 and b == b0, lambda: 'merging changes its operands: %s and %s' % (a, b))


def h_util(ctx):
    t = target.load()
    w = ctx.int('w', 1, 40)
    m = call(ctx, 'maxValue', t.util.maxValue, w)
    ctx.check(zb(m == (1 << E.concretize(w)) - 1) if type(w) is E.SymInt else m == (1 << w) - 1, 'largest value of w bits')
    n = ctx.choose('n', [1, 2, 3])
    c = t.util.toTermname(['a', 'b', 'c'][:n])
    ctx.check(call(ctx, 'isTopmodule', t.util.isTopmodule, c) == (n == 1), 'top')
    sc, sig = call(ctx, 'splitScopeName', t.util.splitScopeName, c)
    ctx.check(sc == '.'.join('abc'[:n - 1]) and str(sig) == 'abc'[n - 1], 'scope and signal of %s: %s, %s' % (c, sc, sig))
