"""C24: the preprocessor is driven with the requested files, paths and macros.
Real code: pyverilog/vparser/preprocessor.py, pyverilog/vparser/parser.py (VerilogCodeParser, parse), pyverilog/dataflow/dataflow_analyzer.py (constructor).
The file system, temporary files and the external program are stand-ins that record what they are given."""
import builtins
import os
import subprocess
import tempfile
import z3
from sx import engine as E, target, vlog as V, symstr as S
from sx.runner import call

BOUNDS = {
    'quick': 'up to 3 sources, every mix of files and source strings, with symbolic names and texts of 1 to 3 characters; up to 2 include paths and 2 macros (symbolic, repetitions included); '
             'lists, tuples, iterators and a single string; all entry points; the external program missing, failing with and without output; two interleaved parsers',
    'thorough': 'up to 4 sources, up to 3 include paths and macros, texts up to 6 characters'}
OUTSIDE = 'what the external program does with its input; names that start with "-"; failures while temporary files are written; a preprocessor that is constructed and never run keeps its temporary files'
ASSUMPTIONS = ['a path names a file exactly when the stand-in file system has it']


def setup(symbolic):
    V.setup_parser()


ENTRIES = ['class', 'function', 'codeparser', 'parse', 'analyzer']


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(i, h, **p):
        out.append(dict(id=i, h=h, p=p))
    for e in ENTRIES:
        add('sources-%s' % e, 'h_run', entry=e, ns=3 if q else 4, ni=(0, 1), nd=(0, 1), m=3 if q else 6)
        add('options-%s' % e, 'h_run', entry=e, ns=1, ni=range(3 if q else 4), nd=range(3 if q else 4), m=1 if q else 2)
        add('faults-%s' % e, 'h_fault', entry=e)
    add('containers', 'h_containers')
    add('interleaved', 'h_two')
    add('again', 'h_again')
    return out


def text(ctx, nm, n):
    cs = [ctx.byte('%s%d' % (nm, i)) for i in range(n)]
    for i, c in enumerate(cs):
        ctx.assume(S.inrange(c, 1, 126))
        if i == 0:
            ctx.assume(z3.Not(zb(S.ceq(c, ord('-')))) if ctx.symbolic else c != ord('-'))
    return S.mkstr(cs) if ctx.symbolic else ''.join(chr(c) for c in cs)


def zb(x):
    return x.t if isinstance(x, E.SymBool) else x if z3.is_expr(x) else z3.BoolVal(bool(x))


def eqs(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return z3.BoolVal(a is b)
    x, y = S.chars_of(a), S.chars_of(b)
    return zb(S.conj([S.ceq(p, q) for p, q in zip(x, y)])) if len(x) == len(y) else z3.BoolVal(False)


class File(object):
    def __init__(self, world, entry, mode):
        self.w, self.e, self.mode = world, entry, mode
        if 'w' in mode:
            entry[1] = ''

    def write(self, s):
        self.e[1] = self.e[1] + s
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def read(self): return self.e[1]
    def readlines(self): return self.e[1].splitlines(True)
    def __iter__(self): return iter(self.readlines())
    def flush(self): pass
    def close(self): pass
    def fileno(self): return self.e[2]
    name = property(lambda self: self.e[0])
    def __enter__(self): return self
    def __exit__(self, *a): pass


class World(object):
    """stand-ins for the file system, temporary files and the external program"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.files = []        # [name, text, fd]
        self.temps = []        # names handed out
        self.calls = []        # argument lists
        self.outcomes = []     # what the next calls do
        self.count = 0

    def find(self, name):
        for e in self.files:
            if e[2] == name if type(name) is int else (isinstance(name, str) and bool(e[0] == name)):
                return e
        return None

    def add(self, name, text=''):
        self.files.append([name, text, 1000 + len(self.files) + self.count])
        return self.files[-1]

    # -- stand-ins
    def open(self, f, mode='r', *a, **k):
        e = self.find(f)
        if e is None:
            if 'w' not in mode:
                raise FileNotFoundError(2, 'No such file or directory', str(f))
            e = self.add(f)
        return File(self, e, mode)

    def isfile(self, f): return self.find(f) is not None

    def remove(self, f, *a, **k):
        e = self.find(f)
        if e is None:
            raise FileNotFoundError(2, 'No such file or directory', str(f))
        self.files = [x for x in self.files if x is not e]

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.count += 1
        name = '%s/%s_%d%s' % (dir or '/stand-in', prefix or 'tmp', self.count, suffix or '')
        self.temps.append(name)
        e = self.add(name)
        return e[2], name

    def NamedTemporaryFile(self, mode='w+b', *a, **k):
        delete = k.pop('delete', True)
        k = {x: y for x, y in k.items() if x in ('suffix', 'prefix', 'dir')}
        fd, name = self.mkstemp(**k)
        f = File(self, self.find(fd), 'w')
        if delete:
            f.close = lambda: self.remove(name) if self.find(name) else None
            f.__class__ = type('F', (File,), {'__exit__': lambda s, *a: s.close()})
        return f

    def run(self, cmd, *a, **k):
        self.calls.append([(x, (self.find(x) or [0, None])[1]) for x in cmd])
        what = self.outcomes.pop(0) if self.outcomes else 'ok'
        if what == 'missing':
            raise FileNotFoundError(2, 'No such file or directory', cmd[0])
        if what == 'interrupt':
            raise KeyboardInterrupt()
        if what in ('ok', 'partial'):
            out = [cmd[i + 1] for i, x in enumerate(cmd[:-1]) if isinstance(x, str) and bool(x == '-o')]
            if len(out) == 1:
                self.open(out[0], 'w').write('module out%d; endmodule\n' % len(self.calls))
        return 0 if what == 'ok' else 1

    def subrun(self, cmd, *a, **k):
        r = self.run(cmd)
        if k.get('check') and r:
            raise subprocess.CalledProcessError(r, cmd)
        return subprocess.CompletedProcess(cmd, r, '', '')

    def check_call(self, cmd, *a, **k): return self.subrun(cmd, check=True).returncode
    def check_output(self, cmd, *a, **k): return self.subrun(cmd, check=True).stdout

    def Popen(self, cmd, *a, **k):
        r = self.run(cmd)
        p = type('P', (), dict(returncode=r, wait=lambda s, *a, **k: r, poll=lambda s: r, communicate=lambda s, *a, **k: ('', ''), __enter__=lambda s: s, __exit__=lambda s, *a: None))()
        return p

    def install(self):
        w = self
        table = [(os, 'remove', w.remove), (os, 'unlink', w.remove), (os, 'close', lambda fd: None), (os, 'fdopen', w.open), (os.path, 'isfile', w.isfile), (os.path, 'exists', w.isfile), (os.path, 'lexists', w.isfile),
                 (tempfile, 'mkstemp', w.mkstemp), (tempfile, 'NamedTemporaryFile', w.NamedTemporaryFile), (subprocess, 'call', w.run), (subprocess, 'run', w.subrun), (subprocess, 'check_call', w.check_call),
                 (subprocess, 'check_output', w.check_output), (subprocess, 'Popen', w.Popen)]
        t = target.load()
        mods = [t.preprocessor, t.vparser, t.dataflow_analyzer]
        saved = []
        for m, n, f in table:
            old = getattr(m, n)
            saved.append((m.__dict__, n, old))
            for x in mods:
                for k, v in list(x.__dict__.items()):
                    if v is old and not isinstance(v, type(os)):
                        saved.append((x.__dict__, k, v))
                        x.__dict__[k] = f
            setattr(m, n, f)
        for x in mods:
            saved.append((x.__dict__, 'open', x.__dict__.get('open')))
            x.__dict__['open'] = w.open
        # the LALR tables are built once (setup), not in every front end
        saved.append((t.vparser.__dict__, 'VerilogParser', t.vparser.__dict__['VerilogParser']))
        parser = V.setup_parser()
        t.vparser.__dict__['VerilogParser'] = lambda *a, **k: parser
        return saved

    def uninstall(self, saved):
        for d, n, v in reversed(saved):
            if v is None:
                d.pop(n, None)
            else:
                d[n] = v


def inworld(w, f, *a, **k):
    saved = w.install()
    try:
        return f(*a, **k)
    finally:
        w.uninstall(saved)


def decode(ctx, args):
    """an argument list of the external program: (program, includes, defines, outputs, files, preprocess only)"""
    prog, inc, dfn, out, files, only = args[0][0], [], [], [], [], 0
    i = 1
    while i < len(args):
        a = args[i][0]
        cs = S.chars_of(a) if isinstance(a, str) else None
        ctx.check(cs is not None, 'argument %r is not a string' % (a,))
        opt = len(cs) > 1 and cs[0] == ord('-') and type(cs[1]) is int
        if opt and chr(cs[1]) in 'IDo':
            dest = {'I': inc, 'D': dfn, 'o': out}[chr(cs[1])]
            if len(cs) > 2:
                dest.append(a[2:])
            else:
                i += 1
                ctx.check(i < len(args), 'option without value')
                dest.append(args[i][0])
        elif opt:
            ctx.check(a == '-E', lambda: 'unexpected option %s' % a)
            only += 1
        else:
            files.append(args[i])
        i += 1
    return prog, inc, dfn, out, files, only


def expect(ctx, w, args, sources, include, define, output, real):
    """sources: texts; real: names of the files that exist"""
    prog, inc, dfn, out, files, only = decode(ctx, args)
    ctx.check(prog == os.environ.get('PYVERILOG_IVERILOG', 'iverilog'), lambda: 'runs %s' % prog)
    ctx.check(only == 1, 'the program is not asked to preprocess only')
    ctx.check(len(out) == 1 and zb(out[0] == output), lambda: 'output goes to %s instead of %s' % (out, output))
    for got, want, what in ((inc, include, 'include paths'), (dfn, define, 'macros')):
        ctx.check(len(got) == len(want), lambda: '%s %s given as %s' % (what, list(want), got))
        for g, x in zip(got, want):
            ctx.check(eqs(g, x), lambda: '%s %s given as %s' % (what, list(want), got))
    ctx.check(len(files) == len(sources), lambda: '%d sources given as %d: %s' % (len(sources), len(files), files))
    for (g, txt), s in zip(files, sources):
        isf = z3.Or([eqs(s, r) for r in real] + [z3.BoolVal(False)])
        ctx.check(z3.If(isf, eqs(g, s), eqs(txt, s)), lambda: 'source %s is given as %s with text %s (all: %s for %s)' % (s, g, txt, files, sources))


def drive(w, entry, sources, include, define, output, do=True):
    """build the front end; returns a function that runs it"""
    t = target.load()
    kw = dict(preprocess_include=include, preprocess_define=define)
    if entry == 'class':
        p = t.preprocessor.VerilogPreprocessor(sources, output, include, define)

        def run():
            r = p.preprocess()
            s = w.open(output).read()
            w.remove(output)
            return s
        return run
    if entry == 'function':
        return lambda: t.preprocessor.preprocess(sources, output, include, define)
    if entry == 'codeparser':
        p = t.vparser.VerilogCodeParser(sources, preprocess_output=output, debug=False, **kw)
        return lambda: p.parse()
    if entry == 'parse':
        return lambda: t.vparser.parse(sources, debug=False, **kw)[0]
    p = t.dataflow_analyzer.VerilogDataflowAnalyzer(sources, 'out1', **kw)
    return lambda: p.parse()


def outname(entry):
    return 'preprocess.output' if entry in ('parse', 'analyzer') else 'some.out'


def modules(r):
    return [d.name for d in r.description.definitions]


def result(ctx, entry, r, n):
    want = 'module out%d; endmodule\n' % n
    if entry in ('class', 'function'):
        ctx.check(r == want, lambda: 'output %r, expected %r' % (r, want))
    else:
        ctx.check(modules(r) == ['out%d' % n], lambda: 'parsed modules %s, expected out%d' % (modules(r), n))


def survivors(ctx, w, real, output, when):
    left = [e[0] for e in w.files if not any(e[0] is r for r in real)]
    ctx.check(not left, lambda: 'files left %s: %s' % (when, left))
    ctx.check(len(w.files) == len(real), lambda: 'a source file was removed: %s of %s are left' % ([e[0] for e in w.files], real))


def mksources(ctx, w, n, m):
    sources, real = [], []
    for i in range(n):
        k = ctx.choose('kind%d' % i, ['file', 'text'])
        s = text(ctx, 's%d_' % i, 1 + i % m if k == 'file' else m - i % m)
        if k == 'file' and not any(bool(s == r) for r in real):
            real.append(s)
            w.add(s, 'contents %d' % i)
        sources.append(s)
    return sources, real


def env(ctx):
    if ctx.choose('program', ['', 'my-iverilog']):
        os.environ['PYVERILOG_IVERILOG'] = 'my-iverilog'
    else:
        os.environ.pop('PYVERILOG_IVERILOG', None)


def h_run(ctx, entry, ns, ni, nd, m):
    w = World(ctx)
    env(ctx)
    sources, real = mksources(ctx, w, ctx.choose('sources', list(range(ns + 1))) if ns > 1 else 1, m)
    a, b = ctx.choose('include', list(ni)), ctx.choose('define', list(nd))
    include = [text(ctx, 'i%d_' % i, 1 + i) for i in range(a)] if a or ctx.flag('nolist') else None
    define = [text(ctx, 'd%d_' % i, 1 + i) for i in range(b)] if b else None
    out = outname(entry)
    ctx.note(lambda: '%s of %s, files %s, include %s, define %s' % (entry, sources, real, include, define))
    given = list(sources), None if include is None else list(include), None if define is None else list(define)
    run = call(ctx, entry, inworld, w, drive, w, entry, sources, include, define, out)
    r = call(ctx, entry, inworld, w, run)
    ctx.check(len(w.calls) == 1, 'the external program runs %d times' % len(w.calls))
    expect(ctx, w, w.calls[0], sources, include or (), define or (), out, real)
    ctx.check(len(sources) == len(given[0]) and all(x is y for x, y in zip(sources, given[0])) and (include is None or len(include) == len(given[1])) and (define is None or len(define) == len(given[2])),
              'the given lists are changed')
    survivors(ctx, w, real, out, 'after %s' % entry)
    result(ctx, entry, r, 1)


def h_fault(ctx, entry):
    """the external program is missing, interrupted, or fails: nothing is left behind, and nothing but its output is parsed"""
    w = World(ctx)
    env(ctx)
    sources, real = mksources(ctx, w, ctx.choose('sources', [1, 2, 3]), 2)
    out = outname(entry)
    how = ctx.choose('fault', ['missing', 'interrupt', 'failed', 'failed-stale', 'partial'])
    w.outcomes = [how.split('-')[0]]
    if how.endswith('stale'):
        w.add(out, 'module stale; endmodule\n')
    ctx.note(lambda: '%s of %s, files %s, program %s' % (entry, sources, real, how))
    run = call(ctx, entry, inworld, w, drive, w, entry, sources, None, None, out)
    r = exc = None
    try:
        r = inworld(w, run)
    except KeyboardInterrupt as e:
        exc = e
    except Exception as e:
        exc = e
    left = [t for t in w.temps if w.find(t)]
    ctx.check(not left, lambda: 'temporary files are left when the program is %s: %s' % (how, left))
    for x in real:
        ctx.check(w.find(x) is not None, 'a source file was removed')
    if how in ('missing', 'interrupt'):
        ctx.check(exc is not None, 'the program could not run (%s), and nothing is reported' % how)
    if how.startswith('failed'):
        ctx.check(exc is not None, lambda: 'the program wrote nothing, and the result is %s' % (r if isinstance(r, str) else modules(r)), known=[('C24-stale', z3.BoolVal(how.endswith('stale')))])


def h_containers(ctx):
    """lists, tuples, iterators, one string"""
    w = World(ctx)
    entry = ctx.choose('entry', ENTRIES)
    x, y = text(ctx, 'x', 2), text(ctx, 'y', 3)
    real = [x]
    w.add(x, 'contents')
    form = ctx.choose('form', ['list', 'tuple', 'iter', 'file', 'string'] if entry != 'analyzer' else ['list', 'tuple', 'file', 'string'])
    src = {'list': [x, y], 'tuple': (y, x), 'iter': None, 'file': x, 'string': y}[form]
    flat = {'list': [x, y], 'tuple': [y, x], 'iter': [y, x, y], 'file': [x], 'string': [y]}[form]
    if form == 'iter':
        src = iter(flat)
    inc = ctx.choose('inc', [None, ('p', 'q'), ['p', 'p'], ()])
    dfn = ctx.choose('dfn', [None, ('A=1', 'B'), ['A', 'A'], ['A="x y"']])
    ctx.note(lambda: '%s of %s as %s' % (entry, flat, form))
    out = outname(entry)
    run = call(ctx, entry, inworld, w, drive, w, entry, src, inc, dfn, out)
    r = call(ctx, entry, inworld, w, run)
    ctx.check(len(w.calls) == 1, 'the external program runs %d times' % len(w.calls))
    expect(ctx, w, w.calls[0], flat, inc or (), dfn or (), out, real)
    survivors(ctx, w, real, out, 'after %s' % entry)
    result(ctx, entry, r, 1)


def h_two(ctx):
    """two front ends at the same time"""
    w = World(ctx)
    e1, e2 = ctx.choose('entries', [(a, b) for a in ENTRIES for b in ENTRIES if a <= b])
    x, y, z = text(ctx, 'x', 2), text(ctx, 'y', 2), text(ctx, 'z', 1)
    w.add('file', 'contents')
    ctx.note(lambda: '%s of %s, %s of %s' % (e1, [x, 'file', y], e2, [y, z]))
    r1 = call(ctx, e1, inworld, w, drive, w, e1, [x, 'file', y], ['a'], None, outname(e1))
    r2 = call(ctx, e2, inworld, w, drive, w, e2, [y, z], None, ['B'], outname(e2))
    order = ctx.choose('order', [0, 1])
    for k, which in enumerate((0, 1) if order == 0 else (1, 0)):
        e, run, s, i, d = [(e1, r1, [x, 'file', y], ['a'], []), (e2, r2, [y, z], [], ['B'])][which]
        r = call(ctx, e, inworld, w, run)
        ctx.check(len(w.calls) == k + 1, 'the external program runs %d times' % len(w.calls))
        expect(ctx, w, w.calls[k], s, i, d, outname(e), ['file'])
        result(ctx, e, r, k + 1)
    survivors(ctx, w, [w.files[0][0]] if w.files else ['file'], '', 'after both')


def h_again(ctx):
    """files only: running twice"""
    w = World(ctx)
    t = target.load()
    x = text(ctx, 'x', 2)
    w.add(x, 'c')
    entry = ctx.choose('entry', ['class', 'codeparser', 'analyzer'])
    run = call(ctx, entry, inworld, w, drive, w, entry, [x, x], ['i'], ['d'], outname(entry))
    for k in range(3):
        r = call(ctx, entry, inworld, w, run)
        ctx.check(len(w.calls) == k + 1, 'one run each')
        expect(ctx, w, w.calls[k], [x, x], ['i'], ['d'], outname(entry), [x])
        result(ctx, entry, r, k + 1)
    survivors(ctx, w, [x], '', 'after three runs')
