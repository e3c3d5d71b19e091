"""Imports the real code from /repo's working tree and (for symbolic runs) gives its modules symbolic-aware
versions of a few builtins.  Nothing in /repo is changed; nothing is written there."""
import ast
import builtins
import importlib
import importlib.util
import warnings
import math as _math
import os
import re as _re
import sys
import shutil
import tempfile
import atexit

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'

from . import engine as E
from . import symstr as S

MODULES = [
    'pyverilog.utils.verror', 'pyverilog.utils.scope', 'pyverilog.utils.util', 'pyverilog.utils.op2mark',
    'pyverilog.utils.signaltype', 'pyverilog.utils.inference', 'pyverilog.utils.identifiervisitor',
    'pyverilog.utils.identifierreplace',
    'pyverilog.vparser.ast', 'pyverilog.vparser.lexer', 'pyverilog.vparser.preprocessor',
    'pyverilog.vparser.parser',
    'pyverilog.ast_code_generator.codegen',
    'pyverilog.dataflow.dataflow', 'pyverilog.dataflow.visit', 'pyverilog.dataflow.reorder',
    'pyverilog.dataflow.replace', 'pyverilog.dataflow.optimizer', 'pyverilog.dataflow.merge',
    'pyverilog.dataflow.walker', 'pyverilog.dataflow.subset', 'pyverilog.dataflow.modulevisitor',
    'pyverilog.dataflow.signalvisitor', 'pyverilog.dataflow.bindvisitor',
    'pyverilog.dataflow.dataflow_analyzer', 'pyverilog.dataflow.dataflow_codegen',
    'pyverilog.dataflow.graphgen',
    'pyverilog.controlflow.splitter', 'pyverilog.controlflow.transition',
    'pyverilog.controlflow.controlflow_analyzer', 'pyverilog.controlflow.active_range',
    'pyverilog.controlflow.active_analyzer',
]


# -- shims -------------------------------------------------------------------
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class IntShim(metaclass=_IntMeta):
    def __new__(cls, x=0, base=None):
        if isinstance(x, (E.SymInt,)) and type(x) is E.SymInt:
            return x
        if type(x) is E.SymBool:
            return E._b2i(x)
        if type(x) is E.SymRatio:
            return x.trunc()
        if type(x) is E.SymLog2:
            return x.floor()
        if type(x) is S.SymStr:
            return S.str2int(x, 10 if base is None else base)
        if type(x) is str and E.CTX is not None and E.CTX.symbolic:
            s = x.strip()
            neg = s.startswith('-')
            v = E.CTX.str2num(s[1:] if s[:1] in ('-', '+') else s)
            if v is not None:
                return -v if neg else v
        if base is None:
            return builtins.int(x)
        return builtins.int(x, base)

    from_bytes = builtins.int.from_bytes


class _MathShim(object):
    def __getattr__(self, n):
        return getattr(_math, n)

    def log(self, x, *b):
        if type(x) is E.SymInt and b and b[0] == 2:
            if x <= 0:
                raise ValueError('math domain error')
            return E.SymLog2(x)
        return _math.log(x, *b)

    def log2(self, x):
        return self.log(x, 2)

    def floor(self, x):
        if type(x) in (E.SymLog2, E.SymRatio, E.SymInt):
            return x.__floor__()
        return _math.floor(x)

    def ceil(self, x):
        if type(x) in (E.SymLog2, E.SymRatio, E.SymInt):
            return x.__ceil__()
        return _math.ceil(x)


_scratch = None


def scratch():
    """A private working directory; PLY and friends write there and nowhere else."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='pvsx_')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                os.chdir('/')
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
        os.chdir(_scratch)
    return _scratch


class Target(object):
    pass


# modules whose text operations (sep.join(x), '..' % x, x in y, '..'.format(x), f-strings) go through symbolic-aware functions
REWRITE = {'pyverilog.ast_code_generator.codegen', 'pyverilog.utils.scope', 'pyverilog.dataflow.graphgen'}


class _Rewriter(ast.NodeTransformer):
    def call(self, n, f, args, keywords=()):
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), args, list(keywords)), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return self.call(n, '_sx_join', [n.func.value, n.args[0]])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format':
            return self.call(n, '_sx_format', [n.func.value] + n.args, n.keywords)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return self.call(n, '_sx_mod', [n.left, n.right])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.call(n, '_sx_in', [n.left, n.comparators[0]])
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.conversion != -1 or v.format_spec) for v in n.values):
            return n
        self.generic_visit(n)
        return self.call(n, '_sx_fstring', [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values])


def import_rewritten(n):
    """the module of the working tree, with joins, formats and membership tests replaced by functions that know symbolic text"""
    from . import jsym
    jsym.install()
    spec = importlib.util.find_spec(n)
    with open(spec.origin, encoding='utf-8') as f:
        tree = ast.parse(f.read(), spec.origin)
    tree = ast.fix_missing_locations(_Rewriter().visit(tree))
    m = importlib.util.module_from_spec(spec)
    m.__dict__.update(_sx_join=S.join_any, _sx_mod=S.mod_shim, _sx_in=S.in_any, _sx_format=S.format_any, _sx_fstring=S.fstring)
    sys.modules[n] = m
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        exec(compile(tree, spec.origin, 'exec'), m.__dict__)
    setattr(sys.modules[n.rpartition('.')[0]], n.rpartition('.')[2], m)
    return m


_loaded = None


def load(symbolic=True):
    """Import pyverilog from /repo and return a namespace of its modules."""
    global _loaded
    if _loaded is not None:
        return _loaded
    scratch()
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    from . import pgv
    pgv.install()
    t = Target()
    t.modules = {}
    for n in MODULES:
        try:
            m = import_rewritten(n) if symbolic and n in REWRITE else importlib.import_module(n)
        except ModuleNotFoundError as e:
            if e.name and (e.name == n or n.startswith(e.name + '.')):
                continue
            raise
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep), m.__file__
        t.modules[n] = m
        setattr(t, n.split('.')[-1], m)
    t.vast = t.modules['pyverilog.vparser.ast']
    t.vparser = t.modules['pyverilog.vparser.parser']
    t.symbolic = symbolic
    if symbolic:
        shim_all()
    _loaded = t
    return t


def _pick(builtin, a, k, better):
    if len(a) > 1 and not k and any(type(x) is E.SymInt for x in a) and all(isinstance(x, int) for x in a):
        r = a[0]
        for x in a[1:]:
            c = better(x, r)
            r = E.sym_ite(c.t, x, r) if type(c) is E.SymBool else x if c else r
        return r
    return builtin(*a, **k)


def max_shim(*a, **k):
    return _pick(max, a, k, lambda x, r: x > r)


def min_shim(*a, **k):
    return _pick(min, a, k, lambda x, r: x < r)


class SymSet(list):
    """a set of values that contain symbolic numbers: membership compares with every element"""

    def __init__(self, xs=()):
        list.__init__(self)
        for x in xs:
            self.add(x)

    def add(self, x):
        if not any(x == y for y in self):
            list.append(self, x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)


def _symbolic(x):
    return type(x) is E.SymInt or (isinstance(x, tuple) and any(_symbolic(y) for y in x))


_CMP = _re.compile(r'\s*(-?\d+)\s*(<=|>=|==|!=|<|>)\s*(-?\d+)\s*$')


def eval_shim(x, *a):
    m = _CMP.match(x) if builtins.isinstance(x, str) and E.CTX is not None and E.CTX.symbolic else None
    if not m:
        return builtins.eval(x, *a)
    l, r = IntShim(m.group(1)), IntShim(m.group(3))
    return {'<': lambda: l < r, '<=': lambda: l <= r, '>': lambda: l > r, '>=': lambda: l >= r, '==': lambda: l == r, '!=': lambda: l != r}[m.group(2)]()


class SetShim(metaclass=type('_SetMeta', (type,), {'__instancecheck__': lambda c, x: isinstance(x, (set, SymSet))})):
    def __new__(cls, it=()):
        it = list(it)
        return SymSet(it) if any(_symbolic(x) for x in it) else set(it)


def shim_all():
    for n, m in list(sys.modules.items()):
        if n.startswith('pyverilog') and m is not None and getattr(m, '__file__', None):
            d = m.__dict__
            d['int'] = IntShim
            d['str'] = S.StrShim
            if n == 'pyverilog.controlflow.transition':
                d['set'] = SetShim
            if n.startswith('pyverilog.controlflow.'):
                d['eval'] = eval_shim
            d.setdefault('max', max_shim)
            d.setdefault('min', min_shim)
            if d.get('math') is _math:
                d['math'] = _MathShim()
            if d.get('re') is _re:
                d['re'] = S.ReShim()


# -- which functions of /repo ran -------------------------------------------
class FnTrace(object):
    """Records the functions of /repo executed (sys.monitoring, one event per code object)."""
    TOOL = 3

    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'pvsx')
        except ValueError:
            return
        root = os.path.realpath(REPO) + os.sep

        def cb(code, off):
            f = code.co_filename
            if f.startswith(root):
                self.seen.add(f[len(root):] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(self.TOOL, mon.events.PY_START, cb)
        mon.set_events(self.TOOL, mon.events.PY_START)
