"""Generic views of syntax trees, independent of children()/attr_names/__eq__ of the real classes."""
import inspect
from . import target

# constructor parameters that hold plain values (everything else holds nodes)
PLAIN = {'Source': ('name',), 'ModuleDef': ('name', 'default_nettype'), 'Port': ('name', 'type'), 'Identifier': ('name',), 'Constant': ('value',), 'Variable': ('name', 'signed'),
         'Parameter': ('name', 'signed'), 'Sens': ('type',), 'Block': ('scope',), 'InstanceList': ('module',), 'Instance': ('name', 'module'), 'ParamArg': ('paramname',),
         'PortArg': ('portname',), 'Function': ('name',), 'Task': ('name',), 'SystemCall': ('syscall',), 'IdentifierScopeLabel': ('name',),
         'PragmaEntry': ('name',), 'Disable': ('dest',), 'ParallelBlock': ('scope',), 'EmbeddedCode': ('code',)}
LISTS = {'Description': ('definitions',), 'ModuleDef': ('items',), 'Paramlist': ('params',), 'Portlist': ('ports',), 'Dimensions': ('lengths',), 'Decl': ('list',), 'Concat': ('list',),
         'SensList': ('list',), 'CaseStatement': ('caselist',), 'Case': ('cond',), 'Block': ('statements',), 'InstanceList': ('parameterlist', 'instances'),
         'Instance': ('parameterlist', 'portlist'), 'Function': ('statement',), 'FunctionCall': ('args',), 'Task': ('statement',), 'TaskCall': ('args',),
         'GenerateStatement': ('items',), 'SystemCall': ('args',), 'IdentifierScope': ('labellist',), 'ParallelBlock': ('statements',)}
# parameters a node may lack
OPTIONAL = {'ModuleDef': ('paramlist', 'portlist'), 'Port': ('width', 'dimensions'), 'Identifier': ('scope',), 'Variable': ('width', 'dimensions', 'value'), 'Ioport': ('second',),
            'Parameter': ('width',), 'Assign': ('ldelay', 'rdelay'), 'Always': ('sens_list',), 'Sens': ('sig',), 'Substitution': ('ldelay', 'rdelay'),
            'IfStatement': ('true_statement', 'false_statement'), 'ForStatement': ('pre', 'cond', 'post', 'statement'), 'WhileStatement': ('statement',), 'WaitStatement': ('statement',),
            'Instance': ('array',), 'Function': ('retwidth',), 'IdentifierScopeLabel': ('loop',), 'PragmaEntry': ('value',), 'PortArg': ('argname',), 'ParamArg': ('argname',), 'Case': ('cond', 'statement')}


def classes():
    v = target.load().vast
    return [c for n, c in sorted(vars(v).items()) if inspect.isclass(c) and issubclass(c, v.Node) and c is not v.Node and '__init__' in dir(c) and fields(c)]


def base(cls, table):
    for c in cls.__mro__:
        if c.__name__ in table:
            return table[c.__name__]
    return ()


def fields(cls):
    if cls.__init__ is object.__init__:
        return []
    return [p for p in inspect.signature(cls.__init__).parameters if p not in ('self', 'lineno')]


def plain(cls): return base(cls, PLAIN)


def lists(cls): return base(cls, LISTS)


def optional(cls): return base(cls, OPTIONAL)


def isnode(x):
    return isinstance(x, target.load().vast.Node)


def attrs(node):
    """(name, value) of everything stored in a node, source lines aside"""
    return sorted((k, v) for k, v in vars(node).items() if k not in ('lineno', 'end_lineno'))


def nodes(x):
    """all nodes of a tree"""
    if isnode(x):
        yield x
        for _, v in attrs(x):
            for y in nodes(v):
                yield y
    elif isinstance(x, (list, tuple)):
        for v in x:
            for y in nodes(v):
                yield y


def identifiers(x):
    v = target.load().vast
    return [n for n in nodes(x) if type(n) is v.Identifier]
