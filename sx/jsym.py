"""Lets jinja2 templates render symbolic strings: the Python code jinja2 compiles from a template runs as it is, with symbolic-aware str() and joining."""
import sys
import textwrap

from . import symstr as S


def indent(text, prefix, predicate=None):
    if not S.is_sym(text):
        return _indent(text, prefix, predicate)
    out = []
    for line in text.splitlines(True):
        if (predicate(line) if predicate else line.strip()):
            out.append(prefix)
        out.append(line)
    return S.join_shim('', out)


_indent = textwrap.indent


def install():
    from . import target
    if target.VENV_SITE not in sys.path:
        sys.path.append(target.VENV_SITE)
    textwrap.indent = indent
    import jinja2
    import jinja2.environment as je
    je.Environment.concat = staticmethod(lambda it: S.join_shim('', it))
    # one compilation per template text
    compile_, memo = je.Environment.compile, {}

    def compiled(self, source, name=None, filename=None, raw=False, defer_init=False):
        k = (source, name, filename, raw, defer_init, self.trim_blocks, self.lstrip_blocks, self.autoescape, self.keep_trailing_newline) if isinstance(source, str) else None
        if k is None:
            return compile_(self, source, name, filename, raw, defer_init)
        if k not in memo:
            memo[k] = compile_(self, source, name, filename, raw, defer_init)
        return memo[k]
    je.Environment.compile = compiled
    old = je.Template._from_namespace.__func__

    def from_namespace(cls, environment, namespace, globals):
        namespace['str'] = S.StrShim
        return old(cls, environment, namespace, globals)
    je.Template._from_namespace = classmethod(from_namespace)
