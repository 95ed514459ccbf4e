"""Import hook: loads modules of the code under test from their current
source, with calls and container displays routed through `dispatch`."""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys

from . import dispatch


HOOK = '__pysym__'


class Transform(ast.NodeTransformer):

    def __init__(self):
        self.functions = []
        self._stack = []

    def _h(self, name, args, node, keywords=()):
        return ast.copy_location(
            ast.Call(
                func=ast.Attribute(
                    value=ast.Name(id=HOOK, ctx=ast.Load()),
                    attr=name, ctx=ast.Load()),
                args=args, keywords=list(keywords)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in (
                'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'):
            return node
        return self._h('call', [node.func] + node.args, node, node.keywords)

    def visit_Dict(self, node):
        self.generic_visit(node)
        parts = []
        for k, v in zip(node.keys, node.values):
            parts.append(ast.Tuple(
                elts=[k if k is not None else ast.Constant(value=None), v,
                      ast.Constant(value=k is None)],
                ctx=ast.Load()))
        return self._h('mkdict', parts, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._h('mkset', [ast.List(elts=node.elts, ctx=ast.Load())],
                       node)

    @staticmethod
    def _is_async(node):
        return (any(g.is_async for g in node.generators) or
                any(isinstance(n, ast.Await) for n in ast.walk(node)))

    def visit_DictComp(self, node):
        is_async = self._is_async(node)
        self.generic_visit(node)
        lc = ast.ListComp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators)
        ast.copy_location(lc, node)
        del is_async
        return self._h('mkdict_items', [lc], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lc = ast.copy_location(
            ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._h('mkset', [lc], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(
                node.ops[0], (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            name = {ast.In: 'in_', ast.NotIn: 'not_in', ast.Is: 'is_',
                    ast.IsNot: 'is_not'}[type(node.ops[0])]
            return self._h(name, [node.left, node.comparators[0]], node)
        if len(node.ops) == 1:
            name = {ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge',
                    ast.Eq: 'eq', ast.NotEq: 'ne'}[type(node.ops[0])]
            return self._h(name, [node.left, node.comparators[0]], node)
        return node

    def _func(self, node):
        self._stack.append(node.name)
        # decorators and defaults are evaluated in outer scope: transformed
        # the same way
        self.generic_visit(node)
        self._stack.pop()
        return node

    # annotations are left untouched
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_FunctionDef(self, node):
        node.returns, r = None, node.returns
        self._func(node)
        node.returns = r
        return node

    visit_AsyncFunctionDef = visit_FunctionDef


class Loader(importlib.machinery.SourceFileLoader):

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__[HOOK] = dispatch
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, prefixes):
        self.prefixes = prefixes
        self._busy = set()

    def find_spec(self, name, path=None, target=None):
        if not any(name == p or name.startswith(p + '.')
                   for p in self.prefixes) or name in self._busy:
            return None
        self._busy.add(name)
        try:
            spec = importlib.util.find_spec(name)
        except ModuleNotFoundError:
            return None
        finally:
            self._busy.discard(name)
        if spec is None or spec.origin is None or \
                not spec.origin.endswith('.py'):
            return spec
        new = importlib.util.spec_from_file_location(
            name, spec.origin, loader=Loader(name, spec.origin),
            submodule_search_locations=spec.submodule_search_locations)
        return new


def install(prefixes):
    sys.meta_path.insert(0, Finder(tuple(prefixes)))


def instrumented(f):
    """Library function, compiled from its source with instrumentation"""
    import inspect
    import textwrap
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    tree = ast.fix_missing_locations(Transform().visit(tree))
    scope = dict(f.__globals__)
    scope[HOOK] = dispatch
    exec(compile(tree, inspect.getsourcefile(f), 'exec', dont_inherit=True),
         scope)
    return scope[f.__name__]


class CallTrace:
    """Records which functions of instrumented modules were executed"""

    def __init__(self, root):
        self.root = root
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, 'pysym')
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self._cb)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)

    def _cb(self, code, offset):
        if code.co_filename.startswith(self.root):
            self.seen.add((code.co_filename, code.co_qualname))
        return sys.monitoring.DISABLE

    def functions(self):
        n = len(self.root)
        return sorted(f'{f[n:].lstrip("/")}:{q}' for f, q in self.seen
                      if not q.startswith('<'))
