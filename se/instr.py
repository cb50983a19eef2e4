"""Loads the program under test from source, routing calls, f-strings, containers and subscripts
through the symbolic models.  Control flow stays Python's own."""
import ast
import importlib.abc
import importlib.util
import os
import sys

NOCALL = {'super', 'locals', 'globals', 'vars', '__import__', 'eval', 'exec'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def call(self, fn, args, keywords=()):
        return ast.Call(func=self.name(fn), args=list(args), keywords=list(keywords))

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def _function(self, node):
        self.stack.append(node.name)
        qual = '.'.join([self.module] + self.stack)
        node.args = self.visit(node.args)
        node.decorator_list = [self.call('__se_deco__', [self.visit(d)]) for d in node.decorator_list]
        body = [self.visit(s) for s in node.body]
        enter = ast.Expr(self.call('__se_enter__', [ast.Constant(qual)]))
        i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant)
                  and isinstance(body[0].value.value, str)) else 0
        node.body = body[:i] + [enter] + body[i:]
        self.stack.pop()
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        node.body = [self.visit(s) for s in node.body]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.pop()
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self.call('__se_tick__', [])))
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.Expr(self.call('__se_tick__', [])))
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        self.generic_visit(node)
        return self.call('__se_call__', [node.func] + node.args, node.keywords)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self.call('__se_getitem__', [node.value, node.slice])
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = self.call('__se_in__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return r
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call('__se_mod__', [node.left, node.right])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self.call('__se_dict__', [node])

    def visit_DictComp(self, node):
        # {k: v for ...}  ->  dict([(k, v) for ...])
        self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                          generators=node.generators)
        return self.call('__se_dict__', [lc])

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.call('__se_set__', [ast.List(elts=node.elts, ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.call('__se_set__', [ast.ListComp(elt=node.elt, generators=node.generators)])

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Constant(v.value))
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return self.call('__se_fstr__', parts)


# A dict display with symbolic keys would hash them natively; only constant keys stay native.
def _dict_ok(node):
    return all(k is not None and isinstance(k, ast.Constant) for k in node.keys)


class Rewriter2(Rewriter):
    def visit_Dict(self, node):
        self.generic_visit(node)
        if _dict_ok(node):
            return self.call('__se_dict__', [node])
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Starred(value=self.call('__se_items__', [v]), ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.call('__se_dict__', [ast.List(elts=pairs, ctx=ast.Load())])


def transform(source, path, module):
    tree = ast.parse(source, path)
    # `from __future__` and the docstring must stay first; helpers come through module globals
    tree = Rewriter2(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, path, helpers):
        self.path, self.helpers = path, helpers

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__dict__.update(self.helpers)
        exec(transform(src, self.path, module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, package, root, helpers):
        self.package, self.root, self.helpers = package, root, helpers

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        rel = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(init, self.helpers), submodule_search_locations=[rel])
        if os.path.isfile(rel + '.py'):
            return importlib.util.spec_from_file_location(fullname, rel + '.py',
                                                          loader=Loader(rel + '.py', self.helpers))
        return None


def install(package, root):
    from . import models
    for f in sys.meta_path:
        if isinstance(f, Finder) and f.package == package:
            return
    assert package not in sys.modules
    sys.meta_path.insert(0, Finder(package, root, models.HELPERS))
