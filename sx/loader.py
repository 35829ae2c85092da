"""Load the code under test from its current source, instrumented.

The source of each module is parsed and rewritten so that every call, `in`,
`is`, f-string and `%` goes through the engine; everything else (branches,
comparisons, arithmetic) is handled by the operators of the symbolic values.
"""
import ast
import builtins

from . import calls
from .engine import Control
from .plain import PlainFinder

SKIP = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec',
        '__import__', 'breakpoint'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (
                node.func.id in SKIP or node.func.id.startswith('__sx')):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_call__', ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        fn = {ast.In: '__sx_in__', ast.NotIn: '__sx_in__', ast.Is: '__sx_is__',
              ast.IsNot: '__sx_is__'}.get(type(op))
        if fn is None:
            return node
        r = ast.Call(func=ast.Name(fn, ast.Load()),
                     args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(op, (ast.NotIn, ast.IsNot)):
            r = ast.UnaryOp(ast.Not(), r)
        return ast.copy_location(r, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=ast.Name('__sx_mod__', ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = (self.visit(v.format_spec) if v.format_spec
                        else ast.Constant(''))
                parts.append(ast.Tuple([self.visit(v.value),
                                        ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_fstr__', ast.Load()),
            args=[ast.List(parts, ast.Load())], keywords=[]), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        if node.handlers:
            h = ast.ExceptHandler(
                type=ast.Name('__sx_Control__', ast.Load()), name=None,
                body=[ast.Raise()])
            node.handlers.insert(0, ast.copy_location(h, node.handlers[0]))
        return node

    def _func(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        enter = ast.Expr(ast.Call(
            func=ast.Name('__sx_enter__', ast.Load()),
            args=[ast.Constant('.'.join(self.stack))], keywords=[]))
        pos = 0
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant):
            pos = 1
        node.body.insert(pos, enter)
        self.stack.pop()
        return node

    visit_FunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


ENTERED = {}


def enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1


def make_builtins():
    d = dict(vars(builtins))
    d.update(__sx_call__=calls.call, __sx_in__=calls.contains, __sx_is__=calls.is_,
             __sx_mod__=calls.mod, __sx_fstr__=calls.fstr, __sx_enter__=enter,
             __sx_Control__=Control)
    return d


def compile_source(path, modname):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    tree = ast.parse(src, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


class Finder(PlainFinder):
    """Loads a package with the instrumentation."""

    def compile(self, path, modname):
        return compile_source(path, modname)

    def prepare(self, module):
        module.__dict__['__builtins__'] = make_builtins()
