"""
Scheduling points before every statement.

A copy of the package can be loaded with chosen modules instrumented: a call is placed before each statement of every
function, so that the scheduler may run other threads between any two statements (never inside a database transaction,
where the others would only wait for the lock).
"""
import ast
import importlib.machinery
import sys

import sched

HOOK = '__before_statement__'


def before(where):
    w = sched.WORLD
    if w is None:
        return
    t = w.cur
    if t is None or t.proc.inst is None:
        return
    for c in t.proc.inst.conns:
        try:
            if c.in_transaction:
                return
        except Exception:      # noqa: closed
            pass
    w.point('line', where)


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.depth = 0
        self.count = 0

    def block(self, body, doc=False):
        out = []
        for i, s in enumerate(body):
            if not (doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and \
                    not isinstance(s, (ast.Global, ast.Nonlocal)):
                self.count += 1
                call = ast.Call(ast.Name(HOOK, ast.Load()), [ast.Constant(f'{self.module}:{s.lineno}')], [])
                out.append(ast.copy_location(ast.Expr(call), s))
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        if not self.depth:
            return super().generic_visit(node)
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, field, self.block(b))
        for h in getattr(node, 'handlers', []) + getattr(node, 'cases', []):
            h.body = self.block(h.body)
        return node

    def visit_FunctionDef(self, node):
        self.depth += 1
        node.body = self.block(node.body, doc=True)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        keep, self.depth = self.depth, 0
        node = super().generic_visit(node)
        self.depth = keep
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        tree = ast.parse(self.get_data(self.path), self.path)
        tree = ast.fix_missing_locations(Instrument(fullname.rpartition('hypershell.')[2]).visit(tree))
        return compile(tree, self.path, 'exec')

    def exec_module(self, module):
        setattr(module, HOOK, before)
        super().exec_module(module)


class Finder:
    """Put first on sys.meta_path while a copy is loaded."""

    def __init__(self, modules):
        self.modules = {'hypershell.' + m for m in modules}

    def find_spec(self, name, path=None, target=None):
        if name not in self.modules:
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None:
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec

    def __enter__(self):
        sys.meta_path.insert(0, self)

    def __exit__(self, *exc):
        sys.meta_path.remove(self)
