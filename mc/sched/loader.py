"""Loads the fbuild modules with the primitives of shims.py, and with scheduling points.

A point goes in front of every statement that touches an attribute, an item or calls
something; purely local statements commute with everything.  `x.a += e` is split into
reading and writing.  Only imports and points are added; nothing is taken away.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import kernel, shims

POINTS_ALWAYS = {'fbuild.db.database'}


class _Touches(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Attribute(self, n): self.found = True
    def visit_Subscript(self, n): self.found = True
    def visit_Call(self, n): self.found = True
    def visit_Yield(self, n): self.found = True
    def visit_Global(self, n): self.found = True
    def visit_FunctionDef(self, n): pass
    def visit_Lambda(self, n): pass
    def visit_ClassDef(self, n): pass


def _head(stmt):
    """The expressions evaluated when the statement starts (not its body)."""
    if isinstance(stmt, (ast.If, ast.While)):
        return [stmt.test]
    if isinstance(stmt, ast.For):
        return [stmt.iter]
    if isinstance(stmt, ast.With):
        return stmt.items
    if isinstance(stmt, (ast.Try, ast.FunctionDef, ast.ClassDef)):
        return []
    return [stmt]


def _touches(stmt, shared):
    v = _Touches()
    for n in _head(stmt):
        v.visit(n)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in shared:
                v.found = True
    return v.found


class Transform(ast.NodeTransformer):
    def __init__(self, points):
        self.points = points
        self.depth = 0
        self.ntmp = 0
        self.shared = set()

    # imports
    def visit_Import(self, node):
        out, keep = [], []
        for a in node.names:
            if a.name in shims.MODULES:
                out.append(ast.parse('%s = __mc_shims__[%r]' % (a.asname or a.name, a.name)).body[0])
            else:
                keep.append(a)
        if keep:
            node.names = keep
            out.append(node)
        return out

    def visit_ImportFrom(self, node):
        if node.level or node.module not in shims.MODULES:
            return node
        out = []
        for a in node.names:
            out.append(ast.parse('%s = __mc_shims__[%r].%s' % (a.asname or a.name, node.module, a.name)).body[0])
        return out

    # points
    def block(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            doc = isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            r = self.visit(s)
            rs = r if isinstance(r, list) else [r]
            if self.points and self.depth and not doc and not isinstance(s, (ast.Nonlocal, ast.Global)) and _touches(s, self.shared):
                out.append(ast.parse('__mc_point__()').body[0])
                if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Attribute, ast.Subscript)) and rs == [s]:
                    self.ntmp += 1
                    tmp = '__mc_tmp%d' % self.ntmp
                    load = ast.parse(ast.unparse(s.target), mode='eval').body
                    rs = [ast.Assign(targets=[ast.Name(tmp, ast.Store())], value=load),
                          ast.parse('__mc_point__()').body[0],
                          ast.AugAssign(target=ast.Name(tmp, ast.Store()), op=s.op, value=s.value),
                          ast.Assign(targets=[s.target], value=ast.Name(tmp, ast.Load()))]
            out.extend(rs)
        return out

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(node, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, field, self.block(b))
        if isinstance(node, ast.Try):
            for h in node.handlers:
                h.body = self.block(h.body)
        return node

    def visit_FunctionDef(self, node):
        self.depth += 1
        saved = self.shared
        # variables shared with inner functions count as shared
        inner = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                inner |= set(n.names)
        self.shared = saved | inner
        node.body = self.block(node.body)
        self.shared = saved
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = self.block(node.body)
        self.depth = d
        return node


_code = {}     # modules are loaded again and again by some checks


class Loader(importlib.machinery.SourceFileLoader):
    def exec_module(self, module):
        if self.path in _code:
            module.__dict__['__mc_shims__'] = shims.MODULES
            module.__dict__['__mc_point__'] = kernel.point
            exec(_code[self.path], module.__dict__)
            return
        source = self.get_source(self.name)
        tree = ast.parse(source)
        uses = {a.name for n in ast.walk(tree) if isinstance(n, ast.Import) for a in n.names}
        uses |= {n.module for n in ast.walk(tree) if isinstance(n, ast.ImportFrom)}
        points = bool(uses & (set(shims.MODULES) - {'time'})) or self.name in POINTS_ALWAYS
        tree = ast.fix_missing_locations(Transform(points).visit(tree))
        module.__dict__['__mc_shims__'] = shims.MODULES
        module.__dict__['__mc_point__'] = kernel.point
        _code[self.path] = code = compile(tree, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, lib):
        self.lib = lib

    def find_spec(self, name, path=None, target=None):
        if name.partition('.')[0] not in ('fbuild',):
            return None
        rel = os.path.join(self.lib, *name.split('.'))
        for p, pkg in ((rel + '/__init__.py', True), (rel + '.py', False)):
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=Loader(name, p),
                    submodule_search_locations=[rel] if pkg else None)
        return None


def install(lib):
    for n in list(sys.modules):
        if n == 'fbuild' or n.startswith('fbuild.'):
            del sys.modules[n]
    sys.meta_path.insert(0, Finder(lib))
