"""Loads the program under analysis: module syntax trees, functions, classes."""

import ast
import os

REPO = os.environ.get('PDFSYNTAX_REPO', '/repo')
PKG = 'pdfsyntax'


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (vanished anchor, unsupported construct)."""


class FuncObj(object):
    """A function definition together with its defining module."""
    __slots__ = ('qual', 'node', 'module', 'cls', 'name', 'is_gen', 'has_nested', 'lambda_')

    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = getattr(node, 'name', '<lambda>')
        self.lambda_ = isinstance(node, ast.Lambda)
        self.is_gen = False
        self.has_nested = False
        body = [node.body] if self.lambda_ else node.body
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.has_nested = True
                continue
            todo.extend(ast.iter_child_nodes(x))

    def __repr__(self):
        return self.qual


class ClassObj(object):
    def __init__(self, name, module):
        self.name, self.module = name, module
        self.attrs = {}          # name -> Val
        self.nt_fields = None    # namedtuple fields
        self.dc_fields = None    # dataclass fields
        self.dc_defaults = {}
        self.bases = []
        self.frozen = False

    def lookup(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            r = b.lookup(n)
            if r is not None:
                return r
        return None

    def fieldnames(self):
        if self.nt_fields is not None:
            return self.nt_fields
        for b in self.bases:
            r = b.fieldnames()
            if r is not None:
                return r
        return None

    def __repr__(self):
        return self.name


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, 'rb') as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src, path)
        except SyntaxError as e:
            raise AnalysisBroken(f'{path}: {e}')
        self.ns = {}             # name -> Val
        self.ready = False
        self.rel = os.path.relpath(path, REPO)
        self.lines = self.src.decode('utf-8', 'replace').splitlines()
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n
            n._mod = self


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        d = os.path.join(self.repo, PKG)
        if not os.path.isdir(d):
            raise AnalysisBroken(f'{d} is missing')
        for root, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            if '__pycache__' in dirs:
                dirs.remove('__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(root, f)
                    rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.modules[rel] = Module(rel, path)

    def functions(self):
        """Every function definition: (module, qualified name, node)."""
        for m in self.modules.values():
            def walk(node, prefix):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, prefix + c.name, c
                        yield from walk(c, prefix + c.name + '.')
                    elif isinstance(c, ast.ClassDef):
                        yield from walk(c, prefix + c.name + '.')
                    else:
                        yield from walk(c, prefix)
            yield from walk(m.tree, '')


def where(node):
    m = getattr(node, '_mod', None)
    return f'{m.rel if m else "?"}:{getattr(node, "lineno", "?")}'


def func_of(node):
    """Qualified name of the function enclosing a node."""
    names = []
    n = node
    while n is not None:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.append(n.name)
        n = getattr(n, '_parent', None)
    return '.'.join(reversed(names)) or '<module>'
