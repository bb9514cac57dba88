"""Whole-program name resolution over the syntax trees: scopes, star imports, a name-based call graph, external references."""

import ast
import builtins
import importlib
import sys

from .model import *

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def own_nodes(fn):
    """Nodes of a scope, without those of nested scopes (but with their defining nodes)."""
    body = [fn.body] if isinstance(fn, ast.Lambda) else list(fn.body)
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FN) or isinstance(n, ast.ClassDef):
            if not isinstance(n, ast.Lambda):
                todo.extend(n.decorator_list)
            if isinstance(n, FN):
                todo.extend(n.args.defaults)
                todo.extend(x for x in n.args.kw_defaults if x is not None)
                if not isinstance(n, ast.Lambda):
                    for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                        if a.annotation is not None:
                            todo.append(a.annotation)
            else:
                todo.extend(n.bases)
            continue
        if isinstance(n, COMP):
            todo.append(n.generators[0].iter)
            continue
        todo.extend(ast.iter_child_nodes(n))


def bound_names(fn):
    """Names bound in a scope (function, class or module)."""
    out = {}
    glob = set()
    if isinstance(fn, FN):
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            out.setdefault(x.arg, []).append(x)
    if isinstance(fn, COMP):
        for g in fn.generators:
            for n in targets(g.target):
                out.setdefault(n, []).append(g)
        return out, glob
    if isinstance(fn, ast.Lambda):
        return out, glob
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.setdefault(n.name, []).append(n)
        elif isinstance(n, ast.Import):
            for x in n.names:
                out.setdefault((x.asname or x.name).split('.')[0], []).append(n)
        elif isinstance(n, ast.ImportFrom):
            for x in n.names:
                if x.name != '*':
                    out.setdefault(x.asname or x.name, []).append(n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.setdefault(n.name, []).append(n)
    for n in list(ast.walk(fn)):
        if isinstance(n, ast.NamedExpr):
            out.setdefault(n.target.id, []).append(n)
    return out, glob


class Scan(object):
    """Resolution of every name of the program."""

    def __init__(self, program):
        self.p = program
        self.mod = {}
        self.unresolved_star = set()
        for name in program.modules:
            self.exports(name, ())

    def resolve_module(self, m, node):
        if node.level:
            base = m.name.split('.')
            is_pkg = m.path.endswith('__init__.py')
            base = base[:len(base) - node.level + (1 if is_pkg else 0)]
            return '.'.join(base + ([node.module] if node.module else []))
        return node.module

    def exports(self, name, stack):
        """name -> ('def', module, node) | ('ext', dotted name) | ('mod', name) for the namespace of a module."""
        if name in self.mod:
            return self.mod[name]
        if name in stack:
            return {}
        m = self.p.modules[name]
        ns = {}
        for n in own_nodes(m.tree):
            pass
        for s in self.flat(m.tree.body):
            if isinstance(s, ast.ImportFrom):
                src = self.resolve_module(m, s)
                for a in s.names:
                    if a.name == '*':
                        if src in self.p.modules:
                            e = self.exports(src, stack + (name,))
                            al = self.all_of(src)
                            for k, v in e.items():
                                if (al is None and not k.startswith('_')) or (al is not None and k in al):
                                    ns[k] = v
                        else:
                            self.unresolved_star.add(name)
                    else:
                        if src in self.p.modules:
                            e = self.exports(src, stack + (name,))
                            if a.name in e:
                                ns[a.asname or a.name] = e[a.name]
                            elif src + '.' + a.name in self.p.modules:
                                ns[a.asname or a.name] = ('mod', src + '.' + a.name)
                            elif src not in stack:
                                ns[a.asname or a.name] = ('missing', f'{src}.{a.name}', s)
                        else:
                            ns[a.asname or a.name] = ('ext', f'{src}.{a.name}')
            elif isinstance(s, ast.Import):
                for a in s.names:
                    ns[(a.asname or a.name).split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                ns[s.name] = ('def', name, s)
            else:
                for x in ast.walk(s):
                    if isinstance(x, FN + (ast.ClassDef,)):
                        continue
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        ns[x.id] = ('var', name, s)
        self.mod[name] = ns
        return ns

    def flat(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield s
                for f in ('body', 'orelse', 'finalbody'):
                    yield from self.flat(getattr(s, f, []))
                for h in getattr(s, 'handlers', []):
                    yield from self.flat(h.body)
            else:
                yield s

    def all_of(self, name):
        for s in self.p.modules[name].tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in s.targets):
                try:
                    return set(ast.literal_eval(s.value))
                except ValueError:
                    return None
        return None

    def scopes(self):
        """Yield (module, scope node, chain of enclosing function-like scopes, innermost last)."""
        for m in self.p.modules.values():
            def walk(node, chain):
                for n in ast.iter_child_nodes(node):
                    if isinstance(n, FN + COMP + (ast.ClassDef,)):
                        yield m, n, chain
                        yield from walk(n, chain + [n])
                    else:
                        yield from walk(n, chain)
            yield m, m.tree, []
            yield from walk(m.tree, [])

    def lookup(self, m, chain, name):
        """Resolve a name used in the innermost scope of chain: ('local', scope) or a module entry or None."""
        for i, s in enumerate(reversed(chain)):
            if isinstance(s, ast.ClassDef) and i > 0:
                continue
            b = self.bound(s)
            if name in b[1]:
                break
            if name in b[0]:
                return ('local', s)
        ns = self.mod[m.name]
        if name in ns:
            return ns[name]
        if hasattr(builtins, name) or name in ('__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__'):
            return ('ext', 'builtins.' + name)
        # module names set by `global` in some function
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global) and name in n.names:
                return ('var', m.name, n)
        return None

    _b = None

    def bound(self, s):
        if self._b is None:
            self._b = {}
        if s not in self._b:
            self._b[s] = bound_names(s)
        return self._b[s]

    def chain_of(self, node):
        out = []
        n = node
        p = getattr(n, '_parent', None)
        while p is not None:
            if isinstance(p, FN):
                # defaults, decorators and annotations belong to the enclosing scope
                if isinstance(p, ast.Lambda):
                    inside = n is p.body
                else:
                    inside = any(n is b for b in p.body)
                if inside:
                    out.append(p)
            elif isinstance(p, ast.ClassDef):
                if any(n is b for b in p.body):
                    out.append(p)
            elif isinstance(p, COMP):
                first = p.generators[0]
                if not self._in_first_iter(node, p):
                    out.append(p)
            n, p = p, getattr(p, '_parent', None)
        return list(reversed(out))

    def _in_first_iter(self, node, comp):
        n = node
        prev = None
        while n is not None and n is not comp:
            prev, n = n, getattr(n, '_parent', None)
            if n is comp.generators[0]:
                return prev is comp.generators[0].iter
        return False

    def ext_name(self, m, e):
        """Dotted name of an external object denoted by an expression, or None."""
        if isinstance(e, ast.Name):
            r = self.lookup(m, self.chain_of(e), e.id)
            if r and r[0] == 'ext':
                return r[1]
            return None
        if isinstance(e, ast.Attribute):
            b = self.ext_name(m, e.value)
            if b is not None:
                return b + '.' + e.attr
        return None

    def ext_exists(self, dotted):
        """Whether a dotted name exists in the standard library of this interpreter (True if not decidable)."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn.split('.')[0] not in sys.stdlib_module_names and mn != 'builtins':
                return True
            try:
                o = importlib.import_module(mn)
            except Exception:
                continue
            for x in parts[i:]:
                if not hasattr(o, x):
                    return False
                o = getattr(o, x)
                if not isinstance(o, type(sys)) and not isinstance(o, type):
                    return True
            return True
        return False


class CallGraph(object):
    """References by name: an over-approximation of what a function may call."""

    def __init__(self, scan):
        self.scan = scan
        self.funcs = {}          # node -> (module, qual)
        self.byname = {}
        p = scan.p
        for m, q, n in p.functions():
            self.funcs[n] = (m, q)
            self.byname.setdefault(n.name, []).append(n)
        self.refs = {n: self._refs(n) for n in self.funcs}

    def _refs(self, fn):
        out = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                r = self.scan.lookup(x._mod, self.scan.chain_of(x), x.id)
                if r and r[0] == 'def':
                    if isinstance(r[2], ast.ClassDef):
                        for f in ast.walk(r[2]):
                            if f in self.funcs:
                                out.add(f)
                    else:
                        out.add(r[2])
                elif r and r[0] == 'local' or r and r[0] == 'var':
                    for f in self.byname.get(x.id, ()):
                        out.add(f)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                par = getattr(x, '_parent', None)
                if isinstance(par, ast.Call) and par.func is x:
                    for f in self.byname.get(x.attr, ()):
                        out.add(f)
            elif x is not fn and x in self.funcs:
                out.add(x)
        return out

    def reach(self, fn):
        seen = {fn: None}
        todo = [fn]
        while todo:
            f = todo.pop()
            for g in sorted(self.refs.get(f, ()), key=lambda n: (n._mod.name, n.lineno)):
                if g not in seen:
                    seen[g] = f
                    todo.append(g)
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            out.append(self.funcs[f][1])
            f = seen[f]
        return list(reversed(out))
