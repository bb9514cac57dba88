"""P05: the output depends on the input alone."""

import ast

from sa.roots import *
from sa.run import analyse
from sa.effects import *

UNORDERED_OK = ('sorted', 'set', 'frozenset', 'sum', 'any', 'all', 'min', 'max', 'len')
HASHED = ('str', 'bytes')


def random_order(I, val):
    """Element kinds whose iteration order in a set changes from run to run."""
    for a in val:
        if isinstance(a, Pa):
            o = I.st.heap.get(a.loc)
            if o is not None and o.kind in ('set', 'frozenset'):
                es = list(o.elems())
                if any(isinstance(e, (Ka, Ta)) and e.tn == 'complex' for e in es):
                    continue        # a set of references (or of arbitrary PDF values used as such)
                if any(hashed(e) for e in es):
                    return True
    return False


def hashed(e):
    if isinstance(e, (Ka, Ta)):
        return e.tn in HASHED
    if isinstance(e, Tua):
        return any(hashed(x) for i in e.items for x in i)
    return False


class Order(SumClient):
    def __init__(self, root):
        SumClient.__init__(self)
        self.root = root

    def bad(self, I, node, what):
        self.violation(f'{func_of(node)}:{what}', f'{where(node)} in {func_of(node)}: {what} over a set of strings, whose order changes from run to run, '
                       f'reached from {self.root.name} via {" > ".join(I.path())}')

    def on_iter(self, I, val, node):
        if I.base_alloc:
            return
        self.count('iterations')
        if not random_order(I, val):
            return
        if isinstance(node, ast.SetComp):
            return
        if isinstance(node, (ast.GeneratorExp, ast.ListComp)):
            par = getattr(node, '_parent', None)
            if isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in UNORDERED_OK:
                return
        if isinstance(node, ast.For) and unordered_body(node):
            return
        self.bad(I, node, 'iteration')

    def on_ext(self, I, name, args, kwargs, node):
        if I.base_alloc:
            return None
        if name in ('type:list', 'type:tuple', 'next', 'type:enumerate', 'type:iter', 'iter') and args and random_order(I, args[0]):
            par = getattr(node, '_parent', None)
            if not (isinstance(par, ast.Call) and isinstance(par.func, ast.Name) and par.func.id in UNORDERED_OK):
                self.bad(I, node, name.split(':')[-1] + '()')
        return None

    def on_method(self, I, recv, name, args, kwargs, node):
        if not I.base_alloc and name == 'join' and len(args) > 1 and random_order(I, args[1]):
            self.bad(I, node, 'join')
        return None


def unordered_body(loop):
    """The loop only adds to a set, counts, or tests membership: its effect does not depend on the order."""
    for s in loop.body:
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Break, ast.Yield)):
                return False
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Attribute) and f.attr in ('add', 'discard', 'remove', 'update', 'get'):
                    continue
                if isinstance(f, ast.Name) and f.id in UNORDERED_OK:
                    continue
                return False
            if isinstance(x, ast.Assign):
                return False
    return True


def job(root):
    p = Program()
    c = Order(root)
    I, v = run_root(p, c, root)
    c.count('roots')
    c.count('statements', I.stats['stmts'])
    c.lists['functions'] = sorted(str(x) for x in I.stats['functions'])
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
    return c.result()


def check(ctx):
    p = ctx.program
    sc = Scan(p)
    for m in p.modules.values():
        for x, d in references(sc, m.tree):
            ctx.count('library_references')
            if nondet(d):
                # an object's identity used only to compare identities is harmless
                par = getattr(x, '_parent', None)
                gp = getattr(par, '_parent', None)
                if d == 'builtins.id' and isinstance(gp, ast.Compare) and all(isinstance(o, (ast.Is, ast.Eq, ast.In, ast.NotIn, ast.NotEq)) for o in gp.ops):
                    continue
                ctx.violation(f'{m.name}:{func_of(x)}:{d}', f'{where(x)} in {func_of(x)}: {d} differs from run to run')
    analyse(ctx, job, all_roots())
    ctx.explain('Reference scan of the whole package for library sources of values that differ between runs (clock, randomness, environment, process, '
                'identity, hash) and abstract interpretation of every operation: no iteration over a set that may hold strings, unless its result cannot depend on the order.')
