"""P03: no operation leaves anything behind in the library (no hidden state)."""

import ast

from sa.roots import *
from sa.run import analyse

CACHES = ('lru_cache', 'cache', 'cached_property', 'singledispatch')
STATEFUL = {'functools.lru_cache', 'functools.cache', 'functools.cached_property', 'sys.setrecursionlimit', 'os.putenv',
            'os.chdir', 'os.umask', 'locale.setlocale', 'random.seed', 'builtins.setattr', 'setattr', 'globals', 'vars', 'exec',
            'os.environ.update', 'os.environ.setdefault', 'sys.settrace', 'atexit.register', 'signal.signal', 'importlib.reload'}


class State(SumClient):
    def __init__(self, root):
        SumClient.__init__(self)
        self.root = root

    def on_write(self, I, loc, o, key, val, node, how):
        self.count('heap_writes')
        if I.base_alloc:
            return
        for t in o.tags:
            t = str(t)
            if t.startswith('global:') or t.startswith('default:'):
                what = 'the module variable ' if t[0] == 'g' else 'the default argument '
                self.violation(f'{func_of(node)}:{t}', f'{where(node)} {how} in {what}{t.split(":", 1)[1]}, reached from {self.root.name} via {" > ".join(I.path())}')

    def on_global_write(self, I, node, name):
        if I.base_alloc:
            return
        self.violation(f'{func_of(node)}:{name}', f'{where(node)} assignment to {name}, which outlives the call, reached from {self.root.name}')

    def on_method(self, I, recv, name, args, kwargs, node):
        if name.startswith('decorator:') and name.split(':')[1].split('(')[0].split('.')[-1] in CACHES:
            self.violation(f'{node.name}:{name}', f'{where(node)} {name.split(":")[1]} keeps results from one call to the next')
        return None

    def on_ext(self, I, name, args, kwargs, node):
        if name in STATEFUL and not I.base_alloc:
            self.violation(f'{func_of(node)}:{name}', f'{where(node)} call of {name}, whose effect outlives the call, reached from {self.root.name}')
        elif name == 'next' and args:
            for a in args[0]:
                o = I.st.heap.get(a.loc) if isinstance(a, Pa) else None
                if o is not None and any(str(t).startswith(('global:', 'default:')) for t in o.tags):
                    self.violation(f'{func_of(node)}:next', f'{where(node)} advances an iterator that outlives the call, reached from {self.root.name}')
        return None


def job(root):
    p = Program()
    c = State(root)
    I, v = run_root(p, c, root)
    c.count('roots')
    c.count('calls_inlined', I.stats['calls'])
    c.count('statements', I.stats['stmts'])
    c.lists['functions'] = sorted(str(x) for x in I.stats['functions'])
    c.lists['roots_analysed'] = [root.name]
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
    return c.result()


def check(ctx):
    analyse(ctx, job, all_roots())
    # every function must be covered, or be free of such writes by its text
    p = ctx.program
    ctx.count('modules', len(p.modules))
    for m in p.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.Global):
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.FunctionDef, ast.Lambda)) and f in ast.walk(n):
                        for name in f.names:
                            ctx.violation(f'{getattr(n, "name", "lambda")}:{name}', f'{where(f)} {getattr(n, "name", "lambda")} declares the module variable {name} for writing')
    ctx.explain('Heap effect analysis: every object reachable from a module variable, a class attribute or a default argument is tagged at load '
                'time; no instruction reachable from a public operation, a command or a library function may write to such an object, rebind a '
                'module variable or a class or function attribute, use a caching decorator, or call a stateful function of the standard library.')
