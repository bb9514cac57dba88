"""P04: which operations touch the outside world, and how a document is saved."""

import ast

from sa.roots import *
from sa.run import analyse
from sa.effects import *

PATH = '/the/named/file'         # stands for any file name

# The operations of the library and the effects each may have; the others may have none
ALLOWED = {
    'api.writefile': {'open', 'stdout'},
    'api.readfile': {'open'},
    'api.load': set(),
}
QUIET = {'open', 'print', 'stdout', 'stderr', 'stdin', 'stat', 'exec'}


class Files(SumClient):
    """Order of the events around the opening of files."""

    def __init__(self, root):
        SumClient.__init__(self)
        self.root = root
        self.opened = 0
        self.wrote = 0

    def bad(self, key, node, msg):
        self.violation(f'{func_of(node)}:{key}', f'{where(node)} in {func_of(node)}: {msg}, reached from {self.root.name} via {" > ".join(I_path(self.I))}')

    def on_ext(self, I, name, args, kwargs, node):
        self.I = I
        if I.base_alloc:
            return None
        if name == 'open':
            self.count('opens')
            fn = args[0] if args else kwargs.get('file', UNK)
            mode = args[1] if len(args) > 1 else kwargs.get('mode', V(K('r')))
            modes = consts(mode)
            if modes is None:
                self.bad('open:mode', node, 'opens a file in a mode that is not fixed')
            else:
                for m in modes:
                    path = PATH + ('1' if any(c in str(m) for c in 'wax+') else '0')
                    if consts(fn) != [path]:
                        self.bad('open:path', node, f'opens {show(fn)}, which is not the file name it was given')
                    w = any(c in str(m) for c in 'wax+')
                    if w and self.root.mod + '.' + self.root.qual not in ('api.writefile', 'cli.compress_file'):
                        self.bad('open:write', node, f'opens a file in mode {m!r} while reading')
                    elif w and str(m) not in ('wb', 'bw'):
                        self.bad('open:wmode', node, f'opens the file to save in mode {m!r}')
                    if not w and 'b' not in str(m):
                        self.bad('open:text', node, f'opens a file in text mode {m!r}')
                    if w:
                        I.st.ghost['saving'] = TRUE
        elif name in ('sys.stdout.buffer.write', 'sys.stdout.write'):
            if self.root.tag == 'stdout':
                I.st.ghost['saving'] = TRUE
                self.wrote += 1
        return None

    def on_file(self, I, a, o, name, args, node):
        self.I = I
        mode = o.fields.get('mode', EMPTY)
        if name in ('write', 'writelines', 'truncate'):
            self.wrote += 1
        if name in ('truncate',):
            self.bad('truncate', node, 'truncates a file')
        return None

    def saving(self, I):
        return TRUE == I.st.ghost.get('saving') or any(x is not None for x in [I.st.ghost.get('saving')] if x)

    def on_call(self, I, fn, args, kwargs, node):
        self.I = I
        if not I.base_alloc and self.saving(I):
            for v in list(args) + list(kwargs.values()):
                if any(isinstance(a, Tua) and a.cls == 'Doc' for a in v) and fn.ref.name != '__repr__':
                    self.bad('late:' + fn.ref.name, node, f'{fn.ref.name} works on the document after the file to save has been opened: a failure there would leave a damaged file')
        return SumClient.on_call(self, I, fn, args, kwargs, node)

    def provider(self, I, node):
        self.I = I
        if self.saving(I):
            self.bad('late:provider', node, 'reads the original file after the file to save has been opened for writing (which empties it): saving over the original would lose it')


def I_path(I):
    return I.path()


def job(a):
    kind, root = a
    p = Program()
    c = Files(root)

    def setup(I):
        args = []
        for i, k in enumerate(root.args):
            if k == 's':
                args.append(V(K(PATH + str(i))))
            else:
                args.append(mk_arg(I, k, i))
        return args, {}

    old = region.provider_model

    def prov(I, args, kwargs, node):
        c.provider(I, node)
        return old(I, args, kwargs, node)
    prov.__name__ = 'provider'
    region.provider_model = prov
    try:
        I, v = run_root(p, c, root, setup=setup)
    finally:
        region.provider_model = old
    c.count('roots')
    c.count('calls_inlined', I.stats['calls'])
    c.lists['order_of_events'] = [root.name]
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
    if root.qual == 'writefile' and not c.wrote:
        f = I.find_func(root.mod, root.qual).ref.node
        c.violation('writefile:nothing', f'{where(f)} {root.name} writes nothing')
    return c.result()


def check(ctx):
    p = ctx.program
    sc = Scan(p)
    g = CallGraph(sc)
    eff = {}
    for n, (m, q) in g.funcs.items():
        eff[n] = [(x, d, effect(d)) for x, d in references(sc, n) if effect(d)]
        ctx.count('functions_scanned')
    for m in p.modules.values():
        for s in m.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for x, d in references(sc, s):
                e = effect(d)
                if e and e not in ('print',) and not m.name.endswith('__main__'):
                    ctx.violation(f'{m.name}:import:{d}', f'{where(x)} importing the package refers to {d} ({e})')
    # nothing anywhere may act on the rest of the world
    for n, (m, q) in g.funcs.items():
        for x, d, e in eff[n]:
            ctx.count('effect_sites')
            if e.startswith('world:') or e in ('exec', 'stdin'):
                ctx.violation(f'{m.name}:{q}:{d}', f'{where(x)} in {q}: {d} acts outside the library')
    # the operations on documents are silent and touch no file
    roots = DOC_ROOTS + FREE_ROOTS + LIB_ROOTS + LEAF_ROOTS
    done = set()
    for r in roots:
        name = f'{r.mod}.{r.qual}'
        if name in done or 'pprint' in name or r.mod == 'cli':
            continue
        done.add(name)
        n = next((n for n, (m, q) in g.funcs.items() if m.name == 'pdfsyntax.' + r.mod and q == r.qual), None)
        if n is None:
            continue
        ok = ALLOWED.get(name, set())
        seen = g.reach(n)
        ctx.count('operations')
        for f in seen:
            for x, d, e in eff[f]:
                if e not in ok and e in QUIET:
                    ctx.violation(f'{name}:{g.funcs[f][1]}:{d}', f'{where(x)} {name} may reach {d} ({e}) by {" > ".join(g.path(seen, f))}')
    jobs = [('w', R('api.writefile', 'd', 's')), ('w', R('api.writefile', 'd', tag='stdout')), ('r', R('api.readfile', 's'))]
    jobs += [('r', r) for r in CLI_ROOTS if r.qual not in ('print_fonts',)]
    analyse(ctx, job, jobs)
    ctx.explain('Effect analysis: every reference to an effectful library object, with the name-based call graph, shows which operations may print, '
                'open files or act on the system; typestate analysis of the save path: the file opened is the one named, in binary mode, and '
                'nothing reads the document or the original file once it has been opened for writing.')
