"""P22: files that are opened get closed, and are not used afterwards."""

import ast

from sa.roots import *
from sa.run import analyse
from sa.effects import *

PATH = '/the/named/file'
OPENERS = {'builtins.open', 'io.open', 'os.fdopen', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open'}


class Handles(SumClient):
    def __init__(self, root):
        SumClient.__init__(self)
        self.root = root

    def on_file(self, I, a, o, name, args, node):
        if I.base_alloc or name in ('close', '__exit__') or 'key' not in o.fields:
            return None
        self.count('uses_of_files')
        if TRUE <= o.fields.get('closed', EMPTY):
            self.violation(f'{func_of(node)}:{name}', f'{where(node)} in {func_of(node)}: {name} on a file that has been closed, reached from {self.root.name} via {" > ".join(I.path())}')
        return None


def job(root):
    p = Program()
    c = Handles(root)

    def setup(I):
        return [V(K(PATH + str(i))) if k == 's' else mk_arg(I, k, i) for i, k in enumerate(root.args)], {}

    I, v = run_root(p, c, root, setup=setup)
    c.count('roots')
    c.lists['operations'] = [root.name]
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
        return c.result()
    for k, x in I.st.ghost.items():
        if isinstance(k, str) and k.startswith('file:'):
            c.count('files_followed')
            if TRUE <= x:
                c.violation(f'{root.name}:{k[5:].split(":")[0]}:open', f'{k[5:]} the file opened here is still open when {root.name} returns' + (' on some path' if len(x) > 1 else ''))
    # a document that outlives the call must not depend on a file that has been closed
    fns = set()
    for o, _ in reach(I, v).values():
        for x in list(o.fields.values()) + [o.other]:
            fns |= {a for a in x if isinstance(a, Fna) and a.kind in ('func', 'closure', 'bound')}
    for f in sorted(fns, key=repr):
        c.count('functions_kept_by_results')
        try:
            I.push(v)
            I.call_value(V(f), [INT, INT], {}, f.ref.node)
        except Dead:
            pass
    return c.result()


def scope_of(n):
    while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Module)):
        n = getattr(n, '_parent', None)
    return n


def block_of(stmt):
    par = stmt._parent
    for f in ('body', 'orelse', 'finalbody', 'handlers'):
        b = getattr(par, f, None)
        if isinstance(b, list) and stmt in b:
            return b
    return [stmt]


def closes(body, name):
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('close', '__exit__')
               and isinstance(x.func.value, ast.Name) and x.func.value.id == name for s in body for x in ast.walk(s))


def protected(sc, g, call, depth=0):
    """None when the handle is closed even if something fails, else the reason."""
    n = call
    while True:
        par = n._parent
        if isinstance(par, ast.withitem):
            return None
        if isinstance(par, (ast.IfExp, ast.BoolOp, ast.NamedExpr)) or isinstance(par, ast.Call) and n is not par.func and \
                ast.unparse(par.func).split('.')[-1] in ('closing', 'enter_context', 'push', 'callback', 'nullcontext', 'BufferedReader', 'BufferedWriter'):
            n = par
            continue
        break
    if isinstance(par, ast.Return):
        f = scope_of(par)
        if depth > 4 or not isinstance(f, ast.FunctionDef):
            return 'is returned'
        users = [x for m in sc.p.modules.values() for x in ast.walk(m.tree)
                 if isinstance(x, ast.Call) and ast.unparse(x.func).split('.')[-1] == f.name]
        for u in users:
            r = protected(sc, g, u, depth + 1)
            if r:
                return r
        return None
    if isinstance(par, ast.Expr):
        # enter_context(open(..)) as a statement
        return None if n is not call else 'is dropped'
    if isinstance(par, ast.Assign) and len(par.targets) == 1 and isinstance(par.targets[0], ast.Name):
        if n is not call and not isinstance(n, (ast.IfExp, ast.BoolOp)):
            return None
        name = par.targets[0].id
        # inside a try whose finally clause closes it
        x = par
        while not isinstance(x, (ast.FunctionDef, ast.Module)):
            if isinstance(x._parent, ast.Try) and x in x._parent.body and closes(x._parent.finalbody, name):
                return None
            x = x._parent
        b = block_of(par)
        for s in b[b.index(par) + 1:]:
            if isinstance(s, ast.With) and any(isinstance(y, ast.Name) and y.id == name for i in s.items for y in ast.walk(i.context_expr)):
                return None
            if isinstance(s, ast.Try) and closes(s.finalbody, name):
                return None
            if closes([s], name) and not isinstance(s, ast.Return):
                return None             # nothing in between can fail
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and s.value.id == name:
                return None
            if any(isinstance(y, (ast.Call, ast.Subscript, ast.BinOp, ast.Raise)) for y in ast.walk(s)):
                return f'stays open if {ast.unparse(s).splitlines()[0]!r} fails'
        return 'is never closed'
    return 'cannot be closed: nothing keeps it'


def check(ctx):
    p = ctx.program
    sc = Scan(p)
    for m in p.modules.values():
        for x, d in references(sc, m.tree):
            par = getattr(x, '_parent', None)
            if d in OPENERS and isinstance(par, ast.Call) and par.func is x:
                ctx.count('open_calls')
                ctx.list('open_calls_at', [where(par)])
                r = protected(sc, None, par)
                if r:
                    ctx.violation(f'{m.name}:{func_of(par)}:failure', f'{where(par)} in {func_of(par)}: the file opened here {r}')
    jobs = [R('api.readfile', 's'), R('api.writefile', 'd', 's')] + [r for r in CLI_ROOTS if r.qual != 'print_fonts']
    analyse(ctx, job, jobs)
    ctx.explain('Typestate analysis of file handles: abstract interpretation of the operations that open files shows each handle closed on every path to their return, '
                'no use after closing, and no function kept by the result that still needs the file; a syntactic rule covers the paths on which an exception leaves the operation '
                '(the handle is in a with statement, or a finally clause closes it).')
