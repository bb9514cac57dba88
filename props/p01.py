"""P01: no operation changes the document it is given."""

from sa.roots import *
from sa.model import where, func_of, Program
from sa.run import analyse


class Purity(SumClient):
    """Reports every write into an object of the caller's document, except filling an empty memo slot."""

    def __init__(self, root):
        SumClient.__init__(self)
        self.root = root

    def on_write(self, I, loc, o, key, val, node, how):
        self.count('heap_writes')
        if 'doc' not in o.tags:
            if ARG in o.tags:
                self.report(I, o, key, node, how, "the caller's argument")
            return
        self.count('writes_into_shared_document')
        if 'doc:cache' in o.tags and o.kind == 'list':
            if how in ('extend', 'append', 'iadd', 'resize'):
                return              # making room for a memo
            if how == 'set' and memo_fill(I, o, key, node):
                self.count('memo_fills')
                return
        self.report(I, o, key, node, how, 'the shared document')

    def report(self, I, o, key, node, how, what):
        part = next((t for t in sorted(o.tags) if ':' in t), ARG)
        self.violation(f'{func_of(node)}:{part}:{how}',
                       f'{where(node)} {how} of key {key!r} in {what} ({part}), reached from {self.root.name} via {" > ".join(I.path())}')


def memo_fill(I, o, key, node):
    """The slot being set is known to be empty on this path."""
    import ast
    t = None
    if isinstance(node, ast.Assign):
        t = next((x for x in node.targets if isinstance(x, ast.Subscript)), None)
    elif isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Subscript):
        t = node.target
    elif isinstance(node, ast.Subscript):
        t = node
    if t is not None:
        hit = I.fr.pf.get(I.txt(t)) or I.store_pf.get(I.txt(t))
        if hit is not None and hit[0] and all(isinstance(a, Ka) and a.v is None for a in hit[0]):
            return True
    if key is not None and key in o.fields:
        v = o.fields[key]
        return bool(v) and all(isinstance(a, Ka) and a.v is None for a in v)
    return False


def job(root):
    p = Program()
    c = Purity(root)
    I, v = run_root(p, c, root)
    c.count('roots')
    c.count('calls_inlined', I.stats['calls'])
    c.count('statements', I.stats['stmts'])
    c.lists['functions'] = sorted(str(x) for x in I.stats['functions'])
    c.lists['roots_analysed'] = [root.name]
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
    return c.result()


def check(ctx):
    analyse(ctx, job, DOC_ROOTS + LEAF_ROOTS)
    ctx.explain('Heap effect analysis: each public operation is abstractly interpreted on an arbitrary document whose parts are tagged; '
                'every write instruction that may hit a tagged object is an obligation, discharged only when it fills an empty memo slot.')
