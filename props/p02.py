"""P02: what the queries hand out is independent of the document."""

from sa.roots import *
from sa.region import DOC
from sa.run import analyse

NAMES = '''docstruct.get_object docstruct.obj docstruct.trailer docstruct.catalog docstruct.info docstruct.flat_page_tree
docstruct.pages api.page_layouts api.metadata api.structure api.list_streams api.get_page_contents api.fonts
docstruct.get_page_fonts docstruct.prepare_font docstruct.in_use docstruct.changes docstruct.dependencies
docstruct.version docstruct.updates docstruct.encrypted docstruct.hybrid docstruct.number_pages docstruct.envelopes
docstruct.envelope_objects docstruct.get_iref docstruct.max_num'''.split()

def job(root):
    p = Program()
    c = SumClient()
    I, v = run_root(p, c, root)
    c.count('roots')
    c.count('calls_inlined', I.stats['calls'])
    c.lists['functions'] = sorted(str(x) for x in I.stats['functions'])
    c.lists['queries'] = [root.name]
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
        return c.result()
    for loc, (o, path) in sorted(reach(I, v).items(), key=lambda x: x[1][1]):
        c.count('objects_of_results')
        if DOC in o.tags:
            part = next((t for t in sorted(o.tags) if ':' in t), DOC)
            f = I.find_func(root.mod, root.qual).ref.node
            c.violation(f'{root.mod}.{root.qual}:{part}',
                        f'{where(f)} the result of {root.name} shares a {o.kind} of the document ({part}) at result{path}')
    return c.result()


def check(ctx):
    roots = [r for r in DOC_ROOTS if f'{r.mod}.{r.qual}' in NAMES]
    analyse(ctx, job, roots)
    ctx.explain('Escape analysis: each query is abstractly interpreted on an arbitrary document whose objects are tagged; no object reachable '
                'from the result may carry the tag.')
