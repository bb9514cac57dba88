"""P14: a saved revision holds the objects changed since the previous one, with their current content, and nothing else."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in scripts(fam, 1, [''])]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['']), 400 if deep else 24)]
    items += filed(18 if deep else 8)
    check_items(ctx, items, {'content', 'api', 'refs'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. Every object carries a marker; the text of each revision is read back from its shape: exactly the objects changed since the previous revision must be there, with the marker, references, generation and stream data of their last change, deleted objects must be free entries; changes(), get_object() and add_object() must report the same.')
