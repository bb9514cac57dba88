"""P12: index, cache and data of a document describe the same objects and revisions after every operation."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['', 'squash', 'squash commit', 'compress a commit', 'commit']), 28)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['', 'squash commit a commit']), 400 if deep else 14)]
    items += grouped(200 if deep else 8)
    items += filed(18 if deep else 7)
    check_items(ctx, items, {'memory'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. After every operation the index columns, cache slots and data records in memory are compared with each other, with the objects added and deleted so far, and after a commit with the text that was written (positions, ends, object streams).')
