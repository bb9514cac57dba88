"""P15: the trailer of every revision describes the file and leads to the previous section, the free list links the deleted objects."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['', 'squash commit', 'compress', 'compress a commit']), 28)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['', 'squash commit a commit', 'compress']), 400 if deep else 14)]
    items += filed(18 if deep else 8, ('', 'squash commit'))
    check_items(ctx, items, {'trailer'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. The trailer of each revision is read back from its shape: /Size, /Root and /Info, /Prev as the affine position of the previous section, no /XRefStm of an earlier revision, free entries that form a list from object 0 back to 0 with the next generations, and an entry for every number in the first section.')
