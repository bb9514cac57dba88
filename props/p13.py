"""P13: cross-reference sections give the position of every object that a revision writes."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['', 'squash commit', 'compress', 'compress a commit']), 28)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['', 'squash commit a commit', 'compress']), 400 if deep else 14)]
    items += grouped(200 if deep else 8)
    items += filed(18 if deep else 7, ('', 'compress'))
    check_items(ctx, items, {'format', 'offsets'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: object contents are unknown pieces of unknown length, '
                'file positions are affine forms in the lengths. The text of every revision is read back from its shape; the position in each cross-reference entry and after startxref '
                'must be the affine form of the place where the object or section starts, entries must have the prescribed format, and no value may exceed the field it is put into.')
