"""P17: object streams hold the objects whose entries lead to them, at the positions their header gives."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['compress', 'compress a A commit', 'compress squash commit', 'compress u1 commit compress']), 34)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['compress', 'squash compress']), 400 if deep else 12)]
    items += grouped(200 if deep else 16)
    items += filed(18 if deep else 6, ('compress',))
    check_items(ctx, items, {'objstm', 'content'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. The content of every object stream that a history writes is read back from the shape that was given to the encoder: /N, /First, the header pairs, the position and content of each member, and the entries of the cross-reference stream that lead to it must agree; streams and objects with a generation must not be packed.')
