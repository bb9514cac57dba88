"""P16: squash and compress keep every object in use and lead every reference to its new number."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['squash commit', 'compress', 'squash squash commit', 'compress a commit squash commit', 'squash a commit compress']), 34)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['squash commit', 'compress']), 400 if deep else 12)]
    items += filed(18 if deep else 6, ('squash commit', 'compress'))
    check_items(ctx, items, {'refs', 'content', 'memory', 'trailer', 'api'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. Documents with free numbers, deleted objects, generations, several revisions and object streams are squashed or compressed and saved; read back from its shape, the single revision must hold every object in use once, numbered without gaps, with its content, and every reference (nested in dictionaries, arrays and streams, and in the trailer) must lead to the object it led to before.')
