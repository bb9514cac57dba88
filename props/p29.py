"""P29: the file that is written is the loaded file up to its end mark followed by the revisions."""

from sa.histcheck import *


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in SHAPE:
        items += [(fam, x) for x in thin(scripts(fam, 1, ['write', 'print', 'squash write', 'compress print', 'write a write']), 40 if deep else 30)]
        items += [(fam, x) for x in thin(scripts(fam, 2, ['write']), 200 if deep else 10)]
    items += filed(18 if deep else 6, ('write', 'print')) + [(x, y) for x in FILES for y in ('write', 'print', 'u3 write')]
    check_items(ctx, items, {'file'}, PUBLIC)
    ctx.explain('Abstract interpretation of histories of public operations in the domain of string shapes with affine lengths: the contents of objects and of the loaded file are unknown pieces of unknown length. What writefile hands to the file or to standard output is compared with the loaded bytes up to the end of file mark followed by the text of each revision: total length as an affine form, header and the sequence of pieces.')
