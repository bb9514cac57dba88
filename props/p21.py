"""P21: joining documents."""

from sa.pagecases import *


def check(ctx):
    check_pages(ctx, joins(ctx.tier == 'thorough'), ('concat', '__add__', 'Doc.__add__'), ['concat', 'squash', 'deep_ref_retarget'])
    ctx.explain('Abstract interpretation on partly known documents: page trees of several shapes (flat, nested, generations, indirect arrays and counts, attributes inherited from every level) whose contents are unknown pieces; every pair is joined in both directions of update, also with itself, with uncommitted changes and repeatedly. The pages of the result, with all they refer to and inherit, are compared with those of the two documents up to renumbering.')
