"""P18: removing and keeping pages."""

from sa.pagecases import *


def check(ctx):
    check_pages(ctx, removals(ctx.tier == 'thorough'), ('remove_pages', 'keep_pages', 'Doc.__getitem__', '__getitem__', '__iter__', 'Doc.__iter__'), ['remove_pages', 'keep_pages', 'dependencies', 'flat_page_tree'])
    ctx.explain('Abstract interpretation on partly known documents: page trees of several shapes (flat, nested, generations, indirect arrays and counts, attributes inherited from every level) whose contents are unknown pieces; every choice of pages is removed, kept or sliced, alone and in sequences. The pages left, their order, attributes and resources, the counts and parents of the tree, the objects deleted and kept are compared with an independent model of the page tree.')
