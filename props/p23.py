"""P23: annotations."""

from sa.pagecases import *


def check(ctx):
    check_pages(ctx, notes(ctx.tier == 'thorough'), ('add_text_annotation',), ['add_text_annotation', 'escape_text_string'])
    ctx.explain('Abstract interpretation on partly known documents: page trees of several shapes (flat, nested, generations, indirect arrays and counts, attributes inherited from every level) whose contents are unknown pieces; text annotations are added to every page (without annotations, with a direct, with an indirect array), once and repeatedly, with texts of every kind. The array, the new object and everything else are compared with the model.')
