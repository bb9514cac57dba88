"""P24: queries of the page tree."""

from sa.pagecases import *


def check(ctx):
    check_pages(ctx, looks(ctx.tier == 'thorough'), 'query', ['flat_page_tree', 'pages', 'number_pages', 'page_layouts'])
    ctx.explain('Abstract interpretation on partly known documents: page trees of several shapes (flat, nested, generations, indirect arrays and counts, attributes inherited from every level) whose contents are unknown pieces; the answers of number_pages, flat_page_tree (with and without a limit), pages and page_layouts are compared with an independent walk of the page tree, for loaded documents and after operations.')
