"""P20: rotation."""

from sa.pagecases import *


def check(ctx):
    check_pages(ctx, rotations(ctx.tier == 'thorough'), ('rotate',), ['rotate', 'page_layouts'])
    ctx.explain('Abstract interpretation on partly known documents: page trees of several shapes (flat, nested, generations, indirect arrays and counts, attributes inherited from every level) whose contents are unknown pieces; the pages are rotated by several angles, all or a choice of them, once and repeatedly. The /Rotate of every page is compared with its inherited or own value plus the angle modulo 360, everything else with what it was.')
