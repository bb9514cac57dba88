"""P30: loading finds the current version of every object of the file."""

from sa.histcheck import *
from .p19 import FILES_


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in FILES_:
        xs = ['', 'u3 commit load', 'a A commit load u3 commit load', 'd3 commit load', 'd3 commit load a commit load', 'U3 a commit u3 commit load', 'd3 a commit a commit load', 'e3 commit load', 'squash commit load', 'compress load', 'u3 commit squash commit u1 commit load', 'compress u1 a commit load']
        if 'streams' in fam or fam == 'narrow':
            xs += ['u3 a group commit load', 'u3 a group commit u3 d1 commit load', 'a A group commit load a group commit load', 'u3 group commit a group commit load u1 commit load']
        items += [(fam, x) for x in xs]
    for fam, x in (('blank', 'a A commit'), ('blank', 'a A compress'), ('stream', 'squash commit'), ('packed', 'squash commit'), ('table2', 'squash commit'), ('dense', 'squash commit'), ('packed2', 'compress'), ('linearized', 'squash commit'), ('hybrid', 'squash commit')):
        n, s = 3, 2
        revs = [f'u{n}', f'd{n}', 'a A', f'U{s}', f'u{n} d{s} a', f'e{n}', 'x a', f'u{n} U{n}']
        xs = [f'{x} load {a} commit load' for a in revs]
        xs += [f'{x} {a} commit {b} commit load' for a in revs for b in revs if without(b, a)]
        xs += [f'{x} {a} commit load {b} commit load' for a in revs for b in revs if without(b, a)]
        if fam in ('stream', 'packed', 'packed2') or 'compress' in x:
            xs += [f'{x} {a} group commit {b} commit load' for a in ('a', f'u{n} a', f'u{n} a u1') for b in revs] + [f'{x} {a} group commit load {b} group commit load' for a in ('a', f'u{n} a') for b in ('a', f'u{n}', f'u{n} U{s} a')]
        items += [(fam, y) for y in thin(xs, 200 if deep else 14)]
    check_items(ctx, items, {'load'}, PUBLIC + [('api', 'loads'), ('filestruct', 'build_xref_sequence'), ('filestruct', 'build_index_from_xref_sequence'), ('docstruct', 'memoize_obj_in_cache')])
    ctx.explain('Abstract interpretation in the domain of string shapes with affine lengths: files of known structure (tables with subsections and with CR LF, cross-reference streams with several field widths, object streams, linearized, hybrid, several revisions, deleted and re-used numbers) whose objects are unknown pieces, and files written by histories of public operations, are loaded by the package; number of revisions, entry, generation, position, object stream of every object and what get_object hands back for it (marker, references, stream data) are compared with what the file holds in its last revision.')
