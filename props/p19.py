"""P19: rewind gives back the previous revision."""

from sa.histcheck import *

FILES_ = tuple(FILES)
DEPTH = {'updated': 3, 'freed': 3, 'file': 1, 'file-crlf': 1, 'linear': 1}


def check(ctx):
    deep = ctx.tier == 'thorough'
    items = []
    for fam in FILES_:
        d = DEPTH.get(fam, 2)
        u = 3
        for k in range(1, d + 1):
            back = ' '.join(['rewind'] * k)
            items += [(fam, f'{back}{x}') for x in ('', f' u{u} commit rewind', ' commit rewind', ' a A commit load rewind')]
            items += [(fam, f'u{u} a commit rewind {back}'), (fam, f'u{u} {back}'), (fam, f'a A commit u{u} commit load {back} rewind')]
    for fam, x in (('blank', 'a A commit'), ('blank', 'a compress'), ('blank', 'a A commit squash commit'), ('stream', 'squash commit'), ('packed', 'squash commit'), ('table2', 'squash commit'), ('dense', 'squash commit')):
        n, s = 3, 2
        revs = [f'u{n}', f'd{n}', 'a A', f'U{s}', f'u{n} d{s} a', f'e{n}']
        xs = [f'{x} {a} commit {b}' for a in revs for b in ('rewind', 'rewind rewind', 'a commit rewind rewind', 'load rewind rewind')]
        xs += [f'{x} {a} commit {b} commit {c}' for a in revs for b in revs if without(b, a) for c in ('rewind rewind', 'rewind rewind rewind', 'load rewind rewind')]
        if 'compress' in x or fam in ('stream', 'packed'):
            xs += [f'{x} {a} group commit {b}' for a in ('a', f'u{n} a') for b in ('rewind', 'rewind a commit rewind', 'load rewind', 'u1 commit rewind rewind')]
        items += [(fam, y) for y in thin(xs, 200 if deep else 16)]
    check_items(ctx, items, {'rewind', 'api'}, PUBLIC + [('docstruct', 'rewind'), ('docstruct', 'copy_doc'), ('docstruct', 'build_cache')])
    ctx.explain('Abstract interpretation in the domain of string shapes with affine lengths: files of known structure (tables, cross-reference streams, object streams, linearized, hybrid, several revisions, deleted numbers) whose objects are unknown pieces, and histories of public operations, are rewound; the objects handed back afterwards (marker, references, stream data), those that must be gone and the list of changes are compared with what that revision holds.')
