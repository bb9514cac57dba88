"""Checks over families of histories: enumeration, workers, selection of the aspects a property is about."""

from .histories import *
from .run import analyse

# per family: (object to update, object to make a stream, objects that may be deleted, objects added first)
SHAPE = {
    'blank': ('a A commit', 4, 3, (4, 5)),
    'table': ('', 4, 7, (6, 5)),
    'table2': ('', 8, 7, (6, 4)),
    'stream': ('', 4, 7, (5, 6)),
    'stream2': ('', 9, 7, (4, 5)),
    'packed': ('', 4, 7, (5, 6)),
    'packed2': ('', 10, 7, (4, 6)),
    'dense': ('', 4, 4, (5, 3)),
    'linearized': ('', 4, 3, (2, 4)),
    'hybrid': ('', 4, 3, (5, 4)),
}


def revisions(fam):
    """What may happen in one revision."""
    _, u, s, (d1, d2) = SHAPE[fam]
    return [f'u{u}', f'U{s}', f'd{d1}', 'a', 'A', 'x', f'u{u} d{d1} a', f'A u{s} d{d2}', f'd{d2} d{d1}', 'a A a', f'u{u} u{u}', f'e{u} a', '']


def without(rev, other):
    """Is the revision possible after the other one (an object is deleted only once, deleted objects stay deleted)?"""
    gone = {w[1:] for w in other.split() if w[0] == 'd'}
    return not any(w[0] in 'uUed' and w[1:] in gone for w in rev.split())


def scripts(fam, depth, ends):
    """Histories: some revisions, then one of the given ends."""
    first = SHAPE[fam][0]
    rs = revisions(fam)
    out = []

    def grow(done, used, n):
        for e in ends:
            out.append(f'{first} {" ".join(done)} {e}'.strip())
        if n == 0:
            return
        for r in rs:
            if without(r, ' '.join(used)):
                grow(done + ([r] if r else []) + ['commit'], used + [r], n - 1)
    grow([], [], depth)
    return out


def grouped(n):
    """Histories that put changes into object streams."""
    out = []
    for fam in ('stream', 'stream2', 'packed', 'packed2'):
        rs = [r for r in revisions(fam) if r]
        xs = [f'{a} group commit' for a in rs] + [f'{a} group {b} commit' for a in rs for b in rs if without(b, a)] + [f'{a} group commit {b} group commit' for a in rs for b in rs if without(b, a)]
        xs += [f'{a} group commit squash commit' for a in rs]
        must = [f'{a} group commit' for a in ('u6', 'u6 a', 'u4 u6', 'u6 a A')]
        out += [(fam, x) for x in thin(xs, n) + must]
    out += [('table', f'compress {a} group commit') for a in ('a', 'a A', 'u1 a')]
    return out


def filed(n, ends=('',)):
    """Files of known structure that are loaded, changed and saved."""
    out = []
    for fam in FILES:
        xs = [f'{a} {e}'.strip() for e in ends for a in ('u3 commit', 'd3 commit', 'a A commit', 'U3 a commit', 'u3 d3 a commit', 'x a commit', 'e3 a commit', 'u3 commit d3 commit a commit', 'a commit load u3 commit', 'd3 commit load a commit', 'rewind u3 commit', 'rewind a A commit load u3 commit', 'u3 commit rewind d3 commit',
                                                         'rewind d3 commit a commit', 'squash commit u1 commit', 'compress a commit', 'u3 squash commit', 'rewind squash commit')]
        out += [(fam, x) for x in thin(xs, n)]
    return out


def thin(xs, n):
    """About n of the histories, spread evenly."""
    if len(xs) <= n:
        return xs
    return [xs[i * len(xs) // n] for i in range(n)]


# the constructs that produce what an aspect is about
SITES = {
    'format': ['filestruct.build_revision_byte_stream', 'filestruct.format_xref_table', 'filestruct.format_xref_stream'],
    'offsets': ['filestruct.build_revision_byte_stream'],
    'content': ['docstruct.changes', 'filestruct.build_revision_byte_stream'],
    'objstm': ['filestruct.append_to_stream_fragment', 'filestruct.finalize_stream', 'docstruct.group_obj_into_stream'],
    'trailer': ['docstruct.commit', 'filestruct.circular_deleted'],
    'memory': ['docstruct.commit', 'docstruct.copy_doc'],
    'api': ['docstruct.changes', 'docstruct.update_object', 'docstruct.add_object'],
    'refs': ['docstruct.defragment_map', 'objects.deep_ref_retarget'],
    'file': ['api.writefile'],
    'load': ['filestruct.build_xref_sequence', 'filestruct.build_index_from_xref_sequence', 'filestruct.parse_xref_table', 'filestruct.parse_xref_stream', 'docstruct.memoize_obj_in_cache'],
    'rewind': ['docstruct.rewind', 'docstruct.copy_doc', 'docstruct.memoize_obj_in_cache'],
}


def sites(p, aspect):
    names = {x.split('.')[1] for x in SITES.get(aspect, ())}
    return ', '.join(f'{where(n)} {q}' for m, q, n in p.functions() if q in names)


def job(a):
    items, aspects = a
    p = Program()
    res = {'viol': {}, 'counts': {'histories': 0, 'facts': 0, 'histories_not_resolved': 0}, 'lists': {'not_resolved': []}, 'notes': []}
    names = set()
    for fam, script in items:
        n, f, why = run(p, fam, script)
        res['counts']['histories'] += 1
        res['counts']['facts'] += f.n
        if why:
            res['counts']['histories_not_resolved'] += 1
            if len(res['lists']['not_resolved']) < 3:
                res['lists']['not_resolved'].append(f'{n}: {why[:160]}')
        for aspect, key, msg in f.bad:
            if aspect in aspects or aspect == 'fails':
                at = sites(p, aspect)
                res['viol'].setdefault(f'{aspect}:{key}', f'{msg}' + (f' [{at}]' if at else ''))
        for x in sorted(set(f.notes))[:2]:
            if x not in res['notes'] and len(res['notes']) < 4:
                res['notes'].append(x)
        names.add(fam)
    res['lists']['families'] = sorted(names)
    return res


def check_items(ctx, items, aspects, anchors):
    for m, q in anchors:
        ctx.anchor(has_func(ctx.program, m, q), f'{m}.{q}')
    items = sorted(set(items))
    k = 24 if len(items) > 200 else 8
    # neighbouring histories cost about the same: deal them out
    n = max(1, len(items) // k)
    groups = [items[i::n] for i in range(n)]
    analyse(ctx, job, [(g, aspects) for g in groups])
    ctx.count('histories_selected', len(items))
    return items


def has_func(p, m, q):
    return any(x == q for _, x, _ in p.functions())


PUBLIC = [('docstruct', 'commit'), ('docstruct', 'update_object'), ('docstruct', 'add_object'), ('docstruct', 'squash'), ('api', 'blank'), ('api', 'compress')]
