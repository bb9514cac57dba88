"""The public operations of the package, with abstract arguments, as roots of the analyses."""

from .values import *
from .heap import *
from .model import *
from .interp import Client, Dead, FrameInfo, Interp
from . import region
from . import summary

import os

TIMES = os.environ.get('SA_TIMES')
ARG = 'arg'
_A = frozenset([ARG])


def a_list(I, elem, name, kind='list'):
    loc = ('R', name)
    I.st.heap[loc] = Obj(kind, other=elem, unique=True, tags=_A, site=loc)
    return V(P(loc))


# argument kinds ---------------------------------------------------------------------------

def mk_arg(I, k, i):
    name = f'a{i}'
    if k == 'd':
        return region.make_doc(I, f'd{i}')
    if k == 'o':
        return region.pdf_values(I, name, _A)
    if k == 'i':
        return INT
    if k == 's':
        return STR
    if k == 'b':
        return V(T('bool'))
    if k == 'N':
        return NONE
    if k == 'c':
        return V(T('complex'))
    if k == 'y':
        return BYTES
    if k == 'li':
        return a_list(I, INT, name)
    if k == 'ln':
        return a_list(I, V(T('int'), T('float')), name)
    if k == 'si':
        return a_list(I, INT, name, 'set')
    if k == 'sc':
        return a_list(I, V(T('complex')), name, 'set')
    if k == 'lo':
        return a_list(I, region.pdf_values(I, name, _A), name)
    if k == 'file':
        return UNK
    if k == 'fd':
        return V(Fn('model', region.provider_model))
    if k == 'slice':
        return UNK
    if isinstance(k, tuple) and k[0] == 'k':
        return V(K(k[1]))
    raise AnalysisBroken(f'bad root argument {k}')


class Root(object):
    def __init__(self, mod, qual, args=(), kw=None, tag=''):
        self.mod, self.qual, self.args, self.kw, self.tag = mod, qual, tuple(args), kw or {}, tag
        self.name = f'{mod}.{qual}' + (f'[{tag}]' if tag else '')

    def __repr__(self):
        return self.name


def R(mq, *args, tag='', **kw):
    m, _, q = mq.partition('.')
    return Root(m, q, args, kw, tag)


# Operations taking an open document (the slow ones first, for the scheduler)
DOC_ROOTS = [
    R('api.extract_page_text', 'd', 'i'),
    R('api.compress', 'd'),
    R('docstruct.remove_pages', 'd', 'si'),
    R('docstruct.keep_pages', 'd', 'i'),
    R('docstruct.keep_pages', 'd', 'si', tag='set'),
    R('docstruct.Doc.__getitem__', 'd', 'i'),
    R('api.fonts', 'd'),
    R('docstruct.get_page_fonts', 'd', 'li'),
    R('docstruct.prepare_font', 'd', 'c'),
    R('docstruct.concat', 'd', 'd'),
    R('docstruct.concat', 'd', 'd', ('k', False), tag='right'),
    R('docstruct.Doc.__add__', 'd', 'd'),
    R('docstruct.commit', 'd'),
    R('api.writefile', 'd', 's'),
    R('api.writefile', 'd', tag='stdout'),
    R('api.rotate', 'd', 'i', 'li'),
    R('api.rotate', 'd', tag='defaults'),
    R('api.metadata', 'd'),
    R('api.structure', 'd'),
    R('api.page_layouts', 'd', 'i'),
    R('api.list_streams', 'd'),
    R('api.apply_filter', 'd', 'li', 's'),
    R('api.add_text_annotation', 'd', 'i', 's', 'ln', 'b'),
    R('api.get_page_contents', 'd', 'i'),
    R('docstruct.dependencies', 'd', 'o'),
    R('docstruct.squash', 'd'),
    R('docstruct.rewind', 'd'),
    R('docstruct.group_obj_into_stream', 'd', tag='all'),
    R('docstruct.group_obj_into_stream', 'd', 'i', 'si'),
    R('docstruct.force_xref_stream', 'd'),
    R('docstruct.force_xref_stream', 'd', ('k', True), 's', tag='placeholder'),
    R('docstruct.update_object', 'd', 'i', 'o'),
    R('docstruct.add_object', 'd', 'o'),
    R('docstruct.copy_doc', 'd', tag='same'),
    R('docstruct.copy_doc', 'd', ('k', 'NEXT'), tag='next'),
    R('docstruct.copy_doc', 'd', ('k', 'PREVIOUS'), tag='previous'),
    R('docstruct.update_version', 'd', 's'),
    R('docstruct.get_object', 'd', 'o'),
    R('docstruct.obj', 'd', 'i'),
    R('docstruct.flat_page_tree', 'd'),
    R('docstruct.pages', 'd', 'i'),
    R('docstruct.get_iref', 'd', 'i'),
    R('docstruct.in_use', 'd'),
    R('docstruct.changes', 'd'),
    R('docstruct.envelopes', 'd'),
    R('docstruct.envelope_objects', 'd'),
    R('docstruct.version', 'd'),
    R('docstruct.updates', 'd'),
    R('docstruct.trailer', 'd'),
    R('docstruct.encrypted', 'd'),
    R('docstruct.hybrid', 'd'),
    R('docstruct.catalog', 'd'),
    R('docstruct.info', 'd'),
    R('docstruct.number_pages', 'd'),
    R('docstruct.revision_index', 'd'),
    R('docstruct.max_num', 'd'),
    R('docstruct.pprint_index', 'd'),
    R('docstruct.pprint_cache', 'd'),
    R('docstruct.pprint_data_history', 'd'),
    R('docstruct.pprint_page_hierarchy', 'd'),
    R('docstruct.Doc.__repr__', 'd'),
    R('docstruct.Doc.__len__', 'd'),
    R('docstruct.Doc.__iter__', 'd'),
]

# Leaves that the analyses above summarise: they must not touch what they are given
LEAF_ROOTS = [
    R('objects.parse_obj', 'y', 'i'),
    R('objects.next_token', 'y', 'i'),
    R('objects.parse_object_stream', 'o', 'i'),
]

# Operations without a document argument
FREE_ROOTS = [
    R('api.blank'),
    R('api.loads', 'y'),
    R('api.readfile', 's'),
    R('api.load', 'file', 's'),
    R('api.paper', 'ln'),
]

# Library functions on values other than documents
LIB_ROOTS = [
    R('filestruct.file_object_map', 'fd'),
    R('filestruct.build_xref_sequence', 'fd'),
    R('filestruct.linearized', 'fd'),
    R('filestruct.hexdump', 'fd', 'i', 'i'),
    R('filestruct.bdata_all', 'fd'),
    R('filestruct.bdata_length', 'fd'),
    R('objects.serialize', 'o'),
    R('objects.deep_ref_detect', 'o'),
    R('objects.parse_region', 'y', 'i'),
    R('objects.parse_indirect_obj', 'y', 'i'),
    R('objects.parse_xref_table_raw', 'y', 'i'),
    R('filters.decode_stream', 'y', 'o'),
    R('filters.encode_stream', 'y', 'o'),
    R('text.text_string', 'y'),
    R('text.apply_encoding', 's', 'y'),
    R('text.apply_tounicode', 'lo', 'y', 'b'),
    R('graphics.parse_stream_content', 'y'),
    R('graphics.printable_stream_content', 'y'),
    R('graphics.multiply_matrices', 'ln', 'ln'),
    R('markdown.render_html', 's'),
    R('docstruct.merge_fdata', 'fd', 'i', 'y'),
]

# The commands
CLI_ROOTS = [
    R('cli.compress_file', 's', 's'),
    R('cli.browse', 's'),
    R('cli.overview', 's'),
    R('cli.print_fonts', 's'),
    R('cli.spatial', 's'),
    R('cli.dump_disasm', 's'),
    R('cli.hexdump_cli', 's'),
]


_SLOW = {'docstruct.concat[right]', 'docstruct.Doc.__add__', 'docstruct.Doc.__getitem__', 'docstruct.keep_pages', 'docstruct.get_page_fonts',
         'api.writefile[stdout]'}
_ORDER = {'api.extract_page_text': 0, 'api.compress': 1, 'cli.browse': 2, 'api.fonts': 3, 'cli.print_fonts': 3, 'docstruct.keep_pages[set]': 4}


def all_roots():
    """Every operation, command and library function once, longest first."""
    roots = [r for r in DOC_ROOTS if r.name not in _SLOW] + CLI_ROOTS + FREE_ROOTS + LIB_ROOTS + LEAF_ROOTS
    roots.sort(key=lambda r: _ORDER.get(r.name, 9))
    return roots


def run_root(program, client, root, setup=None, summaries=None, **opts):
    """Analyse one root; returns (Interp, result Val or None when no path returns)."""
    import time
    t0 = time.time()
    I = Interp(program, client, **opts)
    if summaries is None:
        summaries = summary.OPEN if root.mod == 'cli' else summary.LEAVES
    client.summaries = summaries
    base = I.st
    I.fstack = []
    I.memo = {}
    m = program.modules.get('pdfsyntax.' + root.mod)
    if m is None:
        raise AnalysisBroken(f'module pdfsyntax.{root.mod} is missing')
    fn = I.find_func(root.mod, root.qual)
    if fn is None:
        raise AnalysisBroken(f'anchor vanished: {root.mod}.{root.qual}')
    from .heap import Fr
    I.st = base
    I.st.frames = [Fr()]
    I.fstack = [FrameInfo(None, m.tree, 0, m)]
    if setup is not None:
        args, kw = setup(I)
    else:
        args = [mk_arg(I, k, i) for i, k in enumerate(root.args)]
        kw = {n: mk_arg(I, k, n) for n, k in root.kw.items()}
    client.args = args
    try:
        v = I.call_func(fn, args, kw, fn.ref.node)
    except Dead:
        v = None
    if TIMES:
        print(f'{time.time() - t0:6.1f}s {root.name} {"" if v is not None else "NO RETURN"}', flush=True)
    return I, v


class SumClient(Client):
    """A client that applies the leaf summaries."""
    summaries = None
    viol = None

    def __init__(self):
        self.viol = {}
        self.counts = {}
        self.lists = {}
        self.notes = []

    def on_call(self, I, fn, args, kwargs, node):
        if self.summaries:
            return summary.apply(I, fn, args, kwargs, node, self.summaries)
        return None

    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def result(self):
        return {'viol': self.viol, 'counts': self.counts, 'lists': self.lists, 'notes': self.notes}


def reach(I, v, stop=lambda o: False):
    """Heap objects reachable from a value: list of (loc, obj, path)."""
    seen = {}
    todo = [(v, '')]
    while todo:
        x, path = todo.pop()
        for a in x:
            if isinstance(a, Pa):
                o = I.st.heap.get(a.loc)
                if o is None or a.loc in seen:
                    continue
                seen[a.loc] = (o, path)
                if stop(o):
                    continue
                if o.exact is not None:
                    for i, e in enumerate(o.exact):
                        todo.append((e, f'{path}[{i}]'))
                for k, e in o.fields.items():
                    todo.append((e, f'{path}[{k!r}]'))
                todo.append((o.other, path + '[*]'))
                todo.append((o.okeys, path + '[keys]'))
            elif isinstance(a, Tua):
                for i, e in enumerate(a.items):
                    todo.append((e, f'{path}[{i}]'))
    return seen
