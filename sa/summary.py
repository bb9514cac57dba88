"""Results assumed for the leaf functions when a caller is analysed.

Each summary over-approximates what the leaf may return: a freshly built value.  The purity of the
leaves themselves (they write only to objects they created) is an obligation of its own, checked by
the `leaf` roots of the effect analysis, so that a change of a leaf is analysed where it is made.
"""

from .values import *
from .heap import *
from .region import *


def _int(I, node, t, lo=0):
    return I.mk_int(NOLB, node, t, lo=lo)


def s_next_token(I, args, kw, node):
    kinds = V(*[K(x) for x in ('DICT', 'NAME', 'COMMENT', 'STRING', 'TRUE', 'FALSE', 'KEYWORD', 'REAL', 'INTEGER', 'STREAM', 'ARRAY', None)])
    return V(Tu([_int(I, node, 'nt0'), _int(I, node, 'nt1'), kinds]))


def fresh(I):
    lb = getattr(I.client, 'file_labels', NOLB)
    return pdf_values(I, 'parsed', frozenset(['parsed']), lb)


def s_parse_obj(I, args, kw, node):
    return fresh(I)


def s_parse_object_stream(I, args, kw, node):
    vals = fresh(I)
    env = args[1] if len(args) > 1 else kw.get('env_num', UNK)
    lb = getattr(I.client, 'file_labels', NOLB)
    num = INT | V(T('str', lb)) if lb else INT      # the numbers listed in an object stream are not checked to be numbers
    item = V(Tu([num, vals, env, V(T('int'), K(None)), INT]))
    loc = I.alloc(node, 'list', 'pos', other=item)
    return V(Tu([NONE, NONE, V(K('OBJSTREAM')), V(P(loc))]))


LEAVES = {
    'next_token': s_next_token,
    'parse_obj': s_parse_obj,
    'parse_object_stream': s_parse_object_stream,
}


def s_doc_constructor(I, args, kw, node):
    lb = getattr(I.client, 'file_labels', NOLB)
    return make_doc(I, 'opened', 'opened', lb)


def s_text(I, args, kw, node):
    return V(T('str', getattr(I.client, 'file_labels', NOLB)))


# For the commands: the document they open, or get from an operation that is a root itself, is any document
OPEN = dict(LEAVES, doc_constructor=s_doc_constructor, compress=s_doc_constructor, extract_page_text=s_text)


def apply(I, fn, args, kw, node, table=LEAVES):
    f = fn.ref
    if f.cls is None and f.name in table and f.module.name.startswith('pdfsyntax.') and f.qual.endswith('.' + f.name) or f.qual == f.name:
        s = table.get(f.name)
        if s is not None:
            return s(I, args, kw, node)
    return None
