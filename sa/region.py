"""Abstract inputs: an arbitrary open document, arbitrary PDF values, arbitrary data providers."""

from .values import *
from .heap import *
from .model import *

DOC = 'doc'


def provider_model(I, args, kwargs, node):
    """Any data provider: (buffer, start in buffer, offset, readable bytes); the size query leaves the rest empty."""
    lb = getattr(I.client, 'file_labels', NOLB)
    a = args[0] if args else kwargs.get('start_pos', UNK)
    size = Tu([NONE, NONE, NONE, I.mk_int(NOLB, node, 'psz', lo=0)])
    data = Tu([I.mk_str('bytes', lb, node, 'pbuf'), I.mk_int(NOLB, node, 'pi', lo=0), V(K(0)), I.mk_int(NOLB, node, 'pn', lo=0)])
    if all(isinstance(x, Ka) and x.v is None for x in a):
        return V(size)
    if not any(isinstance(x, Ka) and x.v is None for x in a):
        return V(data)
    return V(size, data)


provider_model.__name__ = 'provider'


def stream_class(I):
    if 'Stream' not in I.classes:
        raise AnalysisBroken('class Stream is missing')
    return I.classes['Stream']


def pdf_values(I, name='pdf', tags=frozenset(), lb=NOLB, none=True, stream=True):
    """A value standing for any PDF object; containers live in summary objects tagged with tags."""
    h = I.st.heap
    ld, ll, ls, le = (('R', name + x) for x in ('.dict', '.list', '.stream', '.entries'))
    c = stream_class(I)
    txt = frozenset(lb)
    leaf = {T('int'), T('float'), T('str', txt), T('bytes', txt), T('bool'), T('complex')}
    inner = frozenset(leaf | {P(ld), P(ll), K(None)})
    leaf_n = frozenset(leaf | {P(ld), P(ll)})
    h[ld] = Obj('dict', other=leaf_n | NONE if False else leaf_n, okeys=V(T('str', txt)), unique=False, tags=tags, site=ld)
    h[ll] = Obj('list', other=inner, unique=False, tags=tags, site=ll)
    h[le] = Obj('dict', other=leaf_n, okeys=V(T('str', txt)), unique=False, tags=tags, site=le)
    if getattr(I.client, 'typed_keys', False):
        # entries of file structure dictionaries whose values are numbers, or arrays of numbers, in any file that can be opened
        ln = ('R', name + '.numbers')
        h[ln] = Obj('list', other=INT, unique=False, tags=tags, site=ln)
        typed = {'/Size': INT, '/Prev': INT, '/XRefStm': INT, '/N': INT, '/First': INT, '/Count': INT, '/Length': INT, '/Index': V(P(ln)), '/W': V(P(ln))}
        for l in (ld, le):
            h[l] = h[l].upd(fields=typed)
    out = set(leaf) | {P(ld), P(ll)}
    if stream:
        f = {'entries': V(P(le)), 'stream': V(T('bytes', txt)), 'raw': V(T('bytes', txt), K(None)), 'encoded': V(T('bytes', txt))}
        flds = {}
        for n in c.dc_fields or ['entries', 'stream', 'raw']:
            flds[n] = f.get(n, UNK)
        h[ls] = Obj('inst', cls='Stream', fields=flds, must=frozenset(flds), unique=False, tags=tags, site=ls)
        out.add(P(ls))
    if none:
        out.add(K(None))
    return frozenset(out)


def entry_obj(name, tags, unique=False, free=True, strict=True):
    f = {'o_num': INT, 'o_gen': INT, 'o_ver': INT, 'doc_ver': INT, 'abs_pos': V(T('int'), T('float')), 'abs_next': INT, 'env_num': INT,
         'o_pos': INT, 'DELETED': TRUE}
    return Obj('dict', fields=f, must=frozenset(['o_num', 'o_gen', 'o_ver', 'doc_ver']), unique=unique, tags=tags, site=('R', name))


def slot0_obj(name, tags, unique=False):
    f = {'o_num': V(K(0)), 'o_gen': V(K(0)), 'o_ver': INT, 'doc_ver': INT, 'abs_pos': INT, 'abs_next': INT, 'startxref_pos': INT,
         'xref_table_pos': INT, 'xref_stream_pos': INT, 'xref_stream_num': INT, 'xref_stm': TRUE}
    return Obj('dict', fields=f, must=frozenset(['o_num', 'o_gen', 'o_ver', 'doc_ver']), unique=unique, tags=tags, site=('R', name))


def make_doc(I, name='d', tag=DOC, lb=NOLB, free=True, linearized=True, none_cache=True, doclabels=NOLB):
    """An arbitrary document value; all its parts carry the tag `tag` plus a part name."""
    h = I.st.heap

    def tg(part):
        return frozenset([tag, tag + ':' + part])
    R = lambda x: ('R', name + '.' + x)
    pdf = pdf_values(I, name + '.obj', tg('object'), lb)
    h[R('entry')] = entry_obj(name + '.entry', tg('entry'))
    h[R('slot0')] = slot0_obj(name + '.slot0', tg('slot0'))
    h[R('slot0old')] = slot0_obj(name + '.slot0old', tg('slot0'))
    h[R('slot0l')] = Obj('list', other=V(P(R('slot0old'))), fields={0: V(P(R('slot0old'))), 1: V(P(R('slot0old'))), -1: V(P(R('slot0old'))), -2: V(P(R('slot0old')))},
                         must=frozenset([0, 1, -1, -2]), unique=False, tags=tg('slot0'), site=R('slot0l'))
    ent = V(P(R('entry')))
    if free:
        ent |= NONE
    h[R('row')] = Obj('list', other=ent, fields={0: V(P(R('slot0')))}, must=frozenset([0]), unique=True, tags=tg('row'), site=R('row'))
    old0 = V(P(R('slot0old')))
    if linearized:
        old0 |= V(P(R('slot0l')))
    h[R('rowold')] = Obj('list', other=ent, fields={0: old0}, must=frozenset([0]), unique=False, tags=tg('row'), site=R('rowold'))
    h[R('index')] = Obj('list', other=V(P(R('rowold'))), fields={-1: V(P(R('row')))}, must=frozenset([-1]), unique=True, tags=tg('index'), site=R('index'))
    trl = Obj('dict', fields={'/Root': V(T('complex')), '/Size': INT, '/Prev': INT, '/Info': V(T('complex')), '/XRefStm': INT},
              must=frozenset(['/Root', '/Size']), other=pdf - NONE, okeys=V(T('str', frozenset(lb))), unique=True, tags=tg('trailer'), site=R('trailer'))
    h[R('trailer')] = trl
    h[R('cache')] = Obj('list', other=pdf | NONE, fields={0: V(P(R('trailer')))}, must=frozenset([0]), unique=True, tags=tg('cache'), site=R('cache'))
    prov = V(Fn('model', provider_model))
    h[R('data')] = Obj('list', other=V(P(R('dat'))), fields={-1: V(P(R('datlast'))), 0: V(P(R('dat')), P(R('datlast')))}, must=frozenset([-1, 0]), unique=True, tags=tg('data'), site=R('data'))
    h[R('dat')] = Obj('dict', fields={'fdata': prov, 'eof_cut': INT, 'bdata': BYTES}, must=frozenset(['fdata']), unique=False, tags=tg('data'), site=R('dat'))
    h[R('datlast')] = Obj('dict', fields={'fdata': prov}, must=frozenset(['fdata']), unique=True, tags=tg('data'), site=R('datlast'))
    return V(Tu([V(P(R('index'))), V(P(R('cache'))), V(P(R('data')))], 'Doc'))
