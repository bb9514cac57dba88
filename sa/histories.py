"""Families of documents and histories of operations on them."""

import time

from .cases import *
from .files import FILES

# what happens in one revision: letters are operations, digits the object they apply to
# u update, U update with a stream, e update with an empty dictionary, d delete, a add, A add a stream, x add and delete again


def ent(n, pos, nxt, gen=0, ver=0, **k):
    return dict({'o_num': n, 'o_gen': gen, 'abs_pos': pos, 'o_ver': 0, 'doc_ver': ver, 'abs_next': nxt}, **k)


def blank(s, f):
    """A document made from nothing."""
    c = Case(s, f)
    c.hist = ['blank']
    c.doc = s.op('api.blank')
    c.put(1, Exp(None, {('/Pages',): 2}))
    c.put(2, Exp(None, {('/Kids', 0): 3}))
    c.put(3, Exp(None, {('/Parent',): 2}))
    c.trail = {'/Root': 1}
    c.changed = c.new_nums = {1, 2, 3}
    c.opened = dict(c.snap(), rev=0)
    c.check_revision()
    c.changed, c.new_nums = set(), set()
    return c


class Base(object):
    """Parts of a loaded file."""

    def __init__(self, s):
        self.s = s
        self.pos = [s.number(f'p{i}', lo=10) for i in range(24)]
        self.i = 0

    def stream(self, m, e):
        r = self.s.op('objects.forge_stream', dict(e, **{'/V': self.s.piece(m)}), self.s.data(m + 's'))
        return self.s.item(r, 0)


def trailer0(p, kind, xnum=None, ver=0):
    d = {'o_num': 0, 'o_gen': 0, 'abs_pos': p[20 if kind == 'table' else 22], 'startxref_pos': p[21], 'o_ver': ver, 'doc_ver': ver, 'abs_next': p[23]}
    d['xref_table_pos' if kind == 'table' else 'xref_stream_pos'] = p[22]
    if xnum:
        d['xref_stream_num'] = xnum
    return d


def loaded(s, f, kind, pack=False, revs=1, listed=True):
    """A loaded file: 1 catalog, 2 free, 3 pages, 4 page, 5 a stream, 6 a dictionary with a generation (tables) or packed, 7 info, 8 cross-reference stream, 9 object stream."""
    c = Case(s, f)
    b = Base(s)
    p = b.pos
    xn = 8 if kind == 'stream' else None
    c.hist = [f'{kind}{"-packed" if pack else ""}{"-2" if revs == 2 else ""}{"" if listed else "-unlisted"}']
    g6 = 0 if pack else revs
    cat = {'/Type': '/Catalog', '/Pages': 3j}
    cache = [{'/Root': 1j, '/Size': 8, '/Info': 7j}, cat, None, {'/Type': '/Pages', '/Kids': [4j], '/Count': 1},
             {'/Type': '/Page', '/Parent': 3j, '/Contents': 5j, '/V': s.piece('v4')},
             b.stream('v5', {'/R': complex(g6, 6)}), {'/V': s.piece('v6'), '/R': 4j}, {'/V': s.piece('v7')}]
    row = [None, ent(1, p[1], p[2]), None, ent(3, p[3], p[4]), ent(4, p[4], p[5]), ent(5, p[5], p[6]), ent(6, p[6], p[7], g6), ent(7, p[7], p[8])]
    c.put(1, Exp(None, {('/Pages',): 3}))
    c.put(3, Exp(None, {('/Kids', 0): 4}))
    c.put(4, Exp('v4', {('/Parent',): 3, ('/Contents',): 5}, False))
    c.put(5, Exp('v5', {('/R',): 6}, True))
    c.put(6, Exp('v6', {('/R',): 4}, False), g6)
    c.put(7, Exp('v7', {}, False))
    c.trail = {'/Root': 1, '/Info': 7}
    if kind == 'stream':
        c.xkind = 'stream'
        c.xnum = 8
        cache[0].update({'/Type': '/XRef', '/W': [1, 3, 2], '/Index': [0, 9], '/Length': 54, '/Filter': '/FlateDecode', '/DecodeParms': {'/Columns': 6, '/Predictor': 12}})
        row.append(ent(8, p[22], p[23]) if listed else None)
        cache.append(None)
        if listed:
            c.put(8, Exp())
            cache[8] = b.stream('v8', {'/Type': '/XRef'})
        c.size = 9
    if pack:
        for n in (4, 6):
            row[n] = ent(n, s.number(f'q{n}', lo=10), p[10], env_num=9, o_pos=0)
        row.append(ent(9, p[9], p[10]))
        env = {'/Type': '/ObjStm', '/N': 2, '/First': s.number('first', lo=4)}
        cache.append(b.stream('v9', env))
        c.put(9, Exp())
    cache[0]['/Size'] = len(row)
    row[0] = trailer0(p, kind, xn)
    index = [row]
    eofs = [s.number('eof1', lo=100)]
    c.prev = s.I.int_lin(p[22])
    if revs == 2:
        q = [s.number(f'r{i}', lo=200) for i in range(24)]
        row2 = list(row)
        row2[0] = trailer0(q, kind, xn, 1)
        row2[4] = dict(ent(4, q[4], q[5], 0, 1), o_ver=1)
        row2.append(ent(len(row), q[6], q[7], 0, 1))
        cache.append({'/V': s.piece('v10')})
        if xn and listed:
            row2[8] = dict(ent(8, q[22], q[23], 0, 1), o_ver=1)
        c.put(len(row), Exp('v10', {}, False))
        cache[0]['/Prev'] = p[22]
        cache[0]['/Size'] = len(row2)
        index.append(row2)
        eofs.append(s.number('eof2', lo=300))
        c.prev = s.I.int_lin(q[22])
    c.doc = s.loaded(index, cache, eofs)
    c.base = s.I.int_lin(eofs[-1])
    c.rev = revs
    return c


def dense(s, f):
    """A loaded file without free numbers, with generations."""
    c = Case(s, f)
    b = Base(s)
    p = b.pos
    c.hist = ['dense']
    cache = [{'/Root': 1 + 1j, '/Size': 6, '/ID': [s.piece('id1'), s.piece('id2')]}, {'/Type': '/Catalog', '/Pages': 2j}, {'/Type': '/Pages', '/Kids': [1 + 3j], '/Count': 1},
             {'/Type': '/Page', '/Parent': 2j, '/V': s.piece('v3'), '/Contents': 5j}, {'/V': s.piece('v4'), '/L': [1 + 3j, [1 + 1j]]}, b.stream('v5', {'/R': 4j, '/D': {'/P': 1 + 3j}})]
    gens = [0, 1, 0, 1, 0, 0]
    row = [trailer0(p, 'table')] + [ent(i, p[i], p[i + 1], gens[i]) for i in range(1, 6)]
    c.put(1, Exp(None, {('/Pages',): 2}), 1)
    c.put(2, Exp(None, {('/Kids', 0): 3}))
    c.put(3, Exp('v3', {('/Parent',): 2, ('/Contents',): 5}, False), 1)
    c.put(4, Exp('v4', {('/L', 0): 3, ('/L', 1, 0): 1}, False))
    c.put(5, Exp('v5', {('/R',): 4, ('/D', '/P'): 3}, True))
    c.trail = {'/Root': 1, '/ID': None}
    eof = s.number('eof1', lo=100)
    c.doc = s.loaded([row], cache, [eof])
    c.base, c.rev = s.I.int_lin(eof), 1
    c.prev = s.I.int_lin(p[22])
    return c


def linearized(s, f):
    """A linearized file: two sections that belong to one revision; the one at the start of the file is the current one."""
    c = Case(s, f)
    b = Base(s)
    p = b.pos
    c.hist = ['linearized']
    cache = [{'/Root': 1j, '/Size': 5, '/Prev': p[19]}, {'/Type': '/Catalog', '/Pages': 3j}, {'/Linearized': 1, '/V': s.piece('v2')}, {'/Type': '/Pages', '/Kids': [4j], '/Count': 1}, {'/Type': '/Page', '/Parent': 3j, '/V': s.piece('v4')}]
    first = trailer0(p, 'table')
    main = {'o_num': 0, 'o_gen': 0, 'abs_pos': p[17], 'xref_table_pos': p[18], 'startxref_pos': p[16], 'o_ver': 0, 'doc_ver': 0, 'abs_next': p[15]}
    row = [[main, first], ent(1, p[1], p[2]), ent(2, p[2], p[3]), ent(3, p[3], p[4]), ent(4, p[4], p[5])]
    c.put(1, Exp(None, {('/Pages',): 3}))
    c.put(2, Exp('v2', {}, False))
    c.put(3, Exp(None, {('/Kids', 0): 4}))
    c.put(4, Exp('v4', {('/Parent',): 3}, False))
    c.trail = {'/Root': 1}
    eof = s.number('eof1', lo=100)
    c.doc = s.loaded([row], cache, [eof])
    c.base, c.rev = s.I.int_lin(eof), 1
    c.prev = s.I.int_lin(p[22])
    return c


def hybrid(s, f):
    """A hybrid-reference file: the second revision has a table and a stream for the objects hidden from old readers."""
    c = Case(s, f)
    b = Base(s)
    p = b.pos
    q = [s.number(f'r{i}', lo=200) for i in range(24)]
    c.hist = ['hybrid']
    cache = [{'/Root': 1j, '/Size': 7, '/Prev': p[22], '/XRefStm': q[20]}, {'/Type': '/Catalog', '/Pages': 2j}, {'/Type': '/Pages', '/Kids': [3j], '/Count': 1},
             {'/Type': '/Page', '/Parent': 2j, '/V': s.piece('v3')}, {'/V': s.piece('v4')}, {'/V': s.piece('v5')}, b.stream('v6', {'/Type': '/ObjStm', '/N': 1, '/First': 4}), b.stream('v7', {'/Type': '/XRef'})]
    row = [trailer0(p, 'table'), ent(1, p[1], p[2]), ent(2, p[2], p[3]), ent(3, p[3], p[4]), None, None, None, None]
    t1 = trailer0(q, 'table', None, 1)
    t1.update({'xref_stm': True, 'xref_stream_pos': q[20], 'xref_stream_num': 7})
    row2 = [t1] + row[1:4] + [ent(4, q[4], q[5], 0, 1), ent(5, s.number('q5', lo=200), q[6], 0, 1, env_num=6, o_pos=0), ent(6, q[6], q[7], 0, 1), ent(7, q[20], q[21], 0, 1)]
    c.put(1, Exp(None, {('/Pages',): 2}))
    c.put(2, Exp(None, {('/Kids', 0): 3}))
    c.put(3, Exp('v3', {('/Parent',): 2}, False))
    c.put(4, Exp('v4', {}, False))
    c.put(5, Exp('v5', {}, False))
    c.put(6, Exp())
    c.put(7, Exp())
    c.packed = {5: 6}
    c.trail = {'/Root': 1}
    eofs = [s.number('eof1', lo=100), s.number('eof2', lo=300)]
    c.doc = s.loaded([row, row2], cache, eofs)
    c.base, c.rev = s.I.int_lin(eofs[-1]), 2
    c.prev = s.I.int_lin(q[22])
    return c


FAMILIES = {
    'blank': blank,
    'table': lambda s, f: loaded(s, f, 'table'),
    'table2': lambda s, f: loaded(s, f, 'table', revs=2),
    'stream': lambda s, f: loaded(s, f, 'stream'),
    'stream2': lambda s, f: loaded(s, f, 'stream', revs=2),
    'packed': lambda s, f: loaded(s, f, 'stream', pack=True),
    'packed2': lambda s, f: loaded(s, f, 'stream', pack=True, revs=2),
    'dense': dense,
    'linearized': linearized,
    'hybrid': hybrid,
}
FAMILIES.update(FILES)


def run(p, family, script, light=False):
    """Evaluate one history; returns (name, findings, unresolved reason or None)."""
    c = CaseClient()
    f = Findings()
    s = new_session(p, c)
    s.I.deadline = time.time() + 120
    case = None
    why = None
    try:
        case = FAMILIES[family](s, f)
        if not light:
            case.check_memory()
        for w in script.split():
            step(case, w, light)
    except Failed as e:
        n = case.name() if case else family
        if case is not None and case.vague:
            why = f'{e} after a revision of unknown structure'
        else:
            f.bad.append(('fails', str(e), f'{n}: {e} has no result'))
    except (Unresolved, AnalysisBroken) as e:
        why = str(e)
    for at, msg in s.I.overflow:
        f.bad.append(('format', 'overflow', f'{case.name() if case else family}: {at}: {msg}'))
    return (case.name() if case else family), f, why


def step(c, w, light):
    if w == 'commit':
        c.commit()
    elif w == 'squash':
        c.squash()
    elif w == 'group':
        c.group()
    elif w == 'write':
        c.write()
    elif w == 'print':
        c.write(None)
    elif w == 'compress':
        c.compress()
    elif w == 'load':
        c.load()
    elif w == 'rewind':
        c.rewind()
    elif w[0] == 'u':
        c.update(int(w[1:]))
    elif w[0] == 'U':
        c.update(int(w[1:]), True)
    elif w[0] == 'e':
        c.empty(int(w[1:]))
    elif w[0] == 'd':
        c.delete(int(w[1:]))
    elif w == 'a':
        c.add()
    elif w == 'A':
        c.add(True)
    elif w == 'x':
        c.delete(c.add())
    if not light:
        c.check_memory()
        c.check_api()
        c.check_get()
