"""Files whose structure is known and whose contents are not: built piece by piece, to be loaded by the package.

Every position is an affine form over the lengths of the unknown contents."""

from .cases import *
from . import rx as RX


class FileText(object):
    """Text in the making; positions that are not known yet come from the pass before."""

    def __init__(self, s, known, eol='\n'):
        self.s, self.known, self.eol = s, known, eol
        self.parts = []
        self.pos = lin(0)
        self.here = {}
        self.ends = []

    def put(self, *xs):
        for x in xs:
            if isinstance(x, str):
                x = RX.lit(x.replace('\n', self.eol))
            elif isinstance(x, Lin):
                x = RX.hole((x, '')) if x.terms else RX.lit(str(x.c))
            self.parts.append(x)
            self.pos = lin_add(self.pos, RX.part_len(x))
        return self

    def mark(self, name):
        self.here[name] = self.pos
        return self

    def at(self, name):
        return self.known.get(name, lin(0))

    def content(self, name):
        """An unknown object."""
        return RX.hole(('data', name, lin_of(sym(('len', name), 1, INF))))

    def obj(self, n, *body, gen=0):
        self.mark(n)
        return self.put(f'{n} {gen} obj\n', *body).put('\nendobj\n')

    def dic(self, n, name, rest='', gen=0):
        return self.obj(n, '<< /V ', self.content(name), f' {rest} >>', gen=gen)

    def stream(self, n, name, rest='', gen=0):
        x = self.content(name + 's')
        return self.obj(n, '<< /V ', self.content(name), f' {rest} /Length ', RX.part_len(x), ' >>\nstream\n', x, '\nendstream', gen=gen)

    def table(self, subs, trailer, end=True, start=None):
        """subs: [(first, [entry ...])], an entry (name of the position, generation) or None for a free one."""
        self.mark(start or 'xref').put('xref\n')
        for first, es in subs:
            self.put(f'{first} {len(es)}\n')
            for i, e in enumerate(es):
                if e is None:
                    g = 65535 if first + i == 0 else 1
                    self.lit(f'0000000000 {g:05d} f ')
                else:
                    p = self.at(e[0])
                    self.put(RX.hole((p, '010')) if p.terms else RX.lit(f'{p.c:010d}')).lit(f' {e[1]:05d} n ')
                self.cut()
        self.put('trailer\n<< ', *trailer).put(' >>\n')

    def lit(self, t):
        x = RX.lit(t)
        self.parts.append(x)
        self.pos = lin_add(self.pos, lin(len(t)))
        return self

    def cut(self):
        """End of an entry: two characters in all."""
        if self.eol == '\r\n':
            self.parts[-1] = RX.lit(self.parts[-1].args[:-1])
            self.pos = lin_add(self.pos, lin(-1))
            return self.lit('\r\n')
        return self.lit('\n')

    def xstream(self, n, index, rows, trailer, w=(1, 4, 2), start=None, flate=True, size=None):
        """rows: (1, position, generation), (2, envelope, index) or (0, next, generation)."""
        self.mark(n)
        self.mark(start or 'xref')
        xs = []
        for a, b, c in rows:
            if w[0]:
                xs.append(RX.lit(chr(a)))
            b = self.at(b) if isinstance(b, str) else b
            xs.append(RX.hole((b, 'be', lin(w[1]))) if isinstance(b, Lin) and b.terms else RX.lit((b.c if isinstance(b, Lin) else b).to_bytes(w[1], 'big').decode('latin-1')))
            if w[2]:
                xs.append(RX.lit(c.to_bytes(w[2], 'big').decode('latin-1')))
        x = RX.cat(*xs)
        ln = lin(sum(w) * len(rows))
        extra = ''
        if flate:
            ln = lin_of(sym(('len', f'enc{n}{len(rows)}'), 1, INF))
            x = RX.hole(('enc', 'deflate', ln, x))
            extra = '/Filter /FlateDecode '
        self.put(f'{n} 0 obj\n<< /Type /XRef {extra}/Length ', ln, f' /W [ {w[0]} {w[1]} {w[2]} ]' + (f' /Index [ {" ".join(map(str, index))} ]' if index else '') + ' ', *trailer)
        self.put(' >>\nstream\n')
        self.parts.append(x)
        self.pos = lin_add(self.pos, ln)
        return self.put('\nendstream\nendobj\n')

    def objstm(self, n, members, extends=None):
        """members: [(number, pieces)]."""
        self.mark(n)
        body, offs, at = [], [], lin(0)
        for num, ps in members:
            offs.append((num, at))
            for p in ps + [' ']:
                p = RX.lit(p) if isinstance(p, str) else p
                body.append(p)
                at = lin_add(at, RX.part_len(p))
        head, hl = [], lin(0)
        for num, o in offs:
            for p in (RX.lit(f'{num} '), RX.hole((o, '')) if o.terms else RX.lit(str(o.c)), RX.lit(' ')):
                head.append(p)
                hl = lin_add(hl, RX.part_len(p))
        ln = lin_of(sym(('len', f'objstm{n}'), 1, INF))
        x = RX.hole(('enc', 'deflate', ln, RX.cat(*head, *body)))
        self.put(f'{n} 0 obj\n<< /Type /ObjStm /Filter /FlateDecode /N {len(members)} /First ', hl, ' /Length ', ln, ' >>\nstream\n')
        self.parts.append(x)
        self.pos = lin_add(self.pos, ln)
        return self.put('\nendstream\nendobj\n')

    def end(self, start='xref', tail='\n'):
        p = self.at(start) if start else lin(0)
        self.put('startxref\n', p, '\n%%EOF' + tail)
        self.ends.append((self.pos, len(self.parts), p))
        return self


def build(s, layout, eol='\n'):
    """Text and positions: passes until the positions are stable."""
    known = {}
    for _ in range(6):
        t = FileText(s, known, eol)
        layout(t)
        if t.here == known:
            return t
        known = t.here
    raise Unresolved('the layout of the file')


CATALOG = '<< /Type /Catalog /Pages 2 0 R >>'
PAGES = '<< /Type /Pages /Kids [ 3 0 R ] /Count 1 >>'


def start(s, f, name, t, objects, trail, kind, xnum=None):
    """A case for the file; objects: number -> (Exp, generation)."""
    c = Case(s, f)
    c.hist = [name]
    for n, (e, g) in sorted(objects.items()):
        c.put(n, e, g)
    c.trail = trail
    c.xkind, c.xnum = kind, xnum
    c.texts = [RX.cat(*t.parts)]
    return c


def close(c, t, states, extra=0):
    """The file is loaded; states: per revision (objects, position names, envelopes)."""
    c.states = []
    for objs, pos, env in states:
        st = {n: e for n, (e, g) in objs.items()}
        c.states.append((st, {n: g for n, (e, g) in objs.items()}, {n: t.here[k] for n, k in pos.items()}, dict(env)))
    st, gens, at, env = c.states[-1]
    c.at, c.inenv = dict(at), dict(env)
    c.rev = 1
    c.prev = t.here.get('last', t.here.get('xref'))
    c.base = t.pos
    c.rev = len(states)
    c.texts_rev = c.rev - 1
    if len(t.ends) == len(states) or len(states) == 1:
        snaps(c, t)
    c.load()
    return c


def snaps(c, t):
    """What is known when each revision is open, to go back to it."""
    now = c.snap()
    for k, (st, gens, at, env) in enumerate(c.states):
        old = c.states[k - 1] if k else ({}, {}, {}, {})
        gone = {n for n in st if st[n] is None}
        ch = {n for n in st if n != c.xnum and (at.get(n), env.get(n)) != (old[2].get(n), old[3].get(n))}
        base, cut, section = t.ends[k - 1] if k else (lin(0), 0, None)
        opened = dict(now, rev=k, base=base, prev=section, texts=[RX.cat(*t.parts[:cut])] if k else [], texts_rev=max(k - 1, 0))
        closed = dict(now, state=dict(st), gens=dict(gens), at=dict(at), inenv=dict(env), ident={n: n for n in st}, size=max(st) + 1,
                      changed=ch, new_nums={n for n in ch if n not in old[0]})
        opened['xrefs'] = getattr(c, 'xrefs', {}).get(k, ())
        c.snaps.append((opened, closed))
    c.opened = dict(now, rev=len(c.states))


def plain_file(s, f, eol='\n', tail='\n', name='file'):
    """One table with several subsections, a free number, a generation."""
    def lay(t):
        t.put('%PDF-1.6\n%\u00e2\u00e3\n')
        t.obj(1, CATALOG)
        t.stream(5, 'v5', '/R 6 2 R')
        t.obj(2, PAGES)
        t.dic(3, 'v3', '/Parent 2 0 R /Contents 5 0 R')
        t.dic(6, 'v6', '/L [ 3 0 R ]', 2)
        t.table([(0, [None, (1, 0), (2, 0), (3, 0), None]), (5, [(5, 0)]), (6, [(6, 2)])], ['/Root 1 0 R /Size 7 /ID [ ', t.content('id1'), ' ', t.content('id2'), ' ]'])
        t.end(tail=tail)
    t = build(s, lay, eol)
    o = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2, ('/Contents',): 5}, False), 0),
         5: (Exp('v5', {('/R',): 6}, True), 0), 6: (Exp('v6', {('/L', 0): 3}, False), 2)}
    c = start(s, f, name, t, o, {'/Root': 1, '/ID': None}, 'table')
    return close(c, t, [(o, {n: n for n in o}, {})])


def updated_file(s, f):
    """Three revisions: an object is replaced, another added, replaced again."""
    def lay(t):
        t.put('%PDF-1.4\n')
        t.obj(1, CATALOG)
        t.obj(2, PAGES)
        t.dic(3, 'v3', '/Parent 2 0 R')
        t.here['a3'] = t.here.pop(3)
        t.dic(4, 'v4')
        t.here['a4'] = t.here.pop(4)
        t.table([(0, [None, (1, 0), (2, 0), ('a3', 0), ('a4', 0)])], ['/Root 1 0 R /Size 5'], start='x1')
        t.end('x1', '\n\n')
        t.dic(4, 'w4', '/R 5 0 R')
        t.here['b4'] = t.here.pop(4)
        t.dic(5, 'w5')
        t.here['b5'] = t.here.pop(5)
        t.table([(4, [('b4', 0), ('b5', 0)])], ['/Root 1 0 R /Size 6 /Prev ', t.at('x1')], start='x2')
        t.end('x2')
        t.stream(5, 'y5', '/R 4 0 R')
        t.here['c5'] = t.here.pop(5)
        t.dic(3, 'y3', '/Parent 2 0 R /Contents 5 0 R')
        t.here['c3'] = t.here.pop(3)
        t.table([(0, [None]), (3, [('c3', 0)]), (5, [('c5', 0)])], ['/Prev ', t.at('x2'), ' /Root 1 0 R /Size 6'], start='xref')
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0), 4: (Exp('v4', {}, False), 0)}
    b = dict(a)
    b[4] = (Exp('w4', {('/R',): 5}, False), 0)
    b[5] = (Exp('w5', {}, False), 0)
    d = dict(b)
    d[5] = (Exp('y5', {('/R',): 4}, True), 0)
    d[3] = (Exp('y3', {('/Parent',): 2, ('/Contents',): 5}, False), 0)
    c = start(s, f, 'updated-file', t, d, {'/Root': 1}, 'table')
    return close(c, t, [(a, {1: 1, 2: 2, 3: 'a3', 4: 'a4'}, {}), (b, {1: 1, 2: 2, 3: 'a3', 4: 'b4', 5: 'b5'}, {}), (d, {1: 1, 2: 2, 3: 'c3', 4: 'b4', 5: 'c5'}, {})])


def stream_file(s, f, w=(1, 4, 2), flate=True, listed=True, name='stream-file'):
    """Cross-reference streams in two revisions, object streams; the second replaces packed objects and one that is not."""
    def lay(t):
        t.put('%PDF-1.7\n')
        t.obj(1, CATALOG)
        t.stream(4, 'v4')
        t.objstm(7, [(2, [PAGES]), (3, ['<< /Parent 2 0 R /V ', t.content('v3'), ' >>']), (5, ['<< /V ', t.content('v5'), ' >>']), (6, ['<< /V ', t.content('v6'), '>>'])])
        rows = [(0, 0, 255), (1, 1, 0), (2, 7, 0), (2, 7, 1), (1, 4, 0), (2, 7, 2), (2, 7, 3), (1, 7, 0)] + ([(1, 'x1', 0)] if listed else [])
        rows = [(k, (t.at(n) if k == 1 else n), g) for k, n, g in rows]
        t.xstream(8, None, rows, [f'/Size {9 if listed else 8} /Root 1 0 R'], w, 'x1', flate)
        t.end('x1')
        t.objstm(9, [(5, ['<< /R 3 0 R /V ', t.content('w5'), ' >>']), (10, ['<< /V ', t.content('w10'), ' >>'])])
        t.dic(6, 'w6', '/R 10 0 R')
        rows = [(2, 9, 0), (1, 6, 0), (1, 'xref', 0), (1, 9, 0), (2, 9, 1)]
        rows = [(k, (t.at(n) if k == 1 else n), g) for k, n, g in rows]
        t.xstream(8, [5, 2, 8, 3], rows, ['/Size 11 /Root 1 0 R /Prev ', t.at('x1')], w, 'xref', flate)
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0), 4: (Exp('v4', {}, True), 0), 5: (Exp('v5', {}, False), 0),
         6: (Exp('v6', {}, False), 0), 7: (Exp(), 0), 8: (Exp(), 0)}
    b = dict(a)
    b[5] = (Exp('w5', {('/R',): 3}, False), 0)
    b[10] = (Exp('w10', {}, False), 0)
    b[6] = (Exp('w6', {('/R',): 10}, False), 0)
    b[9] = (Exp(), 0)
    c = start(s, f, name, t, b, {'/Root': 1}, 'stream', 8)
    return close(c, t, [(a, {1: 1, 4: 4, 7: 7, 8: 'x1'}, {2: 7, 3: 7, 5: 7, 6: 7}), (b, {1: 1, 4: 4, 7: 7, 8: 'xref', 6: 6, 9: 9}, {2: 7, 3: 7, 5: 9, 10: 9})])


def linear_file(s, f):
    """Linearized: the section at the start of the file is read first and belongs to the same revision as the one at the end."""
    def lay(t):
        t.put('%PDF-1.5\n')
        t.dic(4, 'v4', '/Linearized 1')
        t.table([(3, [(3, 0), (4, 0), (5, 0)])], ['/Size 6 /Root 5 0 R /Prev ', RX.hole((t.at('main'), '010'))], start='last')
        t.end(None)
        t.obj(5, '<< /Type /Catalog /Pages 1 0 R >>')
        t.dic(3, 'v3', '/Parent 1 0 R')
        t.obj(1, PAGES)
        t.stream(2, 'v2')
        t.table([(0, [None, (1, 0), (2, 0)])], ['/Size 3'], start='main')
        t.end('last')
    t = build(s, lay)
    o = {1: (Exp(None, {('/Kids', 0): 3}), 0), 2: (Exp('v2', {}, True), 0), 3: (Exp('v3', {('/Parent',): 1}, False), 0), 4: (Exp('v4', {}, False), 0), 5: (Exp(None, {('/Pages',): 1}), 0)}
    c = start(s, f, 'linear-file', t, o, {'/Root': 5}, 'table')
    return close(c, t, [(o, {n: n for n in o}, {})])


def hybrid_file(s, f):
    """A table and, for the objects hidden from old readers, a stream."""
    def lay(t):
        t.put('%PDF-1.5\n')
        t.obj(1, CATALOG)
        t.obj(2, PAGES)
        t.dic(3, 'v3', '/Parent 2 0 R')
        t.table([(0, [None, (1, 0), (2, 0), (3, 0)])], ['/Root 1 0 R /Size 4'], start='x1')
        t.end('x1')
        t.dic(4, 'v4')
        t.objstm(6, [(5, ['<< /V ', t.content('v5'), ' >>'])])
        t.xstream(7, [5, 3], [(2, 6, 0), (1, t.at(6), 0), (1, t.at(7), 0)], ['/Size 8'], start='hid')
        t.table([(4, [(4, 0), None, None, None])], ['/Root 1 0 R /Size 8 /XRefStm ', t.at('hid'), ' /Prev ', t.at('x1')], start='xref')
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0)}
    b = dict(a)
    b[4] = (Exp('v4', {}, False), 0)
    b[5] = (Exp('v5', {}, False), 0)
    b[6] = (Exp(), 0)
    b[7] = (Exp(), 0)
    c = start(s, f, 'hybrid-file', t, b, {'/Root': 1}, 'table')
    c.xrefs = {1: {7}}
    return close(c, t, [(a, {n: n for n in a}, {}), (b, {1: 1, 2: 2, 3: 3, 4: 4, 6: 6, 7: 7}, {5: 6})])


def narrow_file(s, f):
    """Cross-reference streams without type and generation fields, one per revision."""
    def lay(t):
        t.put('%PDF-1.5\n')
        t.obj(1, CATALOG)
        t.obj(2, PAGES)
        t.dic(3, 'v3', '/Parent 2 0 R')
        t.here['a3'] = t.here.pop(3)
        t.xstream(4, [1, 4], [(1, t.at(1), 0), (1, t.at(2), 0), (1, t.at('a3'), 0), (1, t.at('x1'), 0)], ['/Size 5 /Root 1 0 R'], (0, 3, 0), 'x1', False)
        t.end('x1')
        t.stream(6, 'v6', '/R 3 0 R')
        t.dic(3, 'w3', '/Parent 2 0 R')
        t.here['b3'] = t.here.pop(3)
        t.xstream(4, [3, 2, 6, 1], [(1, t.at('b3'), 0), (1, t.at('xref'), 0), (1, t.at(6), 0)], ['/Size 7 /Root 1 0 R /Prev ', t.at('x1')], (0, 4, 1), 'xref')
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0), 4: (Exp(), 0)}
    b = dict(a)
    b[3] = (Exp('w3', {('/Parent',): 2}, False), 0)
    b[6] = (Exp('v6', {('/R',): 3}, True), 0)
    c = start(s, f, 'narrow-file', t, b, {'/Root': 1}, 'stream', 4)
    return close(c, t, [(a, {1: 1, 2: 2, 3: 'a3', 4: 'x1'}, {}), (b, {1: 1, 2: 2, 3: 'b3', 4: 'xref', 6: 6}, {})])


def freed_file(s, f):
    """Tables: an object is deleted, then its number is used again with the next generation; another one stays deleted."""
    def lay(t):
        t.put('%PDF-1.3\n')
        t.obj(1, CATALOG)
        t.obj(2, PAGES)
        t.dic(3, 'v3', '/Parent 2 0 R')
        t.dic(4, 'v4')
        t.here['a4'] = t.here.pop(4)
        t.dic(5, 'v5', '/R 4 0 R')
        t.table([(0, [None, (1, 0), (2, 0), (3, 0), ('a4', 0), (5, 0)])], ['/Root 1 0 R /Size 6'], start='x1')
        t.end('x1')
        t.table([(0, [None]), (4, [None, None])], ['/Root 1 0 R /Size 6 /Prev ', t.at('x1')], start='x2')
        t.end('x2')
        t.dic(4, 'w4', '/R 3 0 R', 1)
        t.here['b4'] = t.here.pop(4)
        t.table([(4, [('b4', 1)])], ['/Root 1 0 R /Size 6 /Prev ', t.at('x2')], start='xref')
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0), 4: (Exp('v4', {}, False), 0), 5: (Exp('v5', {('/R',): 4}, False), 0)}
    b = dict(a)
    b[4], b[5] = (None, 0), (None, 0)
    d = dict(b)
    d[4] = (Exp('w4', {('/R',): 3}, False), 1)
    c = start(s, f, 'freed-file', t, d, {'/Root': 1}, 'table')
    return close(c, t, [(a, {1: 1, 2: 2, 3: 3, 4: 'a4', 5: 5}, {}), (b, {1: 1, 2: 2, 3: 3}, {}), (d, {1: 1, 2: 2, 3: 3, 4: 'b4'}, {})])


def freed_stream_file(s, f):
    """Cross-reference streams: a packed object and one that is not are deleted; a number is free from the start."""
    def lay(t):
        t.put('%PDF-1.6\n')
        t.obj(1, CATALOG)
        t.stream(4, 'v4')
        t.dic(6, 'v6')
        t.objstm(7, [(2, [PAGES]), (3, ['<< /Parent 2 0 R /V ', t.content('v3'), ' >>']), (5, ['<< /V ', t.content('v5'), ' >>'])])
        t.xstream(9, None, [(0, 8, 255), (1, t.at(1), 0), (2, 7, 0), (2, 7, 1), (1, t.at(4), 0), (2, 7, 2), (1, t.at(6), 0), (1, t.at(7), 0), (0, 0, 0), (1, t.at('x1'), 0)], ['/Size 10 /Root 1 0 R'], (1, 4, 1), 'x1')
        t.end('x1')
        t.dic(3, 'w3', '/Parent 2 0 R')
        t.dic(8, 'v8', '/R 3 0 R', 1)
        t.xstream(9, [0, 1, 3, 4, 8, 2], [(0, 5, 255), (1, t.at(3), 0), (0, 0, 1), (0, 4, 1), (1, t.at(6), 0), (1, t.at(8), 1), (1, t.at('xref'), 0)], ['/Size 10 /Root 1 0 R /Prev ', t.at('x1')], (1, 4, 1), 'xref')
        t.end('xref')
    t = build(s, lay)
    a = {1: (Exp(None, {('/Pages',): 2}), 0), 2: (Exp(None, {('/Kids', 0): 3}), 0), 3: (Exp('v3', {('/Parent',): 2}, False), 0), 4: (Exp('v4', {}, True), 0), 5: (Exp('v5', {}, False), 0),
         6: (Exp('v6', {}, False), 0), 7: (Exp(), 0), 9: (Exp(), 0)}
    b = dict(a)
    b[3] = (Exp('w3', {('/Parent',): 2}, False), 0)
    b[4], b[5] = (None, 0), (None, 0)
    b[8] = (Exp('v8', {('/R',): 3}, False), 1)
    c = start(s, f, 'freed-stream-file', t, b, {'/Root': 1}, 'stream', 9)
    return close(c, t, [(a, {1: 1, 4: 4, 6: 6, 7: 7, 9: 'x1'}, {2: 7, 3: 7, 5: 7}), (b, {1: 1, 6: 6, 7: 7, 8: 8, 9: 'xref', 3: 3}, {2: 7})])


FILES = {
    'file': plain_file,
    'file-crlf': lambda s, f: plain_file(s, f, '\r\n', '', 'file-crlf'),
    'file-tail': lambda s, f: plain_file(s, f, '\r\n', '\n\n', 'file-tail'),
    'updated': updated_file,
    'streams': stream_file,
    'streams-plain': lambda s, f: stream_file(s, f, (1, 3, 1), False, False, 'stream-file-plain'),
    'linear': linear_file,
    'hybridfile': hybrid_file,
    'narrow': narrow_file,
    'freed': freed_file,
    'freed-streams': freed_stream_file,
}
