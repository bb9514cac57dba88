"""Documents with known page trees (contents unknown) and operations on their pages, compared with an independent model of the page tree."""

import time

from .cases import *
from .histories import ent, trailer0
from .run import analyse

INHERIT = ('/Resources', '/MediaBox', '/CropBox', '/Rotate')


class PageClient(CaseClient):
    inline_rec = 48


class Mk(object):
    """An unknown piece of content, known by name."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Mk) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'<{self.name}>'


class St(object):
    """A stream."""

    def __init__(self, entries, content):
        self.entries, self.content = entries, content

    def __repr__(self):
        return f'stream {self.entries}'


def M(n):
    return Mk(n)


# ------------------------------------------------------------------ documents

def flat(x=''):
    """Three pages below the root: shared resources, direct and indirect arrays."""
    return {1: {'/Type': '/Catalog', '/Pages': 2j, '/V': M(x + 'cat')},
            2: {'/Type': '/Pages', '/Kids': [3j, 4j, 5j], '/Count': 3, '/MediaBox': [0, 0, 612, 792]},
            3: {'/Type': '/Page', '/Parent': 2j, '/Resources': 6j, '/Contents': 7j, '/E': 18j, '/V': M(x + 'p3')},
            4: {'/Type': '/Page', '/Parent': 2j, '/Resources': {'/Font': {'/F1': 8j}}, '/Contents': [9j, 10j], '/Rotate': 90, '/Annots': [11j], '/V': M(x + 'p4')},
            5: {'/Type': '/Page', '/Parent': 2j, '/Resources': 6j, '/Contents': 12j, '/E': [19j], '/MediaBox': [0, 0, 100, 200], '/Annots': 13j, '/Rotate': 270, '/V': M(x + 'p5')},
            6: {'/Font': {'/F1': 8j}, '/V': M(x + 'r6')}, 7: St({'/V': M(x + 's7')}, x + 'c7'), 8: {'/FontDescriptor': 15j, '/V': M(x + 'f8')},
            9: St({'/V': M(x + 's9')}, x + 'c9'), 10: St({'/V': M(x + 's10'), '/X': [16j]}, x + 'c10'), 11: {'/P': 4j, '/V': M(x + 'a11')},
            12: St({'/V': M(x + 's12')}, x + 'c12'), 13: [14j], 14: {'/P': 5j, '/A': {'/D': [3j, '/Fit']}, '/V': M(x + 'a14')}, 15: {'/V': M(x + 'd15')}, 16: {'/V': M(x + 'x16')}, 17: {'/V': M(x + 'i17')}, 18: {}, 19: []}


def nested(x=''):
    """Five pages at different depths; attributes inherited from every level, and overridden."""
    return {1: {'/Type': '/Catalog', '/Pages': 2j, '/V': M(x + 'cat')},
            2: {'/Type': '/Pages', '/Kids': [3j, 6j, 7j], '/Count': 5, '/MediaBox': [0, 0, 612, 792], '/Rotate': 180},
            3: {'/Type': '/Pages', '/Parent': 2j, '/Kids': [4j, 5j], '/Count': 2, '/Rotate': 90, '/Resources': 12j},
            4: {'/Type': '/Page', '/Parent': 3j, '/Resources': 13j, '/Contents': 14j, '/V': M(x + 'p4')},
            5: {'/Type': '/Page', '/Parent': 3j, '/Contents': 15j, '/Rotate': 0, '/V': M(x + 'p5')},
            6: {'/Type': '/Page', '/Parent': 2j, '/Rotate': 270, '/Resources': 12j, '/Contents': 14j, '/V': M(x + 'p6')},
            7: {'/Type': '/Pages', '/Parent': 2j, '/Kids': [8j], '/Count': 2, '/MediaBox': [0, 0, 10, 20], '/Resources': 16j},
            8: {'/Type': '/Pages', '/Parent': 7j, '/Kids': [9j, 10j], '/Count': 2, '/CropBox': [1, 1, 5, 5], '/Rotate': 0},
            9: {'/Type': '/Page', '/Parent': 8j, '/Contents': 17j, '/V': M(x + 'p9')},
            10: {'/Type': '/Page', '/Parent': 8j, '/MediaBox': [0, 0, 7, 7], '/Resources': {}, '/V': M(x + 'p10')},
            11: {'/V': M(x + 'i11')}, 12: {'/Font': {'/F1': 18j}, '/V': M(x + 'r12')}, 13: {'/Font': {'/F2': 19j}, '/V': M(x + 'r13')},
            14: St({'/V': M(x + 's14')}, x + 'c14'), 15: St({'/V': M(x + 's15')}, x + 'c15'), 16: {'/Font': {'/F3': 18j, '/F4': 20j}, '/V': M(x + 'r16')},
            17: St({'/V': M(x + 's17')}, x + 'c17'), 18: {'/V': M(x + 'f18')}, 19: {'/V': M(x + 'f19')}, 20: {'/V': M(x + 'f20')}}


def gens(x=''):
    """Objects with generations, references only through arrays of arrays, a chain of resources."""
    return {1: {'/Type': '/Catalog', '/Pages': 1 + 2j, '/V': M(x + 'cat')},
            2: {'/Type': '/Pages', '/Kids': [1 + 3j, 4j], '/Count': 2, '/CropBox': [1, 1, 9, 9], '/MediaBox': 2 + 5j},
            3: {'/Type': '/Page', '/Parent': 1 + 2j, '/Resources': {'/X': [[3 + 6j]]}, '/Rotate': 90, '/V': M(x + 'p3')},
            4: {'/Type': '/Page', '/Parent': 1 + 2j, '/Resources': {'/X': [[7j]]}, '/Contents': 1 + 8j, '/Rotate': 180, '/V': M(x + 'p4')},
            5: [0, 0, 612, 792], 6: {'/N': 7j, '/V': M(x + 'x6')}, 7: {'/V': M(x + 'x7')}, 8: St({'/F': 3 + 6j, '/V': M(x + 's8')}, x + 'c8')}


GENS = {2: 1, 3: 1, 5: 2, 6: 3, 8: 1}


def single(x=''):
    """One page, all attributes at the root."""
    return {1: {'/Type': '/Catalog', '/Pages': 3j, '/V': M(x + 'cat')}, 2: {'/Type': '/Page', '/Parent': 3j, '/Contents': 4j, '/V': M(x + 'p2')},
            3: {'/Type': '/Pages', '/Kids': [2j], '/Count': 1, '/MediaBox': [0, 0, 50, 60], '/Resources': 5j, '/Rotate': 90},
            4: St({'/V': M(x + 's4')}, x + 'c4'), 5: {'/Font': {'/F1': 6j}, '/V': M(x + 'r5')}, 6: {'/V': M(x + 'f6')}}


def indirect(x=''):
    """/Kids, /Count and inherited attributes given by reference; a free number."""
    return {1: {'/Type': '/Catalog', '/Pages': 2j, '/V': M(x + 'cat')},
            2: {'/Type': '/Pages', '/Kids': 3j, '/Count': 4j, '/MediaBox': 5j}, 3: [6j, 7j], 4: 3, 5: [0, 0, 30, 40],
            6: {'/Type': '/Page', '/Parent': 2j, '/Resources': {}, '/V': M(x + 'p6')}, 7: {'/Type': '/Pages', '/Parent': 2j, '/Kids': 9j, '/Count': 10j, '/Rotate': 12j},
            9: [11j, 13j], 10: 2, 11: {'/Type': '/Page', '/Parent': 7j, '/Resources': {}, '/V': M(x + 'p11')}, 12: 90,
            13: {'/Type': '/Page', '/Parent': 7j, '/Resources': {'/X': 14j}, '/V': M(x + 'p13')}, 14: {'/V': M(x + 'x14')}}


SPECS = {'flat': (flat, {}, 17), 'nested': (nested, {}, 11), 'gens': (gens, GENS, None), 'single': (single, {}, None), 'indirect': (indirect, {}, None)}


class PDoc(object):
    """A document of the model: objects by number, generations, trailer."""

    def __init__(self, objs, gens, info):
        self.objs, self.gens, self.info = objs, gens, info

    def copy(self):
        return PDoc(copy.deepcopy(self.objs), dict(self.gens), self.info)

    def at(self, ref):
        """Object a reference leads to (None: nothing there)."""
        if isinstance(ref, complex):
            n = int(ref.imag)
            return self.objs.get(n) if self.gens.get(n, 0) == int(ref.real) else None
        return ref

    def pages(self):
        """References of the pages in order, with the attributes each one has."""
        out, seen = [], set()

        def walk(ref, inh, parent):
            if ref in seen:
                raise Bad('order', 'twice', f'the node {int(ref.imag)} is in the page tree twice')
            seen.add(ref)
            o = self.at(ref)
            if not isinstance(o, dict):
                raise Bad('order', 'node', f'the page tree has the reference {show_ref(ref)} that leads to no page')
            if parent is not None and o.get('/Parent') != parent:
                raise Bad('order', 'parent', f'the /Parent of the node {int(ref.imag)} is not the node that lists it')
            inh = dict(inh)
            inh.update({k: o[k] for k in INHERIT if k in o})
            if o.get('/Type') == '/Page':
                out.append((ref, inh))
                return 1
            n = sum(walk(k, inh, ref) for k in self.at(o.get('/Kids')) or ())
            if self.at(o.get('/Count')) != n:
                raise Bad('count', 'count', f'the node {int(ref.imag)} has the count {self.at(o.get("/Count"))} and {n} pages')
            return n
        cat = self.at(self.root())
        if not isinstance(cat, dict) or '/Pages' not in cat:
            raise Bad('order', 'catalog', 'the catalog does not lead to the page tree')
        walk(cat['/Pages'], {}, None)
        return out

    def root(self):
        return complex(self.gens.get(1, 0), 1)

    def view(self):
        """The pages as a reader sees them: every page with its attributes, references followed; shared objects stay shared."""
        num, pos, out = {}, {}, []
        pl = self.pages()
        for i, (r, _) in enumerate(pl):
            pos[r] = i

        def unfold(x, keys=None):
            if isinstance(x, complex):
                if x in pos:
                    return ('page', pos[x])
                if x in num:
                    return ('again', num[x])
                o = self.at(x)
                if not isinstance(o, (dict, list, St)):
                    return o
                num[x] = len(num)
                if isinstance(o, dict) and o.get('/Type') == '/Page':
                    return 'a page that is not in the document'
                return ('object', unfold(o))
            if isinstance(x, dict):
                return {k: unfold(v) for k, v in sorted(x.items())}
            if isinstance(x, list):
                return [unfold(v) for v in x]
            if isinstance(x, St):
                return ('stream', unfold(x.entries), x.content)
            return x
        for r, inh in pl:
            o = dict(self.at(r))
            o.pop('/Parent', None)
            o.update(inh)
            out.append({k: unfold(v) for k, v in sorted(o.items())})
        return out

    def reach(self, refs):
        """Objects used by pages, their inherited attributes included."""
        seen = set()

        def go(x):
            if isinstance(x, complex):
                if x in seen:
                    return
                seen.add(x)
                go(self.at(x))
            elif isinstance(x, dict):
                for k, v in x.items():
                    if k not in ('/Parent', '/P'):
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
            elif isinstance(x, St):
                go(x.entries)
        for r, inh in refs:
            go(r)
            go(inh)
        return seen


class Bad(Exception):

    def __init__(self, aspect, key, msg):
        Exception.__init__(self, msg)
        self.aspect, self.key = aspect, key


def show_ref(r):
    return f'{int(r.imag)} {int(r.real)} R'


class Pages(object):
    """A document under evaluation and its model."""

    def __init__(self, s, f, what, kind='table', x=''):
        self.s, self.f = s, f
        spec, gens, info = SPECS[what]
        self.model = PDoc(spec(x), dict(gens), info)
        self.doc = self.build(kind, x)
        self.hist = [what + ('' if kind == 'table' else '-' + kind)]

    def raw(self, x):
        if isinstance(x, Mk):
            return self.s.piece(x.name)
        if isinstance(x, dict):
            return {k: self.raw(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.raw(v) for v in x]
        if isinstance(x, St):
            return self.s.item(self.s.op('objects.forge_stream', self.raw(x.entries), self.s.data(x.content)), 0)
        return x

    def build(self, kind, x):
        s, m = self.s, self.model
        n = max(m.objs) + 1
        p = [s.number(f'{x}p{i}', lo=10) for i in range(n + 6)]
        row = [trailer0(p + [p[0]] * 20, 'table' if kind == 'table' else 'stream')]
        cache = [{'/Root': m.root(), '/Size': n}]
        if m.info:
            cache[0]['/Info'] = complex(0, m.info)
        for i in range(1, n):
            row.append(ent(i, p[i], p[i + 1], m.gens.get(i, 0)) if i in m.objs else None)
            cache.append(self.raw(m.objs[i]) if i in m.objs else None)
        if kind != 'table':
            # a file with a cross-reference stream and an object stream
            row.append(ent(n, p[n], p[n + 1]))
            cache.append(self.raw(St({'/Type': '/XRef'}, x + 'xr')))
            row.append(ent(n + 1, p[n + 1], p[n + 2]))
            packed = [i for i in m.objs if m.gens.get(i, 0) == 0 and not isinstance(m.objs[i], St)]
            cache.append(self.raw(St({'/Type': '/ObjStm', '/N': len(packed), '/First': 4}, x + 'os')))
            for j, i in enumerate(packed):
                row[i] = ent(i, s.number(f'{x}q{i}', lo=10), p[n + 2], env_num=n + 1, o_pos=j)
            row[0]['xref_stream_num'] = n
            row[0]['xref_stream_pos'] = p[n]
            cache[0].update({'/Type': '/XRef', '/W': [1, 3, 2], '/Filter': '/FlateDecode', '/Size': n + 2})
        eof = s.number(x + 'eof1', lo=100)
        return s.loaded([row], cache, [eof])

    def name(self):
        return ' '.join(self.hist)

    # ---------------------------------------------------------------- reading back

    def decode(self, v, d=0):
        if v is None or len(v) != 1 or d > 12:
            raise Unresolved('an object with several possible values')
        a = next(iter(v))
        if isinstance(a, Ka):
            return a.v
        if isinstance(a, Tua):
            return tuple(self.decode(x, d + 1) for x in a.items)
        if isinstance(a, Ta):
            x = a.aux[1] if isinstance(a.aux, tuple) and len(a.aux) > 1 else None
            if x is not None and getattr(x, 'op', None) == 'hole' and isinstance(x.args, tuple) and x.args[0] == 'data':
                return Mk(x.args[1])
            if a.tn == 'int' and isinstance(a.aux, Lin):
                return a.aux.c if not a.aux.terms else Mk(str(a.aux))
            raise Unresolved('a value of unknown content')
        if isinstance(a, Pa):
            o = self.s.I.st.heap[a.loc]
            if o.kind == 'dict' and not o.other:
                r = {k: self.decode(x, d + 1) for k, x in o.fields.items() if x}
                if set(r) - o.must:
                    raise Unresolved('a dictionary with keys that may be missing')
                return r
            if o.exact is not None and o.kind == 'list':
                return [self.decode(x, d + 1) for x in o.exact]
            if o.kind == 'inst' and o.cls == 'Stream' and 'stream' in o.fields:
                e, x = self.decode(o.fields['entries'], d + 1), self.decode(o.fields['stream'], d + 1)
                e.pop('/Length', None)
                return St(e, x.name if isinstance(x, Mk) else x)
        raise Unresolved(f'an object of unknown structure ({a})')

    def actual(self, doc=None):
        """The model read back from the document through its public functions."""
        s = self.s
        doc = doc if doc is not None else self.doc
        refs = self.decode(s.op('docstruct.in_use', doc))
        m = PDoc({}, {}, None)
        for r in refs:
            m.objs[int(r.imag)] = self.decode(s.op('docstruct.get_object', doc, r))
            m.gens[int(r.imag)] = int(r.real)
        t = self.decode(s.op('docstruct.trailer', doc))
        m.trail = t
        return m

    def bad(self, aspect, key, msg):
        self.f.bad.append((aspect, key, f'{self.name()}: {msg}'))

    def compare(self, op, want, touched=None):
        """The document against the expected list of pages (views), and through the query functions."""
        f, s = self.f, self.s
        try:
            m = self.actual()
            if m.trail.get('/Root') != m.root():
                raise Bad('order', 'root', 'the trailer does not lead to the catalog')
            v = m.view()
            pl = m.pages()
        except Bad as e:
            self.bad(e.aspect, f'{op}:{e.key}', str(e))
            return None
        f.n += len(want) + 4
        if len(v) != len(want):
            self.bad('order', f'{op}:number', f'{len(v)} pages instead of {len(want)}')
        else:
            for i, (a, b) in enumerate(zip(v, want)):
                for k in sorted(set(a) | set(b)):
                    if a.get(k) != b.get(k):
                        self.bad('order' if k == '/V' else 'attrs', f'{op}:{k}', f'page {i} has {k} {brief(a.get(k))} instead of {brief(b.get(k))}')
        self.m, self.pl = m, pl
        self.queries(op, m, pl)
        return m

    def queries(self, op, m, pl):
        """What the query functions say about the page tree."""
        f, s = self.f, self.s
        f.n += 4
        n = self.decode(s.op('docstruct.number_pages', self.doc))
        if n != len(pl):
            self.bad('query', 'number_pages', f'number_pages gives {n} for {len(pl)} pages')
        fl = self.decode(s.op('docstruct.flat_page_tree', self.doc))
        if [x[0] for x in fl] != [r for r, _ in pl]:
            self.bad('query', 'flat_page_tree', f'flat_page_tree gives {[show_ref(x[0]) for x in fl if isinstance(x[0], complex)]} for {[show_ref(r) for r, _ in pl]}')
        got = self.decode(s.op('docstruct.pages', self.doc))
        want = []
        for r, inh in pl:
            o = dict(m.at(r))
            o.update(inh)
            want.append(o)
        if len(got) != len(want):
            self.bad('query', 'pages', f'pages gives {len(got)} pages instead of {len(want)}')
        for i, (a, b) in enumerate(zip(got, want)):
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k):
                    self.bad('query', f'pages:{k}', f'pages gives {k} {brief(a.get(k))} instead of {brief(b.get(k))} for page {i}')

        lay = self.decode(s.op('api.page_layouts', self.doc))
        for i, (r, inh) in enumerate(pl):
            o = dict(inh)
            w = (m.at(o.get('/MediaBox')), m.at(o.get('/Rotate')))
            if i < len(lay) and lay[i] != w:
                self.bad('query', 'page_layouts', f'page_layouts gives {lay[i]} instead of {w} for page {i}')
        if op == 'look':
            for k in range(1, len(pl) + 1):
                f.n += 1
                fl = self.decode(s.op('docstruct.flat_page_tree', self.doc, **{'max_nb': k}))
                if [x[0] for x in fl] != [r for r, _ in pl][:k]:
                    self.bad('query', 'max_nb', f'flat_page_tree gives {len(fl)} pages when at most {k} of {len(pl)} are asked for')

    # ---------------------------------------------------------------- operations

    def remove(self, which, op='docstruct.remove_pages', arg=None):
        m = self.model
        arg = arg if arg is not None else set(which)
        self.hist.append(f'{op.split(".")[-1]}({arg})')
        self.doc = self.s.op(op, self.doc, arg)
        self.removed(set(range(len(m.pages()))) - set(which), op)

    def removed(self, kept, op):
        """The document has to hold only these pages of the model."""
        m = self.model
        pl = m.pages()
        which = set(range(len(pl))) - kept
        gone = [p for i, p in enumerate(pl) if i in which]
        stay = [p for i, p in enumerate(pl) if i not in which]
        # the view of the pages that stay, as if the others had not been there
        ref = m.copy()
        cut(ref, {r for r, _ in gone})
        want = ref.view()
        keep = m.reach(stay)
        drop = m.reach([(r, {}) for r, _ in gone]) - keep
        nodes = m.reach([(0, o[k]) for o in m.objs.values() if isinstance(o, dict) and o.get('/Type') == '/Pages' for k in INHERIT if k in o])
        got = self.compare(op.split('.')[-1], want)
        if got is None:
            return
        for n, o in m.objs.items():
            r = complex(m.gens.get(n, 0), n)
            self.f.n += 1
            if r in keep and n not in got.objs:
                self.bad('kept', f'{op}:used', f'object {n} is deleted though a remaining page uses it')
            elif r in drop - nodes and n in got.objs:
                self.bad('freed', f'{op}:left', f'object {n} is kept though only a removed page uses it')
            elif r not in drop and n not in got.objs:
                self.bad('kept', f'{op}:other', f'object {n} is deleted though no removed page uses it')
            elif n in got.objs and not same(got.objs[n], o) and not (isinstance(o, dict) and (o.get('/Type') == '/Pages')) and not any(isinstance(q, dict) and q.get('/Kids') == r or isinstance(q, dict) and q.get('/Count') == r for q in m.objs.values()):
                self.bad('kept', f'{op}:changed', f'object {n} is changed though it is no node of the page tree')
        self.model = got

    def nth(self, i):
        """Page i of the iteration over the document; nothing comes after the last one."""
        s, n = self.s, len(self.model.pages())
        it = s.op('docstruct.Doc.__iter__', self.doc)
        doc = self.doc
        got = [s.call('docstruct.DocIterator.__next__', it) for _ in range(n + 1)]
        self.f.ok('order', '__iter__:end', got[n] is None and None not in got[:n], f'{self.name()}: the iteration does not give {n} pages')
        if got[i] is None:
            return
        one = Pages.__new__(Pages)
        one.s, one.f, one.model, one.doc, one.hist = s, self.f, self.model, got[i], self.hist + ['iteration']
        one.removed({i}, '__iter__')

    def rotate(self, degrees, which=None):
        m = self.model
        n = len(m.pages())
        self.hist.append(f'rotate({degrees}{"" if which is None else f", {which}"})')
        want = m.view()
        for i in range(n):
            if which is None or i in which:
                old = m.at(m.pages()[i][1].get('/Rotate')) or 0
                want[i]['/Rotate'] = (old + degrees) % 360
        args = [degrees] if which is None else [degrees, list(which)]
        self.doc = self.s.op('api.rotate', self.doc, *args)
        got = self.compare('rotate', want)
        if got is None:
            return
        for i, o in m.objs.items():
            self.f.n += 1
            if i not in got.objs or not same(without(got.objs[i], '/Rotate'), without(o, '/Rotate')):
                self.bad('attrs', 'rotate:other', f'object {i} is changed, not only the /Rotate of a page')
        if '-stream' not in self.hist[0] and set(got.objs) - set(m.objs):
            self.bad('attrs', 'rotate:new', f'objects {sorted(set(got.objs) - set(m.objs))} are added')
        self.model = got

    def annotate(self, page, text, rect, opened):
        m = self.model
        self.hist.append(f'add_text_annotation({page})')
        pl = m.pages()
        new = max(m.objs) + 1
        before = m.view()
        self.doc = self.s.op('api.add_text_annotation', self.doc, page, text, rect, opened)
        ref = pl[page % len(pl)][0]
        try:
            got = self.actual()
            v = got.view()
        except Bad as e:
            self.bad(e.aspect, f'add_text_annotation:{e.key}', str(e))
            return
        self.f.n += len(v) + 3
        if len(v) != len(before):
            self.bad('order', 'add_text_annotation:number', 'the number of pages changes')
            return
        for i, (a, b) in enumerate(zip(v, before)):
            for k in sorted(set(a) | set(b)):
                if a.get(k) != b.get(k) and not (i == page % len(pl) and k == '/Annots'):
                    if not (k == '/Annots' and strip_again(a.get(k)) == strip_again(b.get(k))) and strip_again(a.get(k)) != strip_again(b.get(k)):
                        self.bad('attrs', f'add_text_annotation:{k}', f'page {i} has {k} {brief(a.get(k))} instead of {brief(b.get(k))}')
        for n, o in m.objs.items():
            self.f.n += 1
            if complex(m.gens.get(n, 0), n) != m.at(ref).get('/Annots') and (n not in got.objs or not same(without(got.objs[n], '/Annots'), without(o, '/Annots'))):
                self.bad('annots', 'add_text_annotation:other', f'object {n} is changed, not only the /Annots of the page')
        old = m.at(m.at(ref).get('/Annots')) or []
        now = got.at(got.at(ref).get('/Annots'))
        if not isinstance(now, list) or now[:-1] != old or len(now) != len(old) + 1:
            self.bad('annots', 'add_text_annotation:array', f'the /Annots of page {page} are {brief(now)}, they were {brief(old)}')
        else:
            a = got.at(now[-1])
            if not isinstance(now[-1], complex) or not isinstance(a, dict) or now[-1] in (complex(m.gens.get(n, 0), n) for n in m.objs):
                self.bad('annots', 'add_text_annotation:new', f'the annotation of page {page} is not a new object')
            else:
                want = {'/Subtype': '/Text', '/Rect': rect, '/Open': opened}
                for k in want:
                    if a.get(k) != want[k] or type(a.get(k)) != type(want[k]):
                        self.bad('annots', f'add_text_annotation:{k}', f'the annotation has {k} {brief(a.get(k))} instead of {want[k]}')
                t = a.get('/Contents')
                if not isinstance(t, (bytes, str)) or pdf_text(t) != text:
                    self.bad('annots', 'add_text_annotation:/Contents', f'the annotation has the text {t!r} instead of {text!r}')
        self.model = got

    def concat(self, other, left=True, op='docstruct.concat'):
        self.hist.append(f'{op.split(".")[-1]}({other.name()}{"" if left else ", target right"})')
        a, b = self.model.view(), other.model.view()
        shift = lambda x, d, p: [offset(y, d, p) for y in x]
        self.doc = self.s.op(op, self.doc, other.doc, **({} if left else {'target_left': False}))
        want = a + shift(b, count_objects(a), len(a))
        got = self.compare('concat', want)
        if got is None:
            return
        cats = [n for n, o in got.objs.items() if isinstance(o, dict) and o.get('/Type') == '/Catalog']
        if len(cats) != 1:
            self.bad('kept', 'concat:catalog', f'the result has {len(cats)} catalogs (objects {sorted(cats)})')
        # every object of the document that is updated stays; the objects of the other are added
        base = (self if left else other).model
        for n, o in base.objs.items():
            self.f.n += 1
            if n not in got.objs or not same(got.objs[n], o) and not (isinstance(o, dict) and o.get('/Type') in ('/Pages', '/Page')):
                self.bad('kept', 'concat:changed', f'object {n} of the document that is updated is changed')
        self.model = got

    def commit(self):
        self.hist.append('commit')
        before = self.model
        self.doc = self.s.op('docstruct.commit', self.doc)
        got = self.actual()
        for n in sorted(set(before.objs) | set(got.objs)):
            if not same(before.objs.get(n), got.objs.get(n)):
                self.bad('kept', 'commit', f'object {n} is different after commit')
        self.model = got


def offset(x, d, p):
    """The view of pages that come after d objects and p pages."""
    if isinstance(x, tuple) and x and x[0] in ('page', 'again'):
        return (x[0], x[1] + (p if x[0] == 'page' else d))
    if isinstance(x, tuple):
        return tuple(offset(y, d, p) for y in x)
    if isinstance(x, list):
        return [offset(y, d, p) for y in x]
    if isinstance(x, dict):
        return {k: offset(v, d, p) for k, v in x.items()}
    return x


def count_objects(x):
    if isinstance(x, tuple):
        return (x[:1] == ('object',)) + sum(count_objects(y) for y in x)
    if isinstance(x, list):
        return sum(count_objects(y) for y in x)
    if isinstance(x, dict):
        return sum(count_objects(v) for v in x.values())
    return 0


def strip_again(x):
    """The view without the numbers given to shared objects."""
    if isinstance(x, tuple) and x and x[0] == 'again':
        return 'again'
    if isinstance(x, tuple):
        return tuple(strip_again(y) for y in x)
    if isinstance(x, list):
        return [strip_again(y) for y in x]
    if isinstance(x, dict):
        return {k: strip_again(v) for k, v in x.items()}
    return x


def without(o, key):
    """A page without one of its entries; any other object as it is."""
    return {k: v for k, v in o.items() if k != key} if isinstance(o, dict) and o.get('/Type') == '/Page' else o


def same(a, b):
    if isinstance(a, St) and isinstance(b, St):
        return a.entries == b.entries and a.content == b.content
    return type(a) == type(b) and a == b


def cut(m, refs):
    """Take pages out of the tree of the model."""
    for o in m.objs.values():
        if isinstance(o, dict) and o.get('/Type') == '/Pages':
            o['/Kids'] = [k for k in m.at(o['/Kids']) if k not in refs]

    def count(ref):
        o = m.at(ref)
        if o['/Type'] == '/Page':
            return 1
        o['/Count'] = sum(count(k) for k in o['/Kids'])
        return o['/Count']
    count(m.at(m.root())['/Pages'])


def brief(x):
    t = str(x)
    return t if len(t) < 120 else t[:117] + '...'


def pdf_text(b):
    """Text of a string object in its written form."""
    if isinstance(b, str):
        if not b.isascii():
            return None
        b = b.encode()
    if b.startswith(b'<') and b.endswith(b'>'):
        try:
            h = bytes.fromhex(b[1:-1].decode())
        except ValueError:
            return None
        return h[2:].decode('utf-16-be', 'replace') if h.startswith(b'\xfe\xff') else h.decode('latin-1')
    if not b.startswith(b'(') or not b.endswith(b')'):
        return None
    b = b[1:-1]
    out, i = bytearray(), 0
    while i < len(b):
        if b[i:i + 1] == b'\\':
            i += 1
            c = b[i:i + 1]
            if c in b'nrtbf' and c:
                out += {b'n': b'\n', b'r': b'\r', b't': b'\t', b'b': b'\b', b'f': b'\f'}[c]
            elif c.isdigit():
                j = i
                while j < len(b) and j < i + 3 and b[j:j + 1] in b'01234567':
                    j += 1
                out.append(int(b[i:j], 8) & 255)
                i = j - 1
            else:
                out += c
        elif b[i:i + 1] == b'\r':
            out += b'\n'
            i += b[i + 1:i + 2] == b'\n'
        else:
            out += b[i:i + 1]
        i += 1
    if out.startswith(b'\xfe\xff'):
        return bytes(out[2:]).decode('utf-16-be', 'replace')
    return bytes(out).decode('latin-1')


# ------------------------------------------------------------------ checks

def run(p, fn):
    """Evaluate one history given as a function of (session, findings); returns (name, findings, unresolved reason or None)."""
    c = PageClient()
    f = Findings()
    s = new_session(p, c)
    s.I.deadline = time.time() + 200
    why = None
    box = ['?']
    try:
        fn(s, f, box)
    except Failed as e:
        f.bad.append(('fails', str(e), f'{box[0]()}: {e} has no result'))
    except Bad as e:
        f.bad.append(('fails', 'page tree', f'{box[0]()}: {e}'))
    except (Unresolved, AnalysisBroken) as e:
        why = str(e)
    return (box[0]() if callable(box[0]) else '?'), f, why


def play(s, f, box, script):
    """A script: the document, then operations."""
    words = script.split()
    what, _, kind = words[0].partition('-')
    d = Pages(s, f, what, kind or 'table')
    box[0] = d.name
    for w in words[1:]:
        op, _, arg = w.partition(':')
        if op in ('remove', 'keep', 'get', 'cut'):
            n = len(d.model.pages())
            idx = [int(x) for x in arg.split(',') if x] if op != 'get' else []
            if op == 'remove':
                d.remove(set(idx), arg=idx[0] if ',' not in arg else set(idx))
            else:
                if op == 'get':
                    if '/' in arg:
                        sl = slice(*[int(x) if x else None for x in arg.split('/')])
                        idx, a = list(range(*sl.indices(n))), sl
                    else:
                        idx, a = [int(arg) % n], int(arg)
                    d.remove(set(range(n)) - set(idx), 'docstruct.Doc.__getitem__', a)
                else:
                    d.remove(set(range(n)) - set(idx), 'docstruct.keep_pages', idx[0] if ',' not in arg else set(idx))
        elif op == 'iter':
            d.nth(int(arg))
        elif op == 'rotate':
            a, _, w2 = arg.partition('@')
            d.rotate(int(a), [int(x) for x in w2.split(',')] if w2 else None)
        elif op == 'note':
            pg, _, t = arg.partition('=')
            d.annotate(int(pg), TEXTS[int(t or 0)], [1, 2, 30, 40.5], len(t) % 2 == 1)
        elif op in ('concat', 'before', 'plus'):
            o = d if arg == 'self' else Pages(s, f, arg.partition('-')[0], arg.partition('-')[2] or 'table', 'z')
            d.concat(o, op != 'before', 'docstruct.Doc.__add__' if op == 'plus' else 'docstruct.concat')
        elif op == 'commit':
            d.commit()
        elif op == 'look':
            d.compare('look', d.model.view())


TEXTS = ['abc', 'a(b)c\\d', 'un \u00e9t\u00e9 \u20ac', '\u4e2d\u6587 (x', '', 'line\nnext']


def page_job(a):
    items, select = a
    p = Program()
    res = {'viol': {}, 'counts': {'histories': 0, 'facts': 0, 'histories_not_resolved': 0}, 'lists': {'not_resolved': []}, 'notes': []}
    fns = {q: n for m, q, n in p.functions()}
    for script in items:
        n, f, why = run(p, lambda s, g, box: play(s, g, box, script))
        res['counts']['histories'] += 1
        res['counts']['facts'] += f.n
        if why:
            res['counts']['histories_not_resolved'] += 1
            if len(res['lists']['not_resolved']) < 3:
                res['lists']['not_resolved'].append(f'{n}: {why[:160]}')
        for aspect, key, msg in f.bad:
            q = key.split(':')[0].split('.', 1)[-1]
            if aspect == 'fails' or (aspect == 'query') == (select == 'query') and (select == 'query' or q in select):
                at = f' [{where(fns[q])} {q}]' if q in fns else ''
                res['viol'].setdefault(f'{aspect}:{key}', msg + at)
    return res




def check_pages(ctx, items, select, anchors):
    """select: the operations a property is about, or 'query'."""
    names = {q for _, q, _ in ctx.program.functions()}
    for q in anchors:
        ctx.anchor(q in names, q)
    items = sorted(set(items))
    k = max(1, len(items) // 5)
    analyse(ctx, page_job, [(items[i::k], select) for i in range(k)])
    ctx.count('histories_selected', len(items))


def subsets(n):
    return [[i for i in range(n) if b >> i & 1] for b in range(1 << n)]


PAGES = {'flat': 3, 'nested': 5, 'gens': 2, 'single': 1, 'indirect': 3}


def removals(deep=False):
    """Every choice of pages in every tree, and sequences of removals."""
    out = []
    for d, n in PAGES.items():
        for xs in subsets(n):
            a = ','.join(map(str, xs)) + ','
            if xs:
                out.append(f'{d} remove:{a}')
                out.append(f'{d} keep:{a}')
        for i in range(n):
            out += [f'{d} remove:{i}', f'{d} keep:{i}', f'{d} get:{i}', f'{d} get:{i - n}', f'{d} iter:{i}', f'{d} get:{i}/', f'{d} get:/{i + 1}', f'{d} get:{i}/{i + 2}']
        if n > 1:
            out += [f'{d} get://2', f'{d} get:-1/', f'{d} remove:0 remove:0', f'{d} remove:{n - 1} remove:0', f'{d} remove:0 commit', f'{d} keep:1 commit', f'{d} rotate:90@0 remove:1', f'{d} remove:0 commit keep:0']
        if n > 2:
            out += [f'{d} remove:1 remove:1 commit', f'{d} keep:0,2, keep:1', f'{d} remove:0 commit remove:1 commit', f'{d} remove:2 rotate:90 remove:0']
    for d in ('flat', 'nested'):
        out += [f'{d}-stream remove:0', f'{d}-stream remove:1,2,', f'{d}-stream keep:2', f'{d} concat:nested remove:1,3,6,', f'{d} concat:flat keep:{PAGES[d]},{PAGES[d] + 2},', f'{d} note:0=2 remove:1', f'{d} note:0=2 remove:0']
    return out


def joins(deep=False):
    out = []
    for a in PAGES:
        for b in PAGES:
            out += [f'{a} concat:{b}', f'{a} before:{b}']
        out += [f'{a} plus:flat', f'{a} concat:nested-stream', f'{a}-stream concat:gens', f'{a}-stream before:flat-stream', f'{a} concat:self', f'{a} concat:single concat:flat', f'{a} before:single before:gens', f'{a} concat:nested commit']
    return out


def rotations(deep=False):
    out = []
    for d, n in PAGES.items():
        out += [f'{d} rotate:{k}' for k in (90, 180, 270, 360, 0, -90, 450)]
        for xs in subsets(n):
            if xs:
                out.append(f'{d} rotate:{90 * (1 + len(xs) % 3)}@{",".join(map(str, xs))}')
        out += [f'{d} rotate:90 rotate:90', f'{d} rotate:270@0 rotate:180', f'{d} rotate:90 commit rotate:-180', f'{d}-stream rotate:90']
    out += ['flat remove:0 rotate:90@1', 'nested remove:0,3, rotate:180', 'flat concat:nested rotate:90@4,5', 'gens rotate:180@1 concat:single rotate:90']
    return out


def notes(deep=False):
    out = []
    for d, n in PAGES.items():
        for i in range(n):
            for k in range(len(TEXTS)):
                out.append(f'{d} note:{i}={k}')
        out += [f'{d} note:0=1 note:0=2', f'{d} note:{n - 1}=0 commit note:{n - 1}=3', f'{d} note:{n - 1}=0 note:0=3 commit', f'{d}-stream note:0']
    out += ['flat remove:0 note:1', 'nested note:2=1 rotate:90 note:2=2', 'flat concat:nested note:5=2']
    return out


def looks(deep=False):
    out = [f'{d}{k} look' for d in PAGES for k in ('', '-stream')]
    out += ['flat remove:1 look', 'nested remove:1,3, look', 'flat concat:nested look', 'nested before:indirect look', 'gens rotate:90@0 look', 'nested keep:2 commit look', 'indirect remove:1 look', 'flat note:0 look']
    return out
