"""Partly known documents and histories of operations, evaluated abstractly: the contents of the objects are unknown pieces of text."""

import copy
import re

from .session import *
from .pdfshape import *
from . import lexer


class CaseClient(SumClient):
    unroll = 64
    inline_rec = 12
    lin_holes = True
    exact_exc = True
    CODECS = {'zlib.compress': 'deflate', 'binascii.hexlify': 'hex', 'binascii.b2a_hex': 'hex', 'base64.a85encode': 'to85', 'base64.b16encode': 'hex'}
    DECODERS = {'zlib.decompress': 'deflate', 'binascii.unhexlify': 'hex', 'binascii.a2b_hex': 'hex', 'base64.a85decode': 'to85', 'base64.b16decode': 'hex'}

    def __init__(self):
        SumClient.__init__(self)
        self.written = []

    def on_call(self, I, fn, args, kwargs, node):
        r = SumClient.on_call(self, I, fn, args, kwargs, node)
        return r if r is not None else lexer.on_call(I, fn, args, kwargs, node)

    def find_text(self, I, a, args, last):
        return lexer.find_text(I, a, args, last)

    def text_int(self, I, a):
        return lexer.text_int(I, a)

    def text_bytes_int(self, I, a, order):
        return lexer.text_bytes_int(I, a, order)

    def text_strip(self, I, a, name, args, node):
        return lexer.text_strip(I, a, name, args, node)

    def text_digit(self, I, a):
        return lexer.text_digit(I, a)

    def on_file(self, I, a, o, name, args, node):
        if name == 'write' and args:
            self.written.append(args[0])
        return None

    def on_ext(self, I, name, args, kwargs, node):
        if name in ('sys.stdout.buffer.write', 'sys.stdout.write') and args:
            self.written.append(args[0])
        if name in self.CODECS and not I.base_alloc and args and len(args[0]) == 1:
            a = next(iter(args[0]))
            x = RX.lit(a.v) if isinstance(a, Ka) and a.tn in ('bytes', 'bytearray') else a.aux[1] if isinstance(a, Ta) and a.aux is not None else None
            if x is not None:
                f = self.CODECS[name]
                ln = lin_of(sym(('len', f, x), 1 if f == 'deflate' else 0, INF))
                return V(T('bytes', NOLB, (ln, RX.hole(('enc', f, ln, x)), None)))
        if name in self.DECODERS and not I.base_alloc and args and len(args[0]) == 1:
            a = next(iter(args[0]))
            x = a.aux[1] if isinstance(a, Ta) and a.aux is not None else None
            if x is not None and x.op == 'hole' and isinstance(x.args, tuple) and x.args[0] == 'enc' and x.args[1] == self.DECODERS[name]:
                return V(lexer.whole(x.args[3]))
        return None


def new_session(p, c):
    return DocSession(p, c, numeric=True, shapes=True)


class Failed(Exception):
    """An operation has no returning path."""


class DocSession(Session):

    def __init__(self, *a, **k):
        Session.__init__(self, *a, **k)
        self.log = []

    def op(self, name, *args, **kw):
        """Result of an operation that must return."""
        self.log.append(name.split('.')[-1])
        v = self.call(name, *args, **kw)
        if v is None:
            raise Failed(name)
        return v

    def make(self, name, *args):
        """Instance of a class of the package (its constructor called on partly known values)."""
        m, q = name.split('.')
        v = self.program.modules['pdfsyntax.' + m].ns[q]
        self.n += 1
        self.I.fi.ctx = 1000000 + self.n
        r = self.I.call_value(v, [lift(self.I, a) for a in args], {}, self.I.fi.node)
        self.I.push(r)
        return r

    def piece(self, name, tn='bytes'):
        """A PDF object as an unknown piece of syntax."""
        return self.data(name, tn, lo=1)

    def body(self, v):
        """Text view of bytes; Unresolved when there are several possibilities."""
        if v is None or len(v) != 1:
            raise Unresolved('bytes with several possible shapes')
        return Text(next(iter(v)))

    # ------------------------------------------------------------ documents

    def loaded(self, index, cache, eofs, ver='1.7'):
        """A document as it is after loading a file with the given history."""
        head = f'%PDF-{ver}\n'
        cut = self.I.int_lin(eofs[-1])
        tail = lin_of(sym(('len', 'tail'), 0, INF))
        body = lin_add(cut, lin(-len(head)))
        f = V(T('bytes', NOLB, (lin_add(cut, tail), RX.cat(RX.lit(head), RX.hole(('data', 'file', body)), RX.hole(('data', 'tail', tail))), None)))
        prov = self.op('filestruct.bdata_provider', f)
        self.log.pop()
        data = [{'eof_cut': e, 'fdata': prov} for e in eofs]
        doc = self.make('docstruct.Doc', index, cache, data)
        doc = self.op('docstruct.commit', doc)
        self.log = []
        return doc

    def index_of(self, doc, rev=-1):
        return self.get(doc, 0, rev)

    def length(self, v):
        o = self.obj(v)
        return len(o.exact) if o is not None and o.exact is not None else None

    def text_of(self, doc, rev):
        """Bytes of a revision that has been committed."""
        return self.body(self.get(doc, 2, rev, 'bdata'))


# ---------------------------------------------------------------- reading back what was saved

def marker(v):
    """Name of the unknown piece that identifies an object read from the text."""
    if isinstance(v, Strm):
        return marker(v.entries)
    if isinstance(v, dict):
        x = v.get('/V')
        return x.name if isinstance(x, Hole) else None
    return None


class Findings(object):
    """What is wrong, sorted by aspect; unresolved facts apart."""

    def __init__(self):
        self.bad = []       # (aspect, key, message)
        self.notes = []
        self.n = 0

    def eq(self, aspect, key, got, want, msg):
        """got and want are affine forms that have to be equal."""
        self.n += 1
        if got is want:
            return True
        if not isinstance(got, Lin) or not isinstance(want, Lin):
            if got is None or want is None:
                self.notes.append(f'{key}: not resolved')
                return False
            self.bad.append((aspect, key, msg))
            return False
        d = lin_sub(got, want)
        if not d.terms and d.c == 0:
            return True
        if decided(lin_sub(got, want)):
            self.bad.append((aspect, key, f'{msg} (off by {lin_sub(got, want)})'))
        else:
            self.notes.append(f'{key}: not resolved')
        return False

    def ok(self, aspect, key, cond, msg):
        self.n += 1
        if not cond:
            self.bad.append((aspect, key, msg))
        return cond


class Exp(object):
    """What an object is expected to hold: its marker (None: not looked at), the objects its references lead to."""

    def __init__(self, mark=None, refs=(), stream=None):
        self.mark, self.refs, self.stream = mark, dict(refs), stream


class Case(object):
    """A document, the expected current state of its objects, and the operations applied so far."""

    def __init__(self, s, f):
        self.s, self.f = s, f
        self.doc = None
        self.state = {}         # number -> Exp of the current content (None: deleted)
        self.ident = {}         # number -> identity of the object (kept when it is renumbered)
        self.gens = {}
        self.changed = set()    # numbers changed since the last commit
        self.at = {}            # number -> (position, revision) of the object in the text
        self.inenv = {}         # number -> (object stream, revision)
        self.states = []        # state after each revision written here
        self.base = lin(0)      # position where the next revision is appended
        self.rev = 0            # index of the revision that is open
        self.size = 1
        self.prev = None        # position of the last cross-reference section
        self.k = 0
        self.hist = []
        self.xkind = 'table'
        self.xnum = None        # number of the cross-reference stream
        self.trail = {'/Root': None}
        self.past = set()       # markers of earlier contents
        self.texts = []
        self.vague = False      # has a revision been written whose text is not fully known?
        self.snaps = []         # per revision: what was known when it was opened and when it was closed
        self.opened = None
        self.texts_rev = 0      # revisions in the first text, less one
        self.packed = {}        # objects of the loaded file that are in an object stream -> its number
        self.free_loaded = set()    # numbers that are free in the loaded file
        self.new_nums = set()       # numbers added since the last commit
        self.kept_grouped = set()   # members not replaced since
        self.grouped = None         # (number, members) of the object stream that has been asked for

    def name(self):
        return ' '.join(self.hist)

    def fresh(self):
        self.k += 1
        return f'c{self.k}'

    def put(self, n, e, gen=0, ident=None):
        """Declare object n of the initial document."""
        self.state[n] = e
        self.gens[n] = gen
        self.ident[n] = ident if ident is not None else n
        self.size = max(self.size, n + 1)

    def where(self, ident):
        for n, i in self.ident.items():
            if i == ident and self.state.get(n) is not None:
                return n
        return None

    def live(self):
        return sorted(n for n, e in self.state.items() if e is not None)

    def is_stream(self, n):
        e = self.state.get(n)
        return e is not None and e.stream is True

    def new(self, stream=False):
        """A new object: a marker, and references to two objects of the document."""
        m = self.fresh()
        al = [n for n in self.live() if n != self.xnum]
        t1, t2 = al[self.k % len(al)], al[(2 * self.k + 1) % len(al)]
        r1, r2 = complex(self.gens[t1], t1), complex(self.gens[t2], t2)
        e = {'/V': self.s.piece(m), '/R': r1, '/D': {'/L': [7, r2]}}
        x = Exp(m, {('/R',): self.ident[t1], ('/D', '/L', 1): self.ident[t2]}, stream)
        if stream:
            r = self.s.op('objects.forge_stream', e, self.s.data(m + 's'))
            return x, self.s.item(r, 0)
        return x, e

    def add(self, stream=False):
        self.hist.append('add' + ('_stream' if stream else ''))
        x, o = self.new(stream)
        r = self.s.op('docstruct.add_object', self.doc, o)
        self.doc = self.s.item(r, 0)
        n = self.size
        self.put(n, x, 0, ('new', self.k))
        self.changed.add(n)
        self.new_nums.add(n)
        ref = single_const(self.s.item(r, 1))
        if ref is not None:
            self.f.ok('api', 'add_object', ref.v == complex(0, n), f'{self.name()}: add_object returns reference {ref.v} for the new object {n}')
        return n

    def update(self, n, stream=False):
        self.hist.append(f'update{"_stream" if stream else ""}({n})')
        x, o = self.new(stream)
        self.doc = self.s.op('docstruct.update_object', self.doc, n, o)
        if self.state.get(n) is not None and self.state[n].mark not in (None, {}, []):
            self.past.add(self.state[n].mark)
        self.state[n] = x
        self.packed.pop(n, None)
        self.kept_grouped.discard(n)
        self.changed.add(n)

    def empty(self, n):
        """Replace by an object that is false in Python."""
        self.hist.append(f'update({n}, empty)')
        e = [{}, []][self.k % 2]
        self.k += 1
        self.doc = self.s.op('docstruct.update_object', self.doc, n, e)
        if self.state.get(n) is not None and self.state[n].mark not in (None, {}, []):
            self.past.add(self.state[n].mark)
        self.state[n] = Exp(e, {}, False)
        self.packed.pop(n, None)
        self.kept_grouped.discard(n)
        self.changed.add(n)

    def delete(self, n):
        self.hist.append(f'delete({n})')
        self.doc = self.s.op('docstruct.update_object', self.doc, n, None)
        self.state[n] = None
        self.packed.pop(n, None)
        self.kept_grouped.discard(n)
        self.changed.add(n)

    def squash(self):
        self.hist.append('squash')
        self.doc = self.s.op('docstruct.squash', self.doc)
        self.renumber()

    def renumber(self):
        al = [n for n in self.live() if self.xkind == 'stream' or n not in self.packed.values()]
        self.packed = {}
        m = {n: i + 1 for i, n in enumerate(al)}
        self.state = {m[n]: self.state[n] for n in al}
        self.ident = {m[n]: self.ident[n] for n in al}
        self.gens = {n: 0 for n in self.state}
        if self.xnum is not None:
            self.xnum = m.get(self.xnum)
        self.changed = set(self.state) - {self.xnum}
        self.size = len(al) + 1
        self.base, self.rev, self.prev, self.texts, self.texts_rev = lin(0), 0, None, [], 0
        self.at, self.inenv, self.states = {}, {}, []
        self.free_loaded = set()
        self.new_nums = set(self.changed)
        for k in [k for k in self.trail if k not in ('/Root', '/Info', '/ID')]:
            del self.trail[k]
        self.snaps, self.opened = [], self.snap()

    def compress(self):
        self.hist.append('compress')
        self.doc = self.s.op('api.compress', self.doc)
        self.renumber()
        self.xkind = 'stream'
        self.opened = self.snap()
        self.packing = True
        self.check_revision()
        self.packing = False
        self.changed = set()
        self.new_nums = set()

    def group(self):
        """Put the pending changes into an object stream."""
        self.hist.append('group')
        members = [n for n in sorted(self.changed) if self.state.get(n) is not None and not self.is_stream(n) and self.gens.get(n, 0) == 0]
        self.doc = self.s.op('docstruct.group_obj_into_stream', self.doc)
        n = self.size
        self.put(n, Exp(), 0, ('env', n))
        self.changed.add(n)
        self.new_nums.add(n)
        self.grouped = (n, members)
        self.kept_grouped = set(members)

    def commit(self):
        self.hist.append('commit')
        old = self.doc
        self.doc = self.s.op('docstruct.commit', self.doc)
        if not self.changed:
            self.f.ok('api', 'commit-nothing', self.s.length(self.s.get(self.doc, 0)) == self.s.length(self.s.get(old, 0)), f'{self.name()}: commit without changes opens a revision')
            return
        self.check_revision()
        self.changed = set()
        self.new_nums = set()

    def revision_text(self):
        """Text of the revision just closed: as the document keeps it, or else the end of the file that is written."""
        s, c = self.s, self.s.I.client
        v = s.get(self.doc, 2, self.rev, 'bdata')
        if v is not None:
            return s.body(v)
        c.written = []
        s.op('api.writefile', self.doc, 'f.pdf')
        t = Text(RX.cat(*[s.body(x).rx for x in c.written]))
        if t.at(len(t.flat)) is None:
            raise Unresolved('the file that is written')
        for j in range(len(t.flat) + 1):
            if lin_sub(t.at(j), self.base) is lin(0):
                if j == len(t.flat):
                    self.f.bad.append(('rewind' if 'rewind' in self.hist else 'content', 'not-saved', f'{self.name()}: the revision is not in the file that is written'))
                    raise Failed('the revision')
                x = [RX.lit(y) if not '\ue000' <= y[0] <= '\uf8ff' else t.hole(y) for y in re.findall('[\ue000-\uf8ff]|[^\ue000-\uf8ff]+', t.flat[j:])]
                return Text(RX.cat(*x))
        raise Unresolved('the revision in the file that is written')

    def check_revision(self):
        """Compare the text of the revision just closed with the expected state."""
        f, s, w = self.f, self.s, self.name()
        try:
            t = self.revision_text()
            end = t.at(len(t.flat))
            self.t = t
            self.vague = self.vague or t.vague()
            r = read_revision(t, self.base)
        except Malformed as e:
            if t.vague():
                raise Unresolved(f'a part of the revision: {e}')
            f.bad.append(('format', 'malformed', f'{w}: the revision is malformed: {e}'))
            raise Failed(str(e))
        if r.problems and t.vague():
            raise Unresolved(f'a part of the revision: {r.problems[0]}')
        f.n += 1
        for x in r.problems:
            f.bad.append(('format', 'problem', f'{w}: {x}'))
        f.ok('format', 'kind', r.kind == self.xkind, f'{w}: the cross-reference section is a {r.kind} and not a {self.xkind}')
        # positions
        if r.startxref is not None and r.section is not None:
            f.eq('offsets', 'startxref', r.startxref, r.section, f'{w}: startxref does not give the position of the cross-reference section')
        inside = {}
        for n, e in r.entries.items():
            if e[0] == 'n':
                if n not in r.objects:
                    f.bad.append(('offsets', 'no-object', f'{w}: object {n} has an entry in use but is not written'))
                    continue
                p, g, o = r.objects[n]
                f.eq('offsets', 'entry', e[1], p, f'{w}: the entry of object {n} does not give its position')
                f.eq('offsets', 'generation', e[2], g, f'{w}: the entry of object {n} gives another generation than the object')
                f.eq('content', 'generation', g, lin(self.gens.get(n, 0)), f'{w}: object {n} is written with another generation')
            elif e[0] == 'c':
                inside.setdefault(const(e[1]), []).append((const(e[2]), n))
            else:
                f.ok('offsets', 'free-written', n not in r.objects, f'{w}: object {n} is written but its entry is free')
        for n in r.objects:
            f.ok('offsets', 'no-entry', n in r.entries, f'{w}: object {n} is written but has no entry')
        packed = self.check_packed(r, inside, w)
        if self.grouped:
            env, members = self.grouped
            self.grouped = None
            for n in members:
                if self.state.get(n) is not None and n in self.kept_grouped:
                    f.ok('objstm', 'not-grouped', n in packed and any(x == n for _, x in inside.get(env, ())), f'{w}: object {n} is not written into the object stream asked for')
        # what was saved
        xnum = {r.stream_num} - {None}
        envs = set(inside)
        for n in sorted(self.changed):
            want = self.state.get(n)
            e = r.entries.get(n)
            if want is None:
                f.ok('content', 'deleted', e is not None and e[0] == 'f', f'{w}: object {n} has been deleted but its entry is {"missing" if e is None else "in use"}')
                if e is not None and e[0] == 'f':
                    f.eq('trailer', 'free-generation', e[2], lin(self.gens.get(n, 0) + 1), f'{w}: the free entry of object {n} does not give its next generation')
                continue
            o = r.objects.get(n, (None, None, None))[2] if n not in packed else packed[n]
            if not f.ok('content', 'missing', o is not None, f'{w}: object {n} has been changed but is not written'):
                continue
            self.check_object(n, want, o, w)
        extra = (set(r.objects) | set(packed)) - self.changed - xnum - envs
        f.ok('content', 'unchanged', not extra, f'{w}: object {min(extra) if extra else 0} is written again although it has not been changed')
        freed = {n for n, e in r.entries.items() if e[0] == 'f' and n}
        extra = freed - {n for n in self.changed if self.state.get(n) is None}
        f.ok('content', 'lost', not extra, f'{w}: object {min(extra) if extra else 0} gets a free entry although it has not been deleted')
        # trailer and free list
        self.check_trailer(r, w, freed)
        f.n += len(r.entries)
        self.after(r, end, w)

    def check_object(self, n, want, o, w):
        """An object read back against what was stored."""
        f = self.f
        if want.mark in ({}, []):
            f.ok('content', 'empty', o == want.mark, f'{w}: object {n} is written with another content')
        elif want.mark is not None:
            got = marker(o)
            if got is None:
                f.bad.append(('content', 'other', f'{w}: object {n} is written without its content'))
            else:
                f.ok('content', 'stale', got == want.mark, f'{w}: object {n} is written with the content of {"an earlier version" if got in self.past else "another object"}')
        if want.stream is not None:
            f.ok('content', 'stream', isinstance(o, Strm) == want.stream, f'{w}: object {n} is{"" if isinstance(o, Strm) else " not"} written as a stream')
        if isinstance(o, Strm) and want.stream and isinstance(want.mark, str):
            try:
                x = self.content(o)
            except Malformed as e:
                f.bad.append(('content', 'filter', f'{w}: {e}'))
                x = None
            except Unresolved:
                x = None
            if x is not None:
                ps = RX.parts(x)
                h = ps[0] if len(ps) == 1 else None
                ok = h is not None and h.op == 'hole' and isinstance(h.args, tuple) and h.args[0] == 'data'
                if ok or all(p.op == 'lit' or p.op == 'hole' and isinstance(p.args, tuple) and p.args[0] in ('data', 'enc') for p in ps):
                    f.ok('content', 'stream-data', ok and h.args[1] == want.mark + 's', f'{w}: the stream {n} is written with another content')
        for path, ident in want.refs.items():
            v = o.entries if isinstance(o, Strm) else o
            for k in path:
                v = v.get(k) if isinstance(v, dict) else v[k] if isinstance(v, list) and isinstance(k, int) and k < len(v) else None
            tgt = self.where(ident)
            if tgt is None:
                continue
            if v is None or isinstance(v, (Lin, dict, list, Name)):
                f.bad.append(('refs', 'lost', f'{w}: object {n} is written without its reference to object {tgt}'))
            elif isinstance(v, Ref):
                a, b = const(v[0]), const(v[1])
                if a is None or b is None:
                    f.notes.append('a reference is not resolved')
                else:
                    f.ok('refs', 'target', a == tgt, f'{w}: a reference in object {n} leads to object {a} instead of {tgt}')
                    f.ok('refs', 'generation', a != tgt or b == self.gens.get(tgt, 0), f'{w}: a reference in object {n} has generation {b} instead of {self.gens.get(tgt, 0)}')

    def content(self, o):
        """Shape of the decoded content of a stream."""
        fl = o.entries.get('/Filter')
        if fl is None:
            return o_text(o, self.t).rx
        return self.decoded(o, None).rx

    def check_packed(self, r, inside, w):
        """Objects in object streams."""
        f = self.f
        packed = {}
        for env, members in inside.items():
            if env not in r.objects or not isinstance(r.objects[env][2], Strm):
                f.bad.append(('objstm', 'no-envelope', f'{w}: objects are said to be in object stream {env}, which is not written in this revision'))
                continue
            o = r.objects[env][2]
            d = o.entries
            f.ok('objstm', 'type', d.get('/Type') == '/ObjStm', f'{w}: the envelope {env} is no object stream')
            try:
                tt = self.decoded(o, r)
                n, first = need(d.get('/N'), '/N'), d.get('/First')
                rd = Reader(tt)
                heads = []
                for i in range(n):
                    rd.ws()
                    m = re.compile(f'({NUM})[ \r\n]+({NUM})[ \r\n]').match(tt.flat, rd.i)
                    if not m:
                        raise Malformed(f'the header of object stream {env} is too short')
                    heads.append((need(tt.number(m.group(1)), 'a number'), tt.number(m.group(2))))
                    rd.i = m.end() - 1
                rd.ws()
                if rd.i < len(tt.flat) and re.match('[0-9]', tt.flat[rd.i]) and n == 0:
                    raise Malformed(f'/N of object stream {env} is wrong')
            except Malformed as e:
                f.bad.append(('objstm', 'malformed', f'{w}: {e}'))
                continue
            f.ok('objstm', 'n', sorted(x for x, _ in heads) == sorted(x for _, x in members), f'{w}: object stream {env} holds objects {[x for x, _ in heads]}, the entries say {[x for _, x in members]}')
            for i, num in members:
                if i is None:
                    f.notes.append(f'{w}: an index in an object stream is not resolved')
                    continue
                if not f.ok('objstm', 'index', i < len(heads) and heads[i][0] == num, f'{w}: the entry of object {num} says it is number {i} of object stream {env}, which is not the case'):
                    continue
                want = lin_add(first, heads[i][1]) if isinstance(first, Lin) else None
                at = None
                for k in range(len(tt.flat) + 1):
                    if tt.at(k) is want:
                        at = k
                        break
                if at is None:
                    f.bad.append(('objstm', 'offset', f'{w}: the header of object stream {env} gives a position for object {num} where no object starts'))
                    continue
                try:
                    x = Reader(tt, at).obj()
                except Malformed as e:
                    f.bad.append(('objstm', 'offset', f'{w}: the header of object stream {env} gives a wrong position for object {num}: {e}'))
                    continue
                if num in packed:
                    f.bad.append(('objstm', 'twice', f'{w}: object {num} is packed twice'))
                packed[num] = x
                f.ok('objstm', 'stream', not self.is_stream(num), f'{w}: the stream {num} is packed into an object stream')
                f.ok('objstm', 'generation', self.gens.get(num, 0) == 0, f'{w}: object {num} has a generation and is packed into an object stream')
                f.ok('objstm', 'both', num not in r.objects, f'{w}: object {num} is written and packed')
        return packed

    def decoded(self, o, r):
        fl = o.entries.get('/Filter')
        if fl is None:
            return o_text(o, self.t)
        if isinstance(fl, list) and len(fl) == 1:
            fl = fl[0]
        want = {'/FlateDecode': 'deflate', '/ASCIIHexDecode': 'hex', '/ASCII85Decode': 'to85'}.get(fl)
        h = self.t.holes[ord(o.text) - 0xe000] if len(o.text) == 1 and o.text >= '\ue000' else None
        if h is None or h.op != 'hole' or not isinstance(h.args, tuple) or h.args[0] != 'enc':
            raise Unresolved('the content of an object stream')
        if h.args[1] != want:
            raise Malformed(f'a stream says {fl} but its content is {h.args[1]}')
        return Text(h.args[3])

    def check_trailer(self, r, w, freed):
        f, d = self.f, r.trailer
        if d is None:
            return
        top = max(list(r.entries) + [self.size - 1])
        f.eq('trailer', 'size', d.get('/Size') if isinstance(d.get('/Size'), Lin) else lin(-1), lin(top + 1), f'{w}: /Size is not one more than the highest object number')
        for k, ident in self.trail.items():
            if f.ok('trailer', 'lost', k in d, f'{w}: {k} is missing in the trailer') and ident is not None:
                v = d[k]
                tgt = self.where(ident)
                if tgt is not None and isinstance(v, Ref) and const(v[0]) is not None:
                    f.ok('trailer', 'target', const(v[0]) == tgt and const(v[1]) == self.gens.get(tgt, 0), f'{w}: {k} in the trailer leads to object {const(v[0])} instead of {tgt}')
                elif not isinstance(v, (Ref, Hole)):
                    f.bad.append(('trailer', 'target', f'{w}: {k} in the trailer is no reference'))
        if self.prev is None:
            f.ok('trailer', 'prev', '/Prev' not in d, f'{w}: the trailer of a file with one revision has /Prev')
        else:
            p = d.get('/Prev')
            if f.ok('trailer', 'no-prev', p is not None, f'{w}: /Prev is missing in the trailer of an update'):
                f.eq('trailer', 'prev', p if isinstance(p, Lin) else None, self.prev, f'{w}: /Prev does not give the previous cross-reference section')
        f.ok('trailer', 'xrefstm', '/XRefStm' not in d, f'{w}: /XRefStm of an earlier revision is in the trailer')
        if r.kind == 'stream':
            f.ok('trailer', 'type', d.get('/Type') == '/XRef', f'{w}: the cross-reference stream has no /Type /XRef')
        # free list
        e = r.entries.get(0)
        if e is not None:
            f.ok('trailer', 'free-head', e[0] == 'f' and const(e[2]) == 65535, f'{w}: the entry of object 0 is not the head of the free list (generation 65535)')
            seen, n = set(), 0
            while n in r.entries and n not in seen and r.entries[n][0] == 'f':
                seen.add(n)
                n = const(r.entries[n][1])
            f.ok('trailer', 'free-list', n == 0 and seen >= freed | {0}, f'{w}: the free list does not link the deleted objects {sorted(freed)} and end at 0')
        else:
            f.ok('trailer', 'free-none', not freed, f'{w}: there are free entries but none for object 0')
        if self.prev is None:
            f.ok('trailer', 'complete', set(r.entries) == set(range(top + 1)), f'{w}: the first cross-reference section does not have an entry for every object number')

    def after(self, r, end, w):
        """The document handed back describes the revision that was written."""
        f, s = self.f, self.s
        idx = s.get(self.doc, 0, self.rev)
        for n, (p, g, o) in r.objects.items():
            a = s.get(idx, n, 'abs_pos')
            b = s.get(idx, n, 'abs_next')
            a = s.I.int_lin(a) if a else None
            b = s.I.int_lin(b) if b else None
            f.eq('memory', 'abs_pos', a, p, f'{w}: the document says that object {n} is at another position than where it is written')
            if b is not None:
                f.n += 1
                d = lin_sub(r.ends[n], b)
                if decided(d) and d.lo() > 0:
                    f.bad.append(('memory', 'abs_next', f'{w}: the document says that object {n} ends before its end'))
        for n, e in r.entries.items():
            if e[0] == 'c':
                x = single_const(s.get(idx, n, 'env_num') or frozenset())
                y = const(e[1])
                if x is not None and y is not None:
                    f.ok('memory', 'env_num', x.v == y, f'{w}: the document says that object {n} is in object stream {x.v}, it is written in {y}')
        for n, (p, g, o) in r.objects.items():
            self.at[n] = p
            self.inenv.pop(n, None)
        for n, e in r.entries.items():
            if e[0] == 'c':
                self.inenv[n] = const(e[1])
                self.at.pop(n, None)
            elif e[0] == 'f':
                self.at.pop(n, None)
                self.inenv.pop(n, None)
        if r.stream_num is not None and r.stream_num not in self.state:
            self.put(r.stream_num, Exp(), 0, ('xref', r.stream_num))
        self.xnum = r.stream_num
        envs = set(r.objects) - set(self.state)
        for k in envs:
            self.put(k, Exp(), 0, ('env', k))
        closed = self.snap()
        closed['changed'] |= envs
        closed['new_nums'] |= envs
        self.snaps = self.snaps[:self.rev] + [None] * (self.rev - len(self.snaps)) + [(self.opened, closed) if self.opened and self.opened['rev'] == self.rev else None]
        self.texts.append(self.t.rx)
        self.prev = r.section
        self.base = lin_add(self.base, end) if end is not None else None
        self.rev += 1
        self.opened = self.snap()
        self.states.append((dict(self.state), dict(self.gens), dict(self.at), dict(self.inenv)))

    def write(self, name='f.pdf'):
        """The file that is written is what was loaded followed by the revisions."""
        self.hist.append('writefile')
        c = self.s.I.client
        c.written = []
        if self.changed:        # writefile commits
            self.commit()
            self.hist.append('writefile')
        self.doc = self.s.op('api.writefile', self.doc, *([name] if name else []))
        f, w = self.f, self.name()
        if not c.written:
            f.bad.append(('file', 'none', f'{w}: nothing is written'))
            return
        xs = []
        for v in c.written:
            xs.append(self.s.body(v).rx)
        t = Text(RX.cat(*xs))
        end = t.at(len(t.flat))
        if end is None:
            raise Unresolved('the file that is written')
        f.eq('file', 'length', end, self.base, f'{w}: the file that is written is not as long as its revisions together')
        want = Text(RX.cat(*self.texts)) if self.texts else None
        if want is not None and want.flat:
            a, b = list(RX.parts(t.rx)), list(RX.parts(want.rx))
            f.n += 1
            if not same_tail(a, b):
                f.bad.append(('file', 'revisions', f'{w}: the file that is written does not end with the revisions that were saved'))
        f.ok('file', 'header', t.flat.startswith('%PDF-'), f'{w}: the file that is written does not start with its header')

    def load(self):
        """The text written so far is loaded again."""
        self.hist.append('load')
        if not self.texts or self.texts_rev + len(self.texts) != self.rev:
            raise Unresolved('the text of the file')
        x = RX.cat(*self.texts)
        t = Text(x)
        end = t.at(len(t.flat))
        if end is None:
            raise Unresolved('the length of the file')
        self.doc = self.s.op('api.loads', V(T('bytes', NOLB, (end, x, None))))
        self.kept_grouped, self.grouped = set(), None
        self.packed = dict(self.inenv)
        self.past = set()
        before = set()
        for x in self.snaps:
            if x is not None:
                # a free entry for a number that was not in use says nothing about a change
                x[1]['changed'] = {n for n in x[1]['changed'] if x[1]['state'].get(n) is not None or n in before}
                before |= set(x[1]['state'])
        self.check_loaded(-1)
        self.changed, self.new_nums = set(), set()
        self.free_loaded = {n for n in self.state if self.state[n] is None}

    KEPT = ('state', 'ident', 'gens', 'at', 'inenv', 'base', 'rev', 'size', 'prev', 'xkind', 'xnum', 'trail', 'texts', 'texts_rev', 'changed', 'new_nums')

    def snap(self):
        return {k: (copy.copy(getattr(self, k))) for k in self.KEPT}

    def rewind(self):
        """Back to the revision before, which is open again."""
        k = self.rev - 1
        if k < 0 or len(self.snaps) <= k or self.snaps[k] is None:
            raise Unresolved('the revision to go back to')
        self.hist.append('rewind')
        self.doc = self.s.op('docstruct.rewind', self.doc)
        opened, closed = self.snaps[k]
        for x in ('state', 'ident', 'gens', 'changed', 'new_nums', 'size', 'at', 'inenv'):
            setattr(self, x, copy.copy(closed[x]))
        for x in ('base', 'rev', 'prev', 'texts', 'texts_rev', 'xnum', 'xkind', 'trail'):
            setattr(self, x, copy.copy(opened[x]))
        self.snaps = self.snaps[:k]
        self.states = self.states[:k]
        self.opened = dict(opened, xrefs=())
        # objects of the revision are not in object streams any more, the object streams are gone
        was = self.states[-1][3] if self.states else {}
        for n in [n for n, e in self.inenv.items() if n in self.changed and was.get(n) != e]:
            e = self.inenv.pop(n)
            if e not in self.inenv.values() and self.state.get(e) is not None:
                self.state[e] = None
                self.changed.add(e)
        for n in opened.get('xrefs', ()):
            self.state[n] = None
            self.changed.add(n)
            self.new_nums.discard(n)
        if k == 0:
            for n in set(range(1, max(self.state) + 1)) - set(self.state):
                self.put(n, None)
            self.changed |= {n for n in self.state if self.state[n] is None}
        for e in [e for e in self.state if self.state[e] is None]:
            if any(x == e for x in closed['inenv'].values()) and e not in self.inenv.values():
                self.new_nums.discard(e)
        self.packed = dict(self.inenv)
        self.past = set()
        self.kept_grouped, self.grouped = set(), None
        self.check_rewound()

    def check_rewound(self):
        f, s, w = self.f, self.s, self.name()
        ni = s.length(s.get(self.doc, 0))
        f.ok('rewind', 'revisions', ni is None or ni == self.rev + 1, f'{w}: the document is in revision {ni and ni - 1} instead of {self.rev}')
        for n, e in sorted(self.state.items()):
            if e is None:
                v = s.call('docstruct.get_object', self.doc, complex(self.gens.get(n, 0), n))
                f.ok('rewind', 'deleted', v is None or NONE <= v, f'{w}: object {n} had been deleted in that revision and is handed back')
                continue
            self.check_handed(n, e, self.gens.get(n, 0), w, 'rewind')

    def check_loaded(self, rev):
        """The index leads to the objects of a revision, which are handed back."""
        f, s, w = self.f, self.s, self.name()
        state, gens, at, inenv = self.states[rev]
        ni = s.length(s.get(self.doc, 0))
        if ni is None:
            f.notes.append('the index is not resolved')
            return
        f.ok('load', 'revisions', ni == len(self.states) + 1, f'{w}: the file has {len(self.states)} revisions, the document that is loaded {ni - 1}')
        idx = s.get(self.doc, 0, -1)
        n = s.length(idx)
        for num, e in sorted(state.items()):
            if e is None:
                v = s.call('docstruct.get_object', self.doc, complex(gens.get(num, 0), num))
                f.ok('load', 'deleted', v is None or NONE <= v, f'{w}: object {num} has been deleted and is handed back')
                continue
            if n is not None and not f.ok('load', 'slot', num < n and s.get(idx, num) != NONE, f'{w}: the index has no entry for object {num}'):
                continue
            g = single_const(s.get(idx, num, 'o_gen') or frozenset())
            if g is not None:
                f.ok('load', 'generation', g.v == gens.get(num, 0), f'{w}: the index gives generation {g.v} for object {num}')
            if num in at:
                a = s.get(idx, num, 'abs_pos')
                f.eq('load', 'position', s.I.int_lin(a) if a else None, at[num], f'{w}: the index gives another position for object {num}')
            elif num in inenv:
                a = single_const(s.get(idx, num, 'env_num') or frozenset())
                f.ok('load', 'envelope', a is None or a.v == inenv[num], f'{w}: the index says that object {num} is in object stream {a and a.v}')
            self.check_handed(num, e, gens.get(num, 0), w)

    def check_handed(self, num, e, gen, w, aspect='load'):
        f, s = self.f, self.s
        v = s.call('docstruct.get_object', self.doc, complex(gen, num))
        if v is None:
            f.bad.append((aspect, 'get', f'{w}: get_object fails on object {num}'))
            return
        f.ok(aspect, 'get-none', v != NONE, f'{w}: object {num} is not found')
        o = s.obj(v)
        if o is None:
            f.notes.append(f'get_object of {num} is not resolved')
            return
        if e.mark in ({}, []):
            f.ok(aspect, 'get-empty', o.kind == type(e.mark).__name__ and not o.fields and not o.exact, f'{w}: another content is handed back for object {num}')
            return
        if e.stream:
            d = s.get(v, 'stream')
            a = next(iter(d)) if d and len(d) == 1 else None
            if isinstance(a, Ta) and a.aux is not None and a.aux[1] is not None:
                x = a.aux[1]
                f.ok(aspect, 'get-data', x.op == 'hole' and isinstance(x.args, tuple) and x.args[0] == 'data' and x.args[1] == e.mark + 's', f'{w}: other data are handed back for the stream {num}')
            v = s.get(v, 'entries')
        for path, ident in e.refs.items():
            x = v
            for k in path:
                x = s.get(x, k) if x is not None else None
            c = single_const(x) if x is not None else None
            t = self.where(ident)
            if c is not None and t is not None:
                f.ok(aspect, 'get-ref', c.v == complex(self.gens[t], t), f'{w}: the reference {path} of object {num} is {c.v}')
            elif x is None:
                f.notes.append(f'a reference of {num} is not resolved')
        if e.mark is None:
            return
        m = s.get(v, '/V')
        a = next(iter(m)) if m is not None and len(m) == 1 else None
        if isinstance(a, Ta) and a.aux is not None and a.aux[1] is not None and a.aux[1].op == 'hole' and isinstance(a.aux[1].args, tuple) and a.aux[1].args[0] == 'data':
            f.ok(aspect, 'get-content', a.aux[1].args[1] == e.mark, f'{w}: another content is handed back for object {num}')
        else:
            f.notes.append(f'the content of {num} is not resolved')

    # ------------------------------------------------------------ the document in memory

    def check_memory(self):
        """index, cache and data describe the same objects and revisions."""
        f, s, w = self.f, self.s, self.name()
        ni, nc, nd = (s.length(s.get(self.doc, k)) for k in (0, 1, 2))
        if None in (ni, nc, nd):
            f.notes.append('the document in memory is not resolved')
            return
        f.ok('memory', 'revisions', ni == nd, f'{w}: the document has {ni} index columns and {nd} data records')
        last = s.get(self.doc, 0, -1)
        n = s.length(last)
        if n is None:
            f.notes.append('the index is not resolved')
            return
        f.ok('memory', 'slots', n <= nc, f'{w}: the index has {n} slots and the cache {nc}')
        top = max(self.state) if self.state else 0
        f.ok('memory', 'top', n > top, f'{w}: the index has no slot for object {top}')
        for num in self.state:
            e = s.get(last, num)
            if e is None or num >= n:
                continue
            if e == NONE:
                f.ok('memory', 'none', self.state[num] is None, f'{w}: the index has no entry for object {num}')
                continue
            a = single_const(s.get(last, num, 'o_num') or frozenset())
            if a is not None:
                f.ok('memory', 'o_num', a.v == num, f'{w}: slot {num} of the index describes object {a.v}')
            o = s.obj(e)
            if o is not None and o.kind == 'dict':
                dele = 'DELETED' in o.fields and o.fields['DELETED'] != EMPTY
                sure = not dele or 'DELETED' in o.must
                if sure:
                    f.ok('memory', 'deleted', dele == (self.state[num] is None), f'{w}: the index says that object {num} is{"" if dele else " not"} deleted')

    def check_api(self):
        """What the document reports about itself."""
        f, s, w = self.f, self.s, self.name()
        v = s.op('docstruct.changes', self.doc)
        s.log.pop()
        o = s.obj(v)
        if o is None or o.exact is None:
            f.notes.append('changes() is not resolved')
            return
        got = {}
        for x in o.exact:
            r, a = single_const(s.item(x, 0)), single_const(s.item(x, 1))
            if r is None or a is None:
                f.notes.append('changes() is not resolved')
                return
            f.ok('api', 'changes-twice', r.v not in got, f'{w}: changes() lists {r.v} twice')
            got[int(r.v.imag)] = (r.v, a.v)
        for n in self.changed | set(got):
            if n not in self.changed:
                f.ok('api', 'changes-extra', False, f'{w}: changes() lists object {n}, which has not been changed')
                continue
            want = 'd' if self.state.get(n) is None else 'a' if n in self.new_nums else 'u'
            if not f.ok('api', 'changes', n in got, f'{w}: changes() does not list object {n}'):
                continue
            f.ok('api', 'action', got[n][1] == want, f'{w}: changes() says {got[n][1]!r} for object {n} instead of {want!r}')
            f.ok('api', 'ref', got[n][0] == complex(self.gens.get(n, 0), n), f'{w}: changes() gives the reference {got[n][0]} of object {n}')

    def check_get(self):
        """The current content is handed back."""
        f, s, w = self.f, self.s, self.name()
        for n, e in sorted(self.state.items()):
            if e is not None and e.mark is None or n not in self.gens:
                continue
            v = s.call('docstruct.get_object', self.doc, complex(self.gens[n], n))
            if v is None:
                f.bad.append(('api', 'get', f'{w}: get_object fails on object {n}'))
                continue
            if e is None:
                f.ok('api', 'get-deleted', v == NONE or len(v) != 1, f'{w}: get_object hands back the deleted object {n}')
                continue
            o = s.obj(v)
            if o is None:
                if len(v) == 1 and not isinstance(next(iter(v)), Pa):
                    f.bad.append(('api', 'get', f'{w}: get_object hands back something else for object {n}'))
                else:
                    f.notes.append('get_object is not resolved')
                continue
            if e.mark in ({}, []):
                f.ok('api', 'get-empty', o.kind == type(e.mark).__name__ and not o.fields and not o.exact, f'{w}: get_object hands back another content for object {n}')
                continue
            if e.stream:
                v = s.get(v, 'entries')
            m = s.get(v, '/V')
            if m is None or len(m) != 1:
                f.notes.append('get_object is not resolved')
                continue
            a = next(iter(m))
            if isinstance(a, Ta) and a.aux is not None and a.aux[1] is not None and a.aux[1].op == 'hole' and isinstance(a.aux[1].args, tuple) and a.aux[1].args[0] == 'data':
                f.ok('api', 'get-stale', a.aux[1].args[1] == e.mark, f'{w}: get_object hands back another content for object {n}')


def same_tail(a, b):
    """Is the sequence of parts b a suffix of a?"""
    b = list(b)
    a = list(a)
    while b:
        if not a:
            return False
        x, y = a.pop(), b.pop()
        if x.op == 'lit' and y.op == 'lit':
            if x.args == y.args:
                continue
            if len(x.args) > len(y.args) and x.args.endswith(y.args) and not b:
                return True
            return False
        if x is not y:
            return False
    return True


def o_text(o, t):
    """Content of a stream as a text of its own."""
    x = []
    for ch in re.split(f'({HOLE})', o.text):
        if re.match(f'^{HOLE}$', ch):
            x.append(t.holes[ord(ch) - 0xe000])
        elif ch:
            x.append(RX.lit(ch))
    return Text(RX.cat(*x) if x else RX.EPS)
