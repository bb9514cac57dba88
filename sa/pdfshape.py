"""Reading PDF syntax in abstract text: known characters with holes of unknown content, positions as affine forms."""

import re

from . import rx as RX
from .values import *

WS = '\x00\t\n\x0c\r '
HOLE = '[\ue000-\uf8ff]'
NUM = f'(?:[0-9]+|{HOLE})'


class Unresolved(Exception):
    """The text is not known well enough to decide."""


class Malformed(Exception):
    """The text cannot be what it should be."""


hole_len = RX.hole_len


class Text(object):
    """Flat view of a shape: unknown parts are single private characters."""

    def __init__(self, x):
        if isinstance(x, Ka):
            x = RX.lit(x.v if isinstance(x.v, str) else bytes(x.v).decode('latin-1'))
        elif isinstance(x, Ta):
            x = x.aux[1] if x.aux is not None and x.aux[1] is not None else RX.ANY
        self.rx = x
        self.holes = []
        out = []
        for p in RX.parts(x):
            if p.op == 'lit':
                out.append(p.args)
            else:
                out.append(chr(0xe000 + len(self.holes)))
                self.holes.append(p)
        self.flat = ''.join(out)
        pos, acc, self.starts = lin(0), [], {}
        last = 0
        self._acc = acc
        for i, ch in enumerate(self.flat):
            if '\ue000' <= ch <= '\uf8ff':
                acc.append((i, pos))
                p = self.holes[ord(ch) - 0xe000]
                l = hole_len(p.args) if p.op == 'hole' else None
                if pos is not None:
                    pos = None if l is None else lin_add(lin_add(pos, lin(i - last)), l)
                last = i + 1
        acc.append((len(self.flat), pos))
        self._lasts = [0] + [i + 1 for i, _ in acc[:-1]]

    def at(self, i):
        """Position of flat index i from the start of the text."""
        import bisect
        k = bisect.bisect_left([a for a, _ in self._acc], i)
        base = self._acc[k][1] if k < len(self._acc) else None
        if base is None:
            return None
        return lin_add(base, lin(i - self._lasts[k]))

    def vague(self):
        """Is a part of the text of unknown structure (neither an unknown object, an encoded text nor a number)?"""
        for h in self.holes:
            a = h.args
            if h.op != 'hole' or not isinstance(a, tuple) or len(a) < 2 or a[1] == '?' or not (a[0] in ('data', 'enc') or isinstance(a[0], Lin)):
                return True
        return False

    def hole(self, ch):
        return self.holes[ord(ch) - 0xe000]

    def number(self, tok):
        """Value of a decimal token."""
        if re.match('^[0-9]+$', tok):
            return lin(int(tok))
        if re.match(f'^{HOLE}$', tok):
            h = self.hole(tok)
            if h.op == 'hole' and isinstance(h.args, tuple) and len(h.args) == 2 and h.args[1] != '?' and isinstance(h.args[0], Lin):
                return h.args[0]
        raise Unresolved(f'a number ({self.show(tok)})')

    def width(self, tok):
        """Number of characters of a token, as an affine form."""
        n = lin(0)
        for ch in tok:
            if '\ue000' <= ch <= '\uf8ff':
                h = self.hole(ch)
                l = hole_len(h.args) if h.op == 'hole' else None
                if l is None:
                    raise Unresolved('a length')
                n = lin_add(n, l)
            else:
                n = lin_add(n, lin(1))
        return n

    def show(self, s):
        def one(m):
            h = self.hole(m.group(0))
            a = h.args
            if h.op == 'hole' and isinstance(a, tuple) and a[0] == 'data':
                return f'<{a[1]}>'
            if h.op == 'hole' and isinstance(a, tuple) and isinstance(a[0], Lin) and a[1] != '?':
                return f'<{a[0]}>'
            return '<?>'
        return re.sub(HOLE, one, s)


class Name(str):
    pass


class Ref(tuple):
    """(number, generation) as affine forms."""


class Bare(str):
    """Any other token."""


class Strm(object):
    def __init__(self, entries, start, end, text):
        self.entries, self.start, self.end, self.text = entries, start, end, text


class Hole(object):
    """An object that is one piece of unknown content."""

    def __init__(self, h):
        self.h = h

    @property
    def name(self):
        a = self.h.args
        return a[1] if self.h.op == 'hole' and isinstance(a, tuple) and a[0] == 'data' else None


class Reader(object):
    """Recursive descent over a Text."""

    def __init__(self, t, i=0):
        self.t, self.i = t, i

    def ws(self):
        f = self.t.flat
        while self.i < len(f):
            if f[self.i] in WS:
                self.i += 1
            elif f[self.i] == '%':
                while self.i < len(f) and f[self.i] not in '\r\n':
                    self.i += 1
            else:
                break

    def peek(self, s):
        return self.t.flat.startswith(s, self.i)

    def token(self):
        f = self.t.flat
        m = re.compile(r'[^\x00\t\n\x0c\r ()<>\[\]{}/%]+').match(f, self.i)
        if not m:
            raise Malformed(f'unexpected {self.t.show(f[self.i:self.i + 10])!r}')
        self.i = m.end()
        return m.group(0)

    def obj(self):
        self.ws()
        f = self.t.flat
        if self.i >= len(f):
            raise Malformed('the text ends inside an object')
        if self.peek('<<'):
            self.i += 2
            d = {}
            while True:
                self.ws()
                if self.peek('>>'):
                    self.i += 2
                    break
                if self.i < len(f) and re.match(HOLE, f[self.i]):
                    raise Unresolved('an unknown piece inside a dictionary')
                if not self.peek('/'):
                    raise Malformed(f'a dictionary key is expected before {self.t.show(f[self.i:self.i + 10])!r}')
                self.i += 1
                k = '/' + self.token() if self.i < len(f) and f[self.i] not in WS else '/'
                if k in d:
                    raise Malformed(f'{k} appears twice in a dictionary')
                self.ws()
                if self.peek('>>'):
                    raise Malformed(f'{k} has no value')
                d[k] = self.obj()
            return d
        if self.peek('['):
            self.i += 1
            out = []
            while True:
                self.ws()
                if self.peek(']'):
                    self.i += 1
                    return out
                out.append(self.obj())
        if self.peek('/'):
            self.i += 1
            return Name('/' + self.token())
        if self.peek('('):
            j, n = self.i + 1, 1
            while n and j < len(f):
                if f[j] == '\\':
                    j += 1
                elif f[j] == '(':
                    n += 1
                elif f[j] == ')':
                    n -= 1
                j += 1
            s, self.i = f[self.i:j], j
            return Bare(s)
        if self.peek('<'):
            j = f.find('>', self.i)
            if j < 0:
                raise Malformed('an unclosed hexadecimal string')
            s, self.i = f[self.i:j + 1], j + 1
            return Bare(s)
        m = re.compile(f'({NUM})[ \r\n]+({NUM})[ \r\n]+R(?![A-Za-z0-9])').match(f, self.i)
        if m:
            self.i = m.end()
            return Ref((self.t.number(m.group(1)), self.t.number(m.group(2))))
        tok = self.token()
        if re.match(f'^{HOLE}$', tok):
            h = self.t.hole(tok)
            try:
                return self.t.number(tok)
            except Unresolved:
                return Hole(h)
        if re.match('^[0-9]+$', tok):
            return lin(int(tok))
        return Bare(tok)

    def indirect(self):
        """(number, generation, object) at the current position."""
        f = self.t.flat
        m = re.compile(f'({NUM})[ \r\n\t]+({NUM})[ \r\n\t]+obj(?![A-Za-z0-9])').match(f, self.i)
        if not m:
            raise Malformed(f'no "n g obj" before {self.t.show(f[self.i:self.i + 20])!r}')
        self.i = m.end()
        o = self.obj()
        self.ws()
        if isinstance(o, dict) and self.peek('stream'):
            self.i += 6
            if self.peek('\r\n'):
                self.i += 2
            elif self.peek('\n'):
                self.i += 1
            else:
                raise Malformed('"stream" is not followed by an end of line')
            n = o.get('/Length')
            if not isinstance(n, Lin):
                raise Malformed('a stream without a direct numeric /Length') if n is None else Unresolved('/Length')
            j = f.find('endstream', self.i)
            if j < 0:
                raise Malformed('a stream without endstream')
            e = j
            if f[e - 1] == '\n':
                e -= 1
                if f[e - 1] == '\r':
                    e -= 1
            elif f[e - 1] == '\r':
                e -= 1
            ends = [k for k in range(e, j + 1)]
            a = self.t.at(self.i)
            if a is None or self.t.at(e) is None:
                raise Unresolved('the length of a stream')
            want = lin_add(a, n)
            hit = [k for k in ends if self.t.at(k) is want]
            if not hit:
                d = lin_sub(self.t.at(e), want)
                raise Malformed(f'/Length of the stream is off by {d}') if decided(d) else Unresolved('/Length of a stream')
            o = Strm(o, self.i, hit[0], f[self.i:hit[0]])
            self.i = j + 9
            self.ws()
        if not self.peek('endobj'):
            raise Malformed(f'endobj is missing before {self.t.show(f[self.i:self.i + 20])!r}')
        self.i += 6
        return self.t.number(m.group(1)), self.t.number(m.group(2)), o


def decided(d):
    """A difference that is not zero for some inputs: made of independent quantities only."""
    return d is not lin(0) and all(isinstance(s.key, tuple) and s.key[0] in ('len', 'num', 'digits') for s, _ in d.terms)


class Rev(object):
    """What one saved revision says."""

    def __init__(self):
        self.objects = {}       # number -> (position, generation, object)
        self.order = []
        self.ends = {}          # number -> position after the object
        self.entries = {}       # number -> ('n', position, generation) | ('f', next, generation) | ('c', envelope, index)
        self.kind = None        # 'table' | 'stream'
        self.trailer = None
        self.section = None     # position of the section
        self.startxref = None
        self.stream_num = None
        self.problems = []
        self.notes = []


def const(l):
    return l.c if isinstance(l, Lin) and not l.terms else None


def need(l, what):
    c = const(l)
    if c is None:
        raise Unresolved(what)
    return c


def read_revision(t, base):
    """Parse the text of one revision that starts at position base of the file."""
    r = Rev()
    rd = Reader(t)
    f = t.flat
    seen_x = False

    def pos(i):
        p = t.at(i)
        if p is None or base is None:
            raise Unresolved('a position')
        return lin_add(base, p)
    while True:
        rd.ws()
        if rd.i >= len(f):
            break
        if rd.peek('xref'):
            if seen_x:
                r.problems.append('there are two cross-reference sections')
            seen_x = True
            r.kind, r.section = 'table', pos(rd.i)
            rd.i += 4
            table(rd, r)
            continue
        if rd.peek('startxref'):
            n = r.order[-1] if r.order else None
            p, g, o = r.objects.get(n, (None, None, None))
            if isinstance(o, Strm) and o.entries.get('/Type') == '/XRef' and not seen_x:
                r.kind, r.section, r.trailer, r.stream_num = 'stream', p, o.entries, n
                xstream(t, r, o)
            m = re.compile(f'startxref(?:\r\n|\r|\n)({NUM})(?:\r\n|\r|\n)%%EOF').match(f, rd.i)
            if not m:
                raise Malformed(f'bad end of the revision: {t.show(f[rd.i:rd.i + 40])!r}')
            r.startxref = t.number(m.group(1))
            rd.i = m.end()
            rest = f[rd.i:].strip(WS)
            if rest:
                r.problems.append(f'{t.show(rest[:30])!r} follows the end of file marker')
            break
        at = rd.i
        p = pos(at)
        if re.match(HOLE, f[at]) and not re.match(f'{NUM}[ \r\n]', f[at:at + 2]):
            raise Unresolved(f'a piece of the revision ({t.show(f[at:at + 30])!r})')
        n, g, o = rd.indirect()
        num = need(n, 'an object number')
        if num in r.objects:
            r.problems.append(f'object {num} is written twice')
        r.objects[num] = (p, g, o)
        r.order.append(num)
        r.ends[num] = pos(rd.i)
    if r.startxref is None:
        r.problems.append('the revision has no startxref and end of file marker')
    if r.kind is None:
        r.problems.append('the revision has no cross-reference section')
    return r


def table(rd, r):
    f, t = rd.t.flat, rd.t
    m = re.compile('[ ]*(?:\r\n|\r|\n)').match(f, rd.i)
    if not m:
        raise Malformed('"xref" is not followed by an end of line')
    rd.i = m.end()
    sub = re.compile(f'({NUM}) ({NUM}) ?(?:\r\n|\r|\n)')
    while True:
        if re.compile('[ \r\n]*trailer').match(f, rd.i):
            break
        m = sub.match(f, rd.i)
        if not m:
            raise Malformed(f'bad subsection header {t.show(f[rd.i:rd.i + 24])!r}')
        first, cnt = need(t.number(m.group(1)), 'a subsection header'), need(t.number(m.group(2)), 'a subsection header')
        rd.i = m.end()
        for k in range(cnt):
            m = re.compile(f'([0-9]+|{HOLE}) ([0-9]+|{HOLE}) ([nf])( \r| \n|\r\n)').match(f, rd.i)
            if not m:
                raise Malformed(f'bad entry of object {first + k}: {t.show(f[rd.i:rd.i + 24])!r}')
            w1, w2 = t.width(m.group(1)), t.width(m.group(2))
            for w, want in ((w1, 10), (w2, 5)):
                if const(w) is None:
                    raise Unresolved('the width of a field')
                if const(w) != want:
                    raise Malformed(f'the entry of object {first + k} has a field of {const(w)} digits instead of {want}')
            if first + k in r.entries:
                r.problems.append(f'object {first + k} has two entries')
            r.entries[first + k] = (m.group(3), t.number2(m.group(1)), t.number2(m.group(2)))
            rd.i = m.end()
    m = re.compile('[ \r\n]*trailer').match(f, rd.i)
    rd.i = m.end()
    r.trailer = rd.obj()
    if not isinstance(r.trailer, dict):
        raise Malformed('the trailer is not a dictionary')


def xstream(t, r, o):
    """Entries of a cross-reference stream."""
    d = o.entries
    w = d.get('/W')
    if not isinstance(w, list) or len(w) != 3 or not all(isinstance(x, Lin) for x in w):
        raise Malformed('/W of the cross-reference stream is not an array of three numbers')
    size = d.get('/Size')
    idx = d.get('/Index', [lin(0), size])
    if not isinstance(idx, list) or len(idx) % 2:
        raise Malformed('/Index is not an array of pairs')
    nums = []
    for i in range(0, len(idx), 2):
        a, n = need(idx[i], '/Index'), need(idx[i + 1], '/Index')
        nums += list(range(a, a + n))
    text = o.text
    tt = t
    fl = d.get('/Filter')
    if isinstance(fl, list) and len(fl) == 1:
        fl = fl[0]
    want = {'/FlateDecode': 'deflate', '/ASCIIHexDecode': 'hex', '/ASCII85Decode': 'to85'}.get(fl)
    if fl is not None:
        if not (len(text) == 1 and re.match(HOLE, text)):
            raise Unresolved('the content of the cross-reference stream')
        h = t.hole(text)
        if h.op != 'hole' or not isinstance(h.args, tuple) or h.args[0] != 'enc':
            raise Unresolved('the content of the cross-reference stream')
        if h.args[1] != want:
            raise Malformed(f'the cross-reference stream says {fl} but its content is {h.args[1]}')
        if d.get('/DecodeParms') is not None:
            r.problems.append('the cross-reference stream has /DecodeParms but its content has no predictor')
        tt = Text(h.args[3])
        text = tt.flat
    i = 0
    for num in nums:
        fields = []
        for k, wk in enumerate(w):
            if i >= len(text):
                raise Malformed(f'the cross-reference stream ends before the entry of object {num}')
            if re.match(HOLE, text[i]):
                h = tt.hole(text[i])
                if h.op != 'hole' or len(h.args) != 3 or h.args[1] not in ('be', 'le'):
                    raise Unresolved('a field of the cross-reference stream')
                if h.args[1] == 'le':
                    raise Malformed('a field of the cross-reference stream is little-endian')
                if h.args[2] is not wk:
                    dd = lin_sub(h.args[2], wk)
                    if const(dd) is not None:
                        raise Malformed(f'field {k + 1} of the entry of object {num} is {const(dd)} bytes longer than /W says')
                    raise Unresolved('the width of a field of the cross-reference stream')
                fields.append(h.args[0])
                i += 1
            else:
                n = need(wk, 'the width of a field of the cross-reference stream')
                s = text[i:i + n]
                if re.search(HOLE, s):
                    raise Malformed(f'field {k + 1} of the entry of object {num} is not aligned')
                fields.append(lin(int.from_bytes(s.encode('latin-1'), 'big')))
                i += n
        ty = need(fields[0], 'the type of an entry')
        if num in r.entries:
            r.problems.append(f'object {num} has two entries')
        if ty not in (0, 1, 2):
            raise Malformed(f'the entry of object {num} has type {ty}')
        r.entries[num] = ({0: 'f', 1: 'n', 2: 'c'}[ty], fields[1], fields[2])
    if i < len(text):
        r.problems.append('the cross-reference stream has more entries than /Index says')


def _number2(self, tok):
    """Value of a zero-padded field."""
    if re.match(f'^{HOLE}$', tok):
        return self.number(tok)
    return lin(int(tok))


Text.number2 = _number2
