"""The parser on text that the analysis has written itself: tokens and objects read from partly known text.

Evaluating the scanner of the package on text with unknown pieces would lose everything at the first piece.
For text whose structure is known (written by the package earlier in the same history) next_token and parse_obj
are taken at their word: they find the tokens that are there, and unknown pieces are taken for complete objects."""

from .pdfshape import *
from .lift import lift

DELIM = WS + '()<>[]{}/%'


class Lexed(object):
    """Text view with an index from positions."""
    cache = {}

    def __init__(self, t):
        self.t = t
        self.pos = {}
        for i in range(len(t.flat), -1, -1):
            p = t.at(i)
            if p is not None:
                self.pos[p] = i

    @classmethod
    def of(cls, a):
        if isinstance(a, Ka) and isinstance(a.v, bytes) and len(a.v) >= 4:
            x = a
        elif not isinstance(a, Ta) or a.tn not in ('bytes', 'bytearray') or a.aux is None or len(a.aux) < 2 or a.aux[1] is None:
            return None
        else:
            x = a.aux[1]
        r = cls.cache.get(x)
        if r is None:
            if len(cls.cache) > 400:
                cls.cache.clear()
            r = cls.cache[x] = cls(Text(a))
        return r if r.t.holes or x is a else None


def skip(f, i):
    while i < len(f) and f[i] in WS:
        i += 1
    return i


def scan(t, i):
    """(begin, end, type) of the next token."""
    f = t.flat
    i = skip(f, i)
    if i >= len(f):
        return None
    c = f[i]
    if f.startswith('<<', i) or c in '[(<':
        r = Reader(t, i)
        r.obj()
        return i, r.i, 'DICT' if f.startswith('<<', i) else 'ARRAY' if c == '[' else 'STRING'
    if c == '%':
        j = i
        while j < len(f) and f[j] not in '\r\n':
            j += 1
        return i, j, 'COMMENT'
    if f.startswith('stream', i):
        j = f.find('endstream', i)
        if j < 0:
            raise Malformed('endstream')
        return i, j + 9, 'STREAM'
    j = i + 1
    while j < len(f) and f[j] not in DELIM:
        j += 1
    if j >= len(f):
        return None
    s = f[i:j]
    if c == '/':
        return i, j, 'NAME'
    if c in '+-.0123456789' or re.match(HOLE, c):
        for ch in s:
            if re.match(HOLE, ch):
                t.number(ch)
        return i, j, 'REAL' if '.' in s else 'INTEGER'
    if c.isalpha() and c.isascii():
        return i, j, {'true': 'TRUE', 'false': 'FALSE'}.get(s, 'KEYWORD')
    raise Malformed(s)


def value(I, t, o, node):
    """Abstract value of an object that has been read."""
    if isinstance(o, dict):
        return {k: value(I, t, v, node) for k, v in o.items()}
    if isinstance(o, list):
        return [value(I, t, v, node) for v in o]
    if isinstance(o, Ref):
        a, b = const(o[0]), const(o[1])
        if a is None or b is None:
            raise Unresolved('a reference')
        return complex(b, a)
    if isinstance(o, Lin):
        c = const(o)
        return c if c is not None else V(T('int', NOLB, o))
    if isinstance(o, Hole):
        x = o.h
        ln = hole_len(x.args)
        return V(T('bytes', NOLB, (ln, x, None)))
    if isinstance(o, Name):
        return str(o)
    if isinstance(o, Bare):
        s = str(o)
        if s in ('true', 'false'):
            return s == 'true'
        if re.match(r'^[+-]?[0-9]+$', s):
            return int(s)
        if re.match(r'^[+-]?[0-9]*\.[0-9]*$', s) and len(s) > 1:
            return float(s)
        if re.search(HOLE, s):
            raise Unresolved('a token')
        return s.encode('latin-1') if s[0] in '(<' else s
    raise Unresolved('an object')


def start(I, lx, args):
    i = I.int_lin(args[1]) if len(args) > 1 else lin(0)
    return lx.pos.get(i) if i is not None else None


def at(lx, i):
    p = lx.t.at(i)
    if p is None:
        raise Unresolved('a position')
    c = const(p)
    return V(K(c)) if c is not None else V(T('int', NOLB, p))


def on_call(I, fn, args, kwargs, node):
    """Result of next_token and parse_obj on such text, or None."""
    q = fn.ref.qual
    if q not in ('next_token', 'parse_obj', 'next_line') or not args or len(args[0]) != 1:
        return None
    if kwargs:
        k = dict(kwargs)
        i = k.pop('i', None) or k.pop('start', None) or k.pop('start_pos', None)
        if k or i is None:
            return None
        args = [args[0], i]
    lx = Lexed.of(next(iter(args[0])))
    if lx is None:
        return None
    i = start(I, lx, args)
    if i is None:
        return None
    t = lx.t
    try:
        if q == 'next_line':
            f = t.flat
            while i < len(f) and f[i] in '\r\n':
                i += 1
            j = i
            while j < len(f) and f[j] not in '\r\n':
                j += 1
            if j >= len(f):
                return None
            return V(Tu([at(lx, i), at(lx, j)]))
        tok = scan(t, i)
        if tok is None:
            j = skip(t.flat, i)
            if q == 'next_token' and (j < len(t.flat) and t.flat[j] in '+-.0123456789' or j == len(t.flat)):
                # the text ends before a token is complete
                return V(Tu([at(lx, j if j < len(t.flat) else i), at(lx, len(t.flat)), NONE]))
            return None
        if q == 'next_token':
            return V(Tu([at(lx, tok[0]), at(lx, tok[1]), V(K(tok[2]))]))
        if tok[2] == 'DICT':
            d = Reader(t, tok[0]).obj()
            nxt = scan(t, tok[1]) if skip(t.flat, tok[1]) < len(t.flat) and t.flat.startswith('stream', skip(t.flat, tok[1])) else None
            v = lift(I, value(I, t, d, node), node)
            if nxt is None:
                return v
            f = t.flat
            a = nxt[0] + 6
            a += 2 if f.startswith('\r\n', a) else 1
            e = nxt[1] - 9
            for w in ('\r\n', '\n', '\r'):
                if f.endswith(w, a, e):
                    e -= len(w)
                    break
            enc = piece(t, a, e)
            I.push(v)
            dec = I.call_func(find(I, 'filters', 'decode_stream'), [enc, v], {}, node)
            v = I.pop()
            return I.call_value(V(*[x for x in I.program.modules['pdfsyntax.objects'].ns['Stream']]), [v, dec, enc], {}, node)
        if tok[2] in ('ARRAY', 'NAME', 'STRING', 'INTEGER', 'REAL', 'TRUE', 'FALSE', 'KEYWORD'):
            r = Reader(t, tok[0])
            o = t.number(t.flat[tok[0]:tok[1]]) if tok[2] == 'INTEGER' and not t.flat[tok[0]] in '+-' else r.obj()
            return lift(I, value(I, t, o, node), node)
    except (Malformed, Unresolved):
        return None
    return None


def find_text(I, a, args, last):
    """Position of a word in a text whose unknown pieces are complete objects or contents that do not hold it."""
    lx = Lexed.of(a)
    x = single_const(args[0])
    if lx is None or x is None or not isinstance(x.v, bytes):
        return None
    t, w = lx.t, x.v.decode('latin-1')
    hits = [m.start() for m in re.finditer('(?=' + re.escape(w) + ')', t.flat)]
    if len(args) > 1:
        b = I.int_lin(args[1])
        if b is None:
            return None
        i = lx.pos.get(b)
        if i is not None:
            hits = [h for h in hits if h >= i]
        else:
            out = []
            for h in hits:
                p = t.at(h)
                if p is None:
                    return None
                d = lin_sub(p, b)
                if d.lo() >= 0 or I.entails2(d):
                    out.append(h)
                elif not (d.hi() < 0 or I.entails2(lin_add(lin_scale(d, -1), lin(-1)))):
                    if not last or h == hits[-1]:
                        return None
            hits = out
    if not hits:
        return lin(-1)
    return t.at(hits[-1] if last else hits[0])


def shape_of(a):
    """Text of an atom that has unknown pieces."""
    if not isinstance(a, Ta) or a.tn not in ('bytes', 'str') or a.aux is None or len(a.aux) < 2 or a.aux[1] is None:
        return None
    t = Text(a)
    return t if t.holes and all(h.op == 'hole' and isinstance(h.args, tuple) for h in t.holes) else None


def numeral(h):
    a = h.args
    return h.op == 'hole' and isinstance(a, tuple) and len(a) == 2 and a[1] != '?' and isinstance(a[0], Lin)


def text_int(I, a):
    t = shape_of(a)
    if t is None:
        return None
    try:
        return t.number(t.flat.strip(WS))
    except Unresolved:
        return None


def text_bytes_int(I, a, order):
    """A number written in bytes, read again."""
    if isinstance(a, Ka) and isinstance(a.v, bytes) and order in ('big', 'little'):
        return lin(int.from_bytes(a.v, order))
    t = shape_of(a)
    if t is None:
        return None
    f = t.flat.lstrip('\0') if order == 'big' else t.flat.rstrip('\0')
    if len(f) == 1 and '\ue000' <= f <= '\uf8ff':
        h = t.hole(f)
        if len(h.args) == 3 and h.args[1] == {'big': 'be', 'little': 'le'}.get(order):
            return h.args[0]
    return None


def text_strip(I, a, name, args, node):
    """Blanks around numerals and words are taken off, or the text is split at them."""
    t = shape_of(a)
    if t is None:
        return None
    c = single_const(args[0]) if args else None
    if args and (c is None or not isinstance(c.v, (str, bytes, type(None)))):
        return None
    ch = None if c is None or c.v is None else c.v if isinstance(c.v, str) else c.v.decode('latin-1')
    if name == 'split':
        if ch is not None or not all(numeral(h) for h in t.holes):
            return None
        out, i, f = [], 0, t.flat
        for m in re.finditer('[^' + WS + ']+', f):
            out.append(piece(t, m.start(), m.end()))
        return V(P(I.new_list(node, [conv(p, a) for p in out], 'split')))
    ch = WS if ch is None else ch
    f = t.flat
    i, j = 0, len(f)
    if name != 'rstrip':
        while i < j and f[i] in ch:
            i += 1
        if i < j and '\ue000' <= f[i] <= '\uf8ff' and not (numeral(t.hole(f[i])) and not any(x in '0123456789' for x in ch)):
            return None
    if name != 'lstrip':
        while j > i and f[j - 1] in ch:
            j -= 1
        if i < j and '\ue000' <= f[j - 1] <= '\uf8ff' and not (numeral(t.hole(f[j - 1])) and not any(x in '0123456789' for x in ch)):
            return None
    try:
        return conv(piece(t, i, j), a)
    except Unresolved:
        return None


def conv(v, a):
    if a.tn == 'bytes':
        return v
    x = next(iter(v))
    return V(K(x.v.decode('latin-1'))) if isinstance(x, Ka) else V(T('str', NOLB, x.aux))


def text_digit(I, a):
    """Is the text one digit of a numeral?"""
    t = shape_of(a)
    if t is None or len(t.flat) != 1:
        return False
    h = t.holes[0].args
    return len(h) == 3 and h[0] == 'sub' and numeral(h[1][0]) and h[2] is lin(1)


def piece(t, a, e):
    """Part of a text as a value."""
    from . import rx as RX
    out = []
    n = lin(0)
    lit = ''
    for ch in t.flat[a:e]:
        if '\ue000' <= ch <= '\uf8ff':
            if lit:
                out.append(RX.lit(lit))
                n = lin_add(n, lin(len(lit)))
                lit = ''
            h = t.hole(ch)
            l = hole_len(h.args) if h.op == 'hole' else None
            if l is None:
                raise Unresolved('a length')
            n = lin_add(n, l)
            out.append(h)
        else:
            lit += ch
    if not out:
        return V(K(lit.encode('latin-1')))
    if lit:
        out.append(RX.lit(lit))
        n = lin_add(n, lin(len(lit)))
    return V(T('bytes', NOLB, (n, RX.cat(*out), None)))


def whole(x):
    """A value of the given shape."""
    t = Text(T('bytes', NOLB, (None, x, None)))
    return next(iter(piece(t, 0, len(t.flat))))


def find(I, mod, qual):
    return I.find_func(mod, qual)
