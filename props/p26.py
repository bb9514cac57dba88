"""P26: the fixed tables of the library agree with the PDF standard."""

from sa.roots import *
from sa.run import analyse
from sa.lift import *

# ISO 32000-1, annex D.2: the PDFDocEncoding codes that differ from ISO Latin 1
PDFDOC = {0x18: 0x02d8, 0x19: 0x02c7, 0x1a: 0x02c6, 0x1b: 0x02d9, 0x1c: 0x02dd, 0x1d: 0x02db, 0x1e: 0x02da, 0x1f: 0x02dc,
          0x80: 0x2022, 0x81: 0x2020, 0x82: 0x2021, 0x83: 0x2026, 0x84: 0x2014, 0x85: 0x2013, 0x86: 0x0192, 0x87: 0x2044,
          0x88: 0x2039, 0x89: 0x203a, 0x8a: 0x2212, 0x8b: 0x2030, 0x8c: 0x201e, 0x8d: 0x201c, 0x8e: 0x201d, 0x8f: 0x2018,
          0x90: 0x2019, 0x91: 0x201a, 0x92: 0x2122, 0x93: 0xfb01, 0x94: 0xfb02, 0x95: 0x0141, 0x96: 0x0152, 0x97: 0x0160,
          0x98: 0x0178, 0x99: 0x017d, 0x9a: 0x0131, 0x9b: 0x0142, 0x9c: 0x0153, 0x9d: 0x0161, 0x9e: 0x017e, 0xa0: 0x20ac}
UNDEFINED = set(range(0x18)) - {9, 10, 13} | {0x7f, 0x9f, 0xad}
ESC = {b'n': b'\n', b'r': b'\r', b't': b'\t', b'b': b'\b', b'f': b'\f', b'(': b'(', b')': b')', b'\\': b'\\'}
A_MM = {'A0': (841, 1189), 'A1': (594, 841), 'A2': (420, 594), 'A3': (297, 420), 'A4': (210, 297), 'A5': (148, 210), 'A6': (105, 148), 'A7': (74, 105),
        'A8': (52, 74), 'A9': (37, 52), 'A10': (26, 37), 'A11': (18, 26)}
US_IN = {'US Letter': (8.5, 11), 'US Legal': (8.5, 14), 'US Tabloid': (11, 17), 'US Ledger': (17, 11), 'US Executive': (7.25, 10.5)}
# constants that hold a set of PDF names or characters: name -> (module, exact contents)
SETS = [
    ('objects', 'SPACE', set(b'\x00\t\n\x0c\r ')),
    ('docstruct', 'SPACE', set(b'\x00\t\n\x0c\r ')),
    ('objects', 'EOL', set(b'\r\n')),
    ('docstruct', 'EOL', set(b'\r\n')),
    ('objects', 'DELIMITERS', set(b'()<>[]{}/%')),
    ('docstruct', 'INHERITABLE_ATTRS', {'/Resources', '/MediaBox', '/CropBox', '/Rotate'}),
    ('api', 'METADATA_ATTRS', {'/Title', '/Author', '/Subject', '/Keywords', '/Creator', '/Producer'}),
    ('filters', 'DECODED_FILTERS', {'/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode'}),
]


class Const(SumClient):
    unroll = 300


def one(v):
    """The Python value of an abstract constant, or None."""
    c = single_const(v) if v is not None else None
    return c.v if c is not None else None


def evaluate(p, c, mod, fn, *args):
    I, v = run_root(p, c, R(f'{mod}.{fn}'), setup=lambda I: ([lift(I, a) for a in args], {}))
    c.count('evaluations')
    c.count('statements', I.stats['stmts'])
    return one(v), v


def show_chars(xs):
    return ', '.join(f'{x:#04x}' for x in xs[:8])


def pdfdoc(p, c):
    codes = [x for x in range(256) if x not in UNDEFINED]
    got, _ = evaluate(p, c, 'text', 'decode_pdfdoc', bytes(codes))
    if got is None:
        c.notes.append('PDFDocEncoding: the decoding is not a constant table')
        return
    c.count('entries', len(codes))
    want = ''.join(chr(PDFDOC.get(x, x)) for x in codes)
    if got != want:
        if len(got) != len(want):
            c.violation('pdfdoc', f'text.decode_pdfdoc gives {len(got)} characters for {len(want)} codes')
            return
        bad = [x for x, a, b in zip(codes, got, want) if a != b]
        c.violation('pdfdoc', f'text.decode_pdfdoc: code {show_chars(bad)} of PDFDocEncoding gives {got[codes.index(bad[0])]!r}, the standard says {want[codes.index(bad[0])]!r}')


def escapes(p, c):
    cases = [(b'(a\\' + k + b'b)', b'(a' + v + b'b)') for k, v in ESC.items()]
    cases += [(b'(\\%03o)' % x, b'(' + bytes([x]) + b')') for x in list(range(0, 256, 15)) + [7, 8, 64, 127, 128]]
    cases += [(b'(\\q)', b'(q)'), (b'(\\z1)', b'(z1)')]
    cases += [(b'(\\0)', b'(\0)'), (b'(a\\53b)', b'(a+b)'), (b'(\\0053)', b'(\x053)'), (b'(\\53\\053)', b'(++)')]
    cases += [(b'(a\\\nb)', b'(ab)'), (b'(a\\\r\nb)', b'(ab)'), (b'(a\\\rb)', b'(ab)')]
    cases += [(b'(a\\\\(b)', b'(a\\(b)'), (b'(\\\\n)', b'(\\n)')]
    for raw, want in cases:
        got, v = evaluate(p, c, 'text', 'unescape_literal_string', raw)
        compare(c, 'text.unescape_literal_string', raw, got, want, v, 'escape:' + ascii(raw)[1:])


def compare(c, fn, raw, got, want, v, key):
    c.count('entries')
    if v is None:
        c.violation(key, f'{fn} always fails on {raw!r}, which stands for {want!r}')
    elif got is None:
        c.notes.append(f'{fn}({raw!r}) is not resolved to a constant')
    elif got != want:
        c.violation(key, f'{fn} turns {raw!r} into {got!r}, the standard says {want!r}')


def strings(p, c):
    cases = [(b'(abc)', 'abc'), (b'(\xfe\xff\x00A\x20\xac)', 'A\u20ac'), (b'<FEFF004120AC>', 'A\u20ac'), (b'<414243>', 'ABC'), (b'<80>', '\u2022'), (b'(\x80)', '\u2022'),
             (b'<feff0041>', 'A'), (b'(\\376\\377\\000A)', 'A'), (b'()', ''), (b'<>', ''), (b'(a\\(b)', 'a(b')]
    for raw, want in cases:
        got, v = evaluate(p, c, 'text', 'text_string', raw)
        compare(c, 'text.text_string', raw, got, want, v, 'text:' + ascii(raw)[1:])
    for text, want in [('abc', '(abc)'), ('a(b', '(a\\(b)'), ('a)b', '(a\\)b)'), ('a\\b', '(a\\\\b)'), ('\\()', '(\\\\\\(\\))'), ('\u20ac', '<FEFF20AC>'), ('\U0001f600', '<FEFFD83DDE00>'), ('', '()')]:
        got, v = evaluate(p, c, 'text', 'escape_text_string', text)
        if got is not None and got.upper() == want.upper():
            got = want
        compare(c, 'text.escape_text_string', text, got, want, v, 'write:' + ascii(text))


def encodings(p, c):
    for name, codec in [('/MacRomanEncoding', 'mac_roman'), ('/WinAnsiEncoding', 'cp1252')]:
        codes = bytes(x for x in range(0x20, 0x100) if x not in b'()\\\x7f\x81\x8d\x8f\x90\x9d' and x != 0xca)
        I, v = run_root(p, c, R('text.apply_encoding'), setup=lambda I: ([lift(I, name), lift(I, b'(' + codes + b')')], {}))
        c.count('evaluations')
        if v is None:
            c.violation('encoding:' + name, f'text.apply_encoding never returns for {name}')
            continue
        got = None
        for a in v:
            if isinstance(a, Tua) and a.items:
                got = one(a.items[0])
        if got is None:
            c.notes.append(f'{name} is not resolved to a constant')
            continue
        c.count('entries', len(codes))
        want = codes.decode(codec)
        if got != want:
            bad = [x for x, a, b in zip(codes, got, want) if a != b]
            c.violation('encoding:' + name, f'text.apply_encoding: code {show_chars(bad)} of {name} differs from the standard')


def const_of(I, v):
    """Python value of a constant or of a container of constants; None when not known."""
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    if isinstance(a, Ka):
        return a.v
    if isinstance(a, Tua):
        xs = [const_of(I, x) for x in a.items]
        return None if any(x is None for x in xs) else xs
    if isinstance(a, Pa):
        o = I.st.heap.get(a.loc)
        if o is None:
            return None
        if o.kind == 'dict':
            if o.other or set(o.must) != set(k for k, x in o.fields.items() if x):
                return None
            return {k: const_of(I, x) for k, x in o.fields.items()}
        if o.exact is not None:
            xs = [const_of(I, x) for x in o.exact]
            return None if any(x is None for x in xs) else xs
        xs = [const_of(I, frozenset([x])) for x in o.elems()]
        return None if not xs or any(x is None for x in xs) else xs
    return None


def constants(p, c):
    I = Interp(p, c)
    I.load_modules()
    for mod, name, want in SETS:
        m = p.modules.get('pdfsyntax.' + mod)
        v = const_of(I, m.ns.get(name)) if m is not None else None
        if v is None:
            c.notes.append(f'{mod}.{name}: no such constant')
            continue
        c.count('entries', len(want))
        got = set(v)
        if got != want:
            miss, extra = sorted(map(str, want - got)), sorted(map(str, got - want))
            c.violation(f'set:{mod}.{name}', f'{mod}.{name} {"lacks " + ", ".join(miss) if miss else ""}{" and " if miss and extra else ""}{"has " + ", ".join(extra) if extra else ""}')
    m = p.modules.get('pdfsyntax.api')
    v = const_of(I, m.ns.get('PAPER_SIZES')) if m is not None else None
    if not isinstance(v, dict):
        c.notes.append('api.PAPER_SIZES: no such constant')
    else:
        for k, size in v.items():
            if size is None or len(size) != 2 or any(x is None for x in size):
                c.notes.append(f'paper size {k} is not resolved to a constant')
                continue
            want = tuple(x / 25.4 * 72 for x in A_MM[k]) if k in A_MM else tuple(x * 72 for x in US_IN[k]) if k in US_IN else None
            if want is None:
                continue
            c.count('entries')
            if any(abs(a - b) > 1 for a, b in zip(size, want)):
                c.violation(f'paper:{k}', f'api.PAPER_SIZES: {k} is {tuple(size)} points, the standard says {tuple(round(x) for x in want)}')
    v = const_of(I, p.modules['pdfsyntax.graphics'].ns.get('IDENTITY_MATRIX')) if 'pdfsyntax.graphics' in p.modules else None
    if v is not None and [float(x) for x in v] != [1, 0, 0, 1, 0, 0]:
        c.violation('identity', f'graphics.IDENTITY_MATRIX is {v}')
    c.count('statements', I.stats['stmts'])


PARTS = {'pdfdoc': pdfdoc, 'escapes': escapes, 'strings': strings, 'encodings': encodings, 'constants': constants}


def job(part):
    p = Program()
    c = Const()
    PARTS[part](p, c)
    return c.result()


def check(ctx):
    analyse(ctx, job, list(PARTS))
    ctx.explain('Constant propagation: the tables the library computes when it is imported, and the functions that map single codes and escape sequences through them, are resolved to '
                'constants by the abstract interpreter and compared with the tables of the PDF standard. What does not resolve to a constant is listed in the notes.')
