"""P10: each filter of a chain is undone by its own codec, in the order of the chain, and applied in the opposite order."""

import itertools

from sa.roots import *
from sa.run import analyse
from sa.lift import *

NAMES = ['/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode']
DEC = {'/FlateDecode': 'inflate', '/ASCIIHexDecode': 'unhex', '/ASCII85Decode': 'un85'}
ENC = {'/FlateDecode': 'deflate', '/ASCIIHexDecode': 'hex', '/ASCII85Decode': 'to85'}
DATA = 'data'


class Codecs(SumClient):
    """Labels are the composition of codecs applied to the data so far."""
    unroll = 8

    def __init__(self):
        SumClient.__init__(self)
        self.codecs = set()
        self.inside = set()
        self.applied = 0

    def lab(self, tn, lb):
        return lb if tn in ('str', 'bytes', 'bytearray') else frozenset()

    def slice_label(self, I, a, key, node):
        full = all(single_const(k) is not None and single_const(k).v in (None, 0) for k in key[1:2]) and single_const(key[2]) is not None and single_const(key[2]).v is None
        return a.lb if full else frozenset(wrap('part', a.lb))

    def apply(self, I, f, v, node):
        self.codecs.add(f'{f} at {where(node)}')
        self.applied += 1
        return V(T('bytes', wrap(f, I.lbs(v))))

    def on_call(self, I, fn, args, kwargs, node):
        """A function that gets the data and the parameters of one filter undoes the predictor of this filter."""
        r = SumClient.on_call(self, I, fn, args, kwargs, node)
        if r is not None or I.base_alloc or not self.columns:
            return r
        vals = list(args) + list((kwargs or {}).values() if isinstance(kwargs, dict) else [])
        got = set()
        for v in vals:
            for a in v:
                if isinstance(a, Ka) and isinstance(a.v, int):
                    got |= {i for i, c in self.columns.items() if 0 <= a.v - c <= 2}
                elif isinstance(a, Pa) and len(vals) < 4:
                    o = I.st.heap.get(a.loc)
                    if o is not None and o.kind == 'dict' and '/Columns' in o.fields and len(o.fields) == 2:
                        got |= {i for i, c in self.columns.items() if any(isinstance(k, Ka) and k.v == c for k in o.fields['/Columns'])}
        data = [v for v in vals if any(isinstance(a, Ta) and a.tn == 'bytes' and a.lb for a in v)]
        if len(got) != 1 or len(data) != 1 or fn.ref.node in self.inside:
            return None
        self.inside.add(fn.ref.node)
        n = self.applied
        try:
            r = I.call_func(fn, args, kwargs, node)
        finally:
            self.inside.discard(fn.ref.node)
        if self.applied != n or not r or not all(isinstance(a, (Ta, Ka)) and a.tn == 'bytes' and all('part(' in l for l in a.lb) for a in r):
            return r
        self.codecs.add(f'predictor at {where(node)}')
        return V(T('bytes', wrap(f'unpredict{min(got)}', I.lbs(data[0]))))

    columns = {}

    def on_ext(self, I, name, args, kwargs, node):
        if I.base_alloc or not args:
            return None
        kw = {k: single_const(v) for k, v in (kwargs or {}).items()} if isinstance(kwargs, dict) else {}
        if name == 'zlib.decompress':
            return self.apply(I, 'inflate' if not odd(args[1:], kw, ('bufsize',)) else 'inflate?', args[0], node)
        if name == 'zlib.compress':
            return self.apply(I, 'deflate' if not odd(args[2:], kw, ('level',)) else 'deflate?', args[0], node)
        if name in ('binascii.unhexlify', 'binascii.a2b_hex', 'bytes.fromhex'):
            return self.apply(I, 'unhex', args[0], node)
        if name in ('binascii.hexlify', 'binascii.b2a_hex'):
            return self.apply(I, 'hex', args[0], node)
        if name == 'base64.b16decode':
            return self.apply(I, 'unhex', args[0], node)
        if name == 'base64.b16encode':
            return self.apply(I, 'hex', args[0], node)
        if name in ('base64.a85decode', 'base64.a85encode'):
            ad = kw.get('adobe')
            f = 'un85' if name.endswith('decode') else 'to85'
            return self.apply(I, f if ad is not None and ad.v else f + '-unframed', args[0], node)
        if name in ('base64.b85decode', 'base64.b64decode', 'base64.b85encode', 'base64.b64encode', 'base64.b32decode', 'base64.b32encode', 'binascii.a2b_base64',
                    'binascii.b2a_base64', 'bz2.decompress', 'bz2.compress', 'lzma.decompress', 'lzma.compress', 'gzip.decompress', 'gzip.compress'):
            return self.apply(I, name, args[0], node)
        if name in ('bytes', 'bytearray', 'memoryview') and len(args) == 1:
            return V(T('bytes', I.lbs(args[0]))) if only(args[0], lambda a: isinstance(a, (Ta, Ka)) and a.tn == 'bytes') else None
        return None

    def on_method(self, I, recv, name, args, kwargs, node):
        if name in ('upper', 'lower', 'tobytes') and isinstance(recv, (Ta, Ka)) and recv.tn in ('str', 'bytes') and any(l.startswith('hex(') for l in recv.lb):
            return V(T(recv.tn, recv.lb))
        if name == 'hex' and isinstance(recv, (Ta, Ka)) and recv.tn == 'bytes':
            return V(T('str', wrap('hex', recv.lb)))
        return None


def odd(extra, kw, fine):
    return bool(extra) or any(k not in fine for k in kw)


def wrap(f, lb):
    # deeper compositions than any chain analysed here cannot match the expected one
    return frozenset((f'{f}({l})' if l.count('(') < 9 else l) for l in lb)


def expected(chain, decode, parms=()):
    out = DATA
    for i, f in enumerate(chain) if decode else reversed(list(enumerate(chain))):
        out = f'{(DEC if decode else ENC)[f]}({out})'
        if i in parms:
            out = f'unpredict{i}({out})'
    return out


def job(a):
    what, depth = a
    decode = what == 'decode'
    p = Program()
    c = Codecs()
    for n in range(0, depth + 1):
        for chain in itertools.product(NAMES, repeat=n):
            for form in forms(chain):
                scenario(p, c, what, decode, chain, form)
            flate = [i for i, f in enumerate(chain) if f == '/FlateDecode']
            if decode:
                for r in range(1, len(flate) + 1):
                    for parms in itertools.combinations(flate, r):
                        scenario(p, c, what, decode, chain, 'list and parameters for filter ' + ','.join(str(i + 1) for i in parms), parms)
                if chain == ('/FlateDecode',):
                    scenario(p, c, what, decode, chain, 'name and parameters', (0,))
    c.lists['codecs'] = sorted(c.codecs)
    return c.result()


def forms(chain):
    out = ['list'] if chain else ['none', 'list']
    if len(chain) == 1:
        out += ['name', 'name and empty parameters']
    if chain:
        out.append('list and null parameters')
    return out


def scenario(p, c, what, decode, chain, form, parms=()):
    c.columns = {i: 1001 + 1000 * i for i in parms}
    root = R(f'filters.{what}_stream')

    def setup(I):
        d = {}
        if form.startswith('list'):
            d['/Filter'] = list(chain)
        elif form.startswith('name'):
            d['/Filter'] = chain[0]
        if form.endswith('null parameters'):
            d['/DecodeParms'] = [None] * len(chain)
        elif form.endswith('empty parameters'):
            d['/DecodeParms'] = {}
        if parms:
            ps = [{'/Predictor': 12, '/Columns': c.columns[i]} if i in parms else None for i in range(len(chain))]
            d['/DecodeParms'] = ps if form.startswith('list') else ps[0]
        return [lift(I, Unknown('bytes', DATA)), lift(I, d)], {}
    I, v = run_root(p, c, root, setup=setup)
    c.count('filter_chains')
    c.count('statements', I.stats['stmts'])
    shown = ' '.join(chain) or 'no filter'
    want = expected(chain, decode, parms)
    key = f'{what}:{"+".join(chain) or "none"}:{form}'
    if v is None:
        c.violation(key, f'{what}_stream never returns for /Filter {shown} ({form})')
        return
    fn = I.find_func('filters', what + '_stream').ref
    at = f'{where(fn.node)} in {func_of(fn.node)}'
    good = False
    for x in v:
        if isinstance(x, Ka) and not x.lb:
            if isinstance(x.v, bytes) and x.v.startswith(b'#PDFSyntaxException') and chain:
                continue
            c.violation(key, f'{at}: {what}_stream may return the constant {x.v!r:.60} for /Filter {shown} ({form}), where the data {("decoded" if decode else "encoded")} as {want} is due')
        elif isinstance(x, (Ta, Ka)):
            lb = x.lb
            if not lb:
                good = True
                c.notes.append(f'{what} {shown}: result not tracked')
            for l in sorted(lb):
                if l == want:
                    good = True
                elif parms and 'part(' in l:
                    c.notes.append(f'{what} {shown}: the predictor is not a function of its own')
                else:
                    c.violation(key, f'{at}: {what}_stream computes {l} for /Filter {shown} ({form}), where {want} is due; codecs used: {", ".join(sorted(c.codecs))}')
        elif isinstance(x, Ua):
            c.notes.append(f'{what} {shown}: part of the result is unknown')
            good = True
        else:
            c.violation(key, f'{at}: {what}_stream returns something other than bytes for /Filter {shown} ({form})')
    if not good and not any(k == key for k in c.viol):
        if all(isinstance(x, Ka) for x in v):
            c.violation(key, f'{at}: {what}_stream never returns the data for /Filter {shown} ({form}), only an error mark')


def check(ctx):
    depth = 3 if ctx.tier == 'thorough' else 2
    analyse(ctx, job, [('decode', depth), ('encode', depth)])
    ctx.explain('Partial evaluation with label flow: decode_stream and encode_stream are analysed on arbitrary data for every chain of supported filters up to the bound, given as a '
                'name or as an array; the label of the result is the composition of codecs the data went through and must be the one the chain prescribes, in its order '
                '(opposite order for encoding).')
