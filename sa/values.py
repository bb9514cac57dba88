"""Abstract values: hash-consed atoms, sets of atoms, affine integer forms and their joins.

A value is a frozenset of atoms (a may-set).  Every atom is interned, so equality is identity.
"""

_serial = [0]
_table = {}


def _intern(key, build):
    a = _table.get(key)
    if a is None:
        a = build()
        _serial[0] += 1
        a._h = hash(_serial[0] * 2654435761 & 0xffffffff)
        _table[key] = a
    return a


class Atom(object):
    __slots__ = ('_h',)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other


NOLB = frozenset()


class Ka(Atom):
    """A constant of an immutable scalar type."""
    __slots__ = ('tn', 'v', 'lb')

    def __repr__(self):
        return repr(self.v) + (str(sorted(map(str, self.lb))) if self.lb else '')


class Ta(Atom):
    """Any value of a scalar type (int, str, bytes, ...), with labels and an optional refinement."""
    __slots__ = ('tn', 'lb', 'aux')

    def __repr__(self):
        return self.tn + (str(sorted(map(str, self.lb))) if self.lb else '') + (f'{{{self.aux}}}' if self.aux is not None else '')


class Pa(Atom):
    """A reference to a heap object."""
    __slots__ = ('loc',)

    def __repr__(self):
        return '&' + locname(self.loc)


class Tua(Atom):
    """An immutable tuple (or namedtuple) of known arity."""
    __slots__ = ('items', 'cls')

    def __repr__(self):
        return (self.cls or '') + '(' + ', '.join(map(show, self.items)) + ')'


class Fna(Atom):
    """A callable: kind in func/closure/builtin/ext/class/bound/module."""
    __slots__ = ('kind', 'ref', 'extra')

    def __repr__(self):
        return f'<{self.kind} {getattr(self.ref, "qual", self.ref)}>'


class Ua(Atom):
    """Unknown value about which nothing but labels is tracked."""
    __slots__ = ('lb',)

    def __repr__(self):
        return '?' + (str(sorted(map(str, self.lb))) if self.lb else '')


class UNBa(Atom):
    __slots__ = ()

    def __repr__(self):
        return 'UNBOUND'


def K(v, lb=NOLB):
    tn = type(v).__name__
    kv = v
    if tn == 'float':
        kv = repr(v)
    elif tn == 'complex':
        kv = repr(v)
    if tn == 'NoneType':
        tn = 'none'

    def build():
        a = Ka()
        a.tn, a.v, a.lb = tn, v, lb
        return a
    return _intern(('K', tn, kv, lb), build)


def T(tn, lb=NOLB, aux=None):
    def build():
        a = Ta()
        a.tn, a.lb, a.aux = tn, lb, aux
        return a
    return _intern(('T', tn, lb, aux), build)


def P(loc):
    def build():
        a = Pa()
        a.loc = loc
        return a
    return _intern(('P', loc), build)


def Tu(items, cls=None):
    items = tuple(items)

    def build():
        a = Tua()
        a.items, a.cls = items, cls
        return a
    return _intern(('Tu', items, cls), build)


def Fn(kind, ref, extra=None):
    def build():
        a = Fna()
        a.kind, a.ref, a.extra = kind, ref, extra
        return a
    return _intern(('Fn', kind, ref, extra), build)


def U(lb=NOLB):
    def build():
        a = Ua()
        a.lb = lb
        return a
    return _intern(('U', lb), build)


UNB = _intern(('UNB',), UNBa)
EMPTY = frozenset()


def V(*atoms):
    return frozenset(atoms)


NONE = V(K(None))
TRUE = V(K(True))
FALSE = V(K(False))
BOOL = V(T('bool'))
INT = V(T('int'))
STR = V(T('str'))
BYTES = V(T('bytes'))
UNK = V(U())


def locname(loc):
    if isinstance(loc, tuple):
        return '/'.join(locname(x) for x in loc if x != ())
    return str(loc)


def show(val):
    if len(val) == 1:
        return repr(next(iter(val)))
    return '{' + ', '.join(sorted(map(repr, val))) + '}'


# ---------------------------------------------------------------- affine integer forms

INF = float('inf')


class Sym(Atom):
    """An unknown integer with a range; identity is its key."""
    __slots__ = ('key', 'lo', 'hi')

    def __repr__(self):
        k = self.key
        if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, str) for x in k):
            return f'{k[0]}({k[1]})'
        return f's{id(self) % 99991}'


def sym(key, lo=-INF, hi=INF):
    def build():
        a = Sym()
        a.key, a.lo, a.hi = key, lo, hi
        return a
    return _intern(('Sym', key, lo, hi), build)


class Lin(Atom):
    """const + sum(coef * sym)."""
    __slots__ = ('c', 'terms')

    def __repr__(self):
        out = []
        for s, k in self.terms:
            out.append((f'{k}*' if k != 1 else '') + str(s))
        if self.c or not out:
            out.append(str(self.c))
        return '+'.join(out)

    def lo(self):
        r = self.c
        for s, k in self.terms:
            r += k * (s.lo if k > 0 else s.hi)
        return r

    def hi(self):
        r = self.c
        for s, k in self.terms:
            r += k * (s.hi if k > 0 else s.lo)
        return r


def lin(c, terms=()):
    terms = tuple(sorted(((s, k) for s, k in terms if k), key=lambda x: x[0]._h))

    def build():
        a = Lin()
        a.c, a.terms = c, terms
        return a
    return _intern(('Lin', c, terms), build)


def lin_of(s):
    return lin(0, ((s, 1),))


def lin_add(a, b, sign=1):
    d = dict(a.terms)
    for s, k in b.terms:
        d[s] = d.get(s, 0) + sign * k
    return lin(a.c + sign * b.c, d.items())


def lin_sub(a, b):
    return lin_add(a, b, -1)


def lin_scale(a, n):
    return lin(a.c * n, [(s, k * n) for s, k in a.terms])


def lin_subst(a, m):
    """Replace symbols by the affine forms in m."""
    if not any(s in m for s, _ in a.terms):
        return a
    r = lin(a.c)
    for s, k in a.terms:
        r = lin_add(r, lin_scale(m.get(s) or lin_of(s), k))
    return r


# ---------------------------------------------------------------- helpers on values

def labels(val):
    """All labels of the scalars of a value (not followed through the heap)."""
    out = set()
    for a in val:
        if isinstance(a, (Ka, Ta, Ua)):
            out |= a.lb
        elif isinstance(a, Tua):
            for i in a.items:
                out |= labels(i)
    return frozenset(out)


def with_labels(val, lb, keep=lambda a: True):
    if not lb:
        return val
    out = []
    for a in val:
        if isinstance(a, Ka) and keep(a):
            out.append(K(a.v, a.lb | lb))
        elif isinstance(a, Ta) and keep(a):
            out.append(T(a.tn, a.lb | lb, a.aux))
        elif isinstance(a, Ua):
            out.append(U(a.lb | lb))
        else:
            out.append(a)
    return frozenset(out)


def consts(val):
    """List of the constants if every atom is a constant, else None."""
    out = []
    for a in val:
        if not isinstance(a, Ka):
            return None
        out.append(a.v)
    return out


def single_const(val):
    """The (Ka,) atom if val is exactly one constant."""
    if len(val) == 1:
        a = next(iter(val))
        if isinstance(a, Ka):
            return a
    return None


def locs(val):
    return [a.loc for a in val if isinstance(a, Pa)]


def tname(a):
    if isinstance(a, (Ka, Ta)):
        return a.tn
    return None


def may_none(val):
    return any(isinstance(a, Ka) and a.v is None for a in val) 


def only(val, pred):
    return frozenset(a for a in val if pred(a))


class SymKey(object):
    """A number given by an affine form, as a key."""
    __slots__ = ('lin',)
    table = {}

    def __repr__(self):
        return f'<{self.lin}>'

    @classmethod
    def of(cls, l):
        k = cls.table.get(l)
        if k is None:
            k = cls.table[l] = cls()
            k.lin = l
        return k


def key_atom(k):
    """The value of a key."""
    return T('int', NOLB, k.lin) if isinstance(k, SymKey) else K(k)
