"""Abstract heap objects and analysis states."""

from .values import *


class Obj(object):
    """One abstract heap object.  Treated as immutable: use upd()."""
    __slots__ = ('kind', 'cls', 'fields', 'must', 'other', 'okeys', 'exact', 'ln', 'unique', 'tags', 'site')

    def __init__(self, kind, cls=None, fields=None, must=frozenset(), other=EMPTY, okeys=EMPTY,
                 exact=None, ln=None, unique=True, tags=frozenset(), site=None):
        self.kind = kind          # dict list set inst env iter file
        self.cls = cls            # class name of an instance
        self.fields = fields if fields is not None else {}   # constant key -> Val (EMPTY = certainly absent)
        self.must = must          # keys certainly present
        self.other = other        # Val of every other key / element
        self.okeys = okeys        # Val of the other keys (dict) -- unused for lists
        self.exact = exact        # tuple of Val when the list contents are known position by position
        self.ln = ln              # Lin length of a list, when tracked
        self.unique = unique      # stands for exactly one concrete object
        self.tags = tags
        self.site = site

    def upd(self, **kw):
        o = Obj(self.kind, self.cls, self.fields, self.must, self.other, self.okeys, self.exact, self.ln,
                self.unique, self.tags, self.site)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return (self is o or (self.kind == o.kind and self.other == o.other and self.fields == o.fields
                and self.must == o.must and self.okeys == o.okeys and self.exact == o.exact
                and self.ln is o.ln and self.unique == o.unique and self.tags == o.tags and self.cls == o.cls))

    def values(self):
        if self.exact is not None:
            for v in self.exact:
                yield v
        for v in self.fields.values():
            yield v
        yield self.other
        yield self.okeys

    def elems(self):
        """May-values of all elements / values."""
        out = set(self.other)
        for v in self.fields.values():
            out |= v
        if self.exact is not None:
            for v in self.exact:
                out |= v
        return frozenset(out)

    def __repr__(self):
        s = self.kind + (':' + self.cls if self.cls else '') + ('' if self.unique else '*')
        if self.exact is not None:
            s += ' [' + ', '.join(map(show, self.exact[:8])) + ']'
        if self.fields:
            s += ' {' + ', '.join(f'{k!r}{"!" if k in self.must else ""}: {show(v)}' for k, v in self.fields.items()) + '}'
        if self.other:
            s += ' other=' + show(self.other)
        if self.ln is not None:
            s += f' len={self.ln}'
        if self.tags:
            s += ' #' + ','.join(sorted(map(str, self.tags)))
        return s


class Fr(object):
    """Variables of one activation, with facts about places and named conditions."""
    __slots__ = ('vars', 'pf', 'cf')

    def __init__(self, vars=None, pf=None, cf=None):
        self.vars = vars if vars is not None else {}
        self.pf = pf if pf is not None else {}    # place text -> (Val, names, locs)
        self.cf = cf if cf is not None else {}    # variable -> (condition ast, names)

    def copy(self):
        return Fr(dict(self.vars), dict(self.pf), dict(self.cf))


class State(object):
    __slots__ = ('heap', 'frames', 'temps', 'ghost', 'facts')

    def __init__(self):
        self.heap = {}
        self.frames = []
        self.temps = []
        self.ghost = {}
        self.facts = frozenset()

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].copy()
        s.temps = list(self.temps)
        s.ghost = dict(self.ghost)
        s.facts = self.facts
        return s
