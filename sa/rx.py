"""Hash-consed regular expressions used as the abstract domain of constructed text, with inclusion.

Bytes are treated as latin-1 text.  A Hole is a sub-string of unknown content carrying a tag; for the
language decisions it stands for a declared class of characters.
"""

import re

from .values import INF, Atom, _intern, lin, lin_add, lin_of, lin_sub, sym

LIMIT = 4000  # node budget of a single expression; beyond it the expression is given up (ANY)


class Rx(Atom):
    __slots__ = ('op', 'args', 'size')

    def __repr__(self):
        if self.op == 'lit':
            return repr(self.args)
        if self.op == 'cat':
            return ''.join(map(repr, self.args)) if all(a.op == 'lit' for a in self.args) else '(' + ' '.join(map(repr, self.args)) + ')'
        if self.op == 'alt':
            return '(' + '|'.join(map(repr, self.args)) + ')'
        if self.op == 'star':
            return repr(self.args) + '*'
        if self.op == 'hole':
            return f'<{self.args}>'
        if self.op == 'rep':
            return f'[{self.args[0]}]{{{self.args[1]},{self.args[2]}}}'
        return self.op


def _mk(op, args, size):
    def build():
        a = Rx()
        a.op, a.args, a.size = op, args, size
        return a
    return _intern(('Rx', op, args), build)


EPS = _mk('lit', '', 1)


def lit(s):
    if isinstance(s, (bytes, bytearray)):
        s = bytes(s).decode('latin-1')
    return _mk('lit', s, 1)


def hole(tag):
    """Unknown text; tag names the class of texts it may be."""
    return _mk('hole', tag, 1)


ANY = hole('any')


def rep(cls, lo, hi):
    """lo..hi characters of the class named cls (hi None = unbounded)."""
    return _mk('rep', (cls, lo, hi), 1)


def cat(*xs):
    out = []
    for x in xs:
        if x is None:
            return None
        for y in (x.args if x.op == 'cat' else (x,)):
            if y is EPS:
                continue
            if out and out[-1].op == 'lit' and y.op == 'lit':
                out[-1] = lit(out[-1].args + y.args)
            else:
                out.append(y)
    if not out:
        return EPS
    if len(out) == 1:
        return out[0]
    size = 1 + sum(x.size for x in out)
    if size > LIMIT:
        return ANY
    return _mk('cat', tuple(out), size)


def alt(*xs):
    out = []
    for x in xs:
        if x is None:
            return None
        for y in (x.args if x.op == 'alt' else (x,)):
            if y not in out:
                out.append(y)
    if ANY in out:
        return ANY
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda a: a._h)
    size = 1 + sum(x.size for x in out)
    if size > LIMIT:
        return ANY
    return _mk('alt', tuple(out), size)


def star(x):
    if x is EPS:
        return EPS
    if x is ANY:
        return ANY
    if x.op == 'star':
        return x
    if x.op == 'alt' and EPS in x.args:
        x = alt(*[y for y in x.args if y is not EPS])
    return _mk('star', x, x.size + 1)


def parts(x):
    return list(x.args) if x.op == 'cat' else ([] if x is EPS else [x])


def hole_len(args):
    """Length of a hole as an affine form; None when unknown."""
    if not isinstance(args, tuple):
        return None
    if args[0] in ('data', 'enc', 'sub'):
        return args[2]
    if len(args) == 3 and args[1] in ('be', 'le'):
        return args[2]
    l, f = args[0], args[1]
    if f == '?':
        return l
    m = re.match(r'^0(\d+)$', f)
    if m:
        return lin(int(m.group(1)))
    if f == '':
        return lin_of(sym(('digits', l), 1, 20))
    return None


def part_len(p):
    if p.op == 'lit':
        return lin(len(p.args))
    if p.op == 'hole':
        return hole_len(p.args)
    return None


def slice_at(x, lo, hi):
    """The part of x between two positions (affine forms); None when not known."""
    out = []
    pos = lin(0)
    on = False
    for p in parts(x) + [None]:
        n = part_len(p) if p is not None else lin(0)
        if n is None:
            return None
        a, b = lin(0), n
        if not on:
            d = lin_sub(lo, pos)
            if p is None:
                if d is not lin(0):
                    return None
                on = True
            elif d is lin(0):
                on = True
            elif d.lo() >= 0 and lin_sub(n, d).lo() >= (1 if p.op == 'lit' else 0):
                if d is n:
                    pos = lin_add(pos, n)
                    continue
                a, on = d, True
            else:
                if lin_sub(d, n).lo() < 0:
                    return None
                pos = lin_add(pos, n)
                continue
        d = lin_sub(hi, pos)
        done = False
        if d is lin(0) and a is lin(0):
            return cat(*out) if out else EPS
        if p is None:
            return None
        if d is n:
            done = True
        elif d.lo() >= 0 and lin_sub(n, d).lo() >= 0:
            b, done = d, True
        elif lin_sub(d, n).lo() < 0:
            return None
        if a is lin(0) and b is n:
            out.append(p)
        elif p.op == 'lit':
            if a.terms or b.terms:
                return None
            out.append(lit(p.args[a.c:b.c]))
        else:
            if lin_sub(b, a).lo() < 0:
                return None
            out.append(hole(('sub', (p, a), lin_sub(b, a))))
        if done:
            return cat(*out)
        pos = lin_add(pos, n)
    return None


def find_at(x, needle, last=False):
    """Position of the first (last) occurrence of a text, -1, or None when not known."""
    ps = parts(x)
    if not needle or any(c.isdigit() for c in needle):
        return None
    starts = []
    pos = lin(0)
    for p in ps:
        starts.append(pos)
        n = part_len(p)
        pos = None if n is None or pos is None else lin_add(pos, n)

    def opaque(p):
        return not (p.op == 'lit' or p.op == 'hole' and isinstance(p.args, tuple) and p.args[0] not in ('data', 'enc', 'sub') and p.args[1] not in ('?', 'be', 'le'))
    for i in (range(len(ps) - 1, -1, -1) if last else range(len(ps))):
        p = ps[i]
        if opaque(p):
            return None
        if p.op == 'lit':
            k = p.args.rfind(needle) if last else p.args.find(needle)
            if k >= 0:
                return lin_add(starts[i], lin(k)) if starts[i] is not None else None
            # an occurrence that starts here and runs into an unknown piece
            if not last and i + 1 < len(ps) and opaque(ps[i + 1]) and any(p.args.endswith(needle[:j]) for j in range(1, len(needle))):
                return None
    return lin(-1)


def strip_prefix(x, prefix):
    """y with x == prefix.y when that is syntactically evident, else None."""
    if prefix is EPS:
        return x
    if x is prefix:
        return EPS
    px, pp = parts(x), parts(prefix)
    i = 0
    while i < len(pp):
        if i >= len(px):
            return None
        if px[i] is pp[i]:
            i += 1
            continue
        if i == len(pp) - 1 and px[i].op == 'lit' and pp[i].op == 'lit' and px[i].args.startswith(pp[i].args):
            return cat(lit(px[i].args[len(pp[i].args):]), *px[i + 1:])
        return None
    return cat(*px[i:])


def widen(old, new):
    """Generalise old -> new at a loop head: old.delta becomes old.(delta)*."""
    if old is new:
        return old
    po = parts(old)
    base, st = old, None
    if po and po[-1].op == 'star':
        base, st = cat(*po[:-1]), po[-1].args
    d = strip_prefix(new, old)
    if d is None and new.op == 'alt':
        ds = [strip_prefix(y, old) for y in new.args]
        if all(x is not None for x in ds):
            d = alt(*ds)
    if d is not None:
        return cat(base, star(alt(st, d) if st is not None else d)) if base is not ANY else ANY
    if st is not None:
        d = strip_prefix(new, base)
        if d is not None and d.op == 'star':
            return cat(base, star(alt(st, d.args)))
    return ANY


# ---------------------------------------------------------------- inclusion

DIGITS = '0123456789'
CLASSES = {'digit': set(DIGITS)}


def _alphabet(exprs, classes):
    chars = set()
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'lit':
            chars.update(x.args)
        elif x.op in ('cat', 'alt'):
            for y in x.args:
                walk(y)
        elif x.op == 'star':
            walk(x.args)
    for e in exprs:
        walk(e)
    for c in classes.values():
        if c is not None:
            chars |= {x for x in c}
    return chars


class Nfa:
    """Thompson construction; a class of None means every character."""

    def __init__(self, holes):
        self.eps = []
        self.tr = []
        self.holes = holes

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, x):
        if x.op == 'lit':
            s = a = self.new()
            for ch in x.args:
                b = self.new()
                self.tr[a].append((frozenset(ch), b))
                a = b
            return s, a
        if x.op == 'cat':
            s, e = None, None
            for y in x.args:
                a, b = self.build(y)
                if s is None:
                    s = a
                else:
                    self.eps[e].append(a)
                e = b
            return s, e
        if x.op == 'alt':
            s, e = self.new(), self.new()
            for y in x.args:
                a, b = self.build(y)
                self.eps[s].append(a)
                self.eps[b].append(e)
            return s, e
        if x.op == 'star':
            s = self.new()
            a, b = self.build(x.args)
            self.eps[s].append(a)
            self.eps[b].append(s)
            return s, s
        if x.op == 'hole':
            h = self.holes(x.args)
            if isinstance(h, Rx):
                return self.build(h)
            s = self.new()
            self.tr[s].append((h, s))
            return s, s
        if x.op == 'rep':
            cls, lo, hi = x.args
            c = frozenset(CLASSES[cls]) if isinstance(cls, str) else cls
            s = a = self.new()
            for _ in range(lo):
                b = self.new()
                self.tr[a].append((c, b))
                a = b
            if hi is None:
                self.tr[a].append((c, a))
                return s, a
            e = self.new()
            self.eps[a].append(e)
            for _ in range(hi - lo):
                b = self.new()
                self.tr[a].append((c, b))
                a = b
                self.eps[a].append(e)
            return s, e
        raise ValueError(x.op)

    def closure(self, states):
        out = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for t in self.eps[s]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def step(self, states, ch):
        out = set()
        for s in states:
            for c, t in self.tr[s]:
                if c is None or ch in c:
                    out.add(t)
        return self.closure(out)


OTHER = '\uffff'  # stands for every character not named anywhere


def included(x, spec, holes, classes=()):
    """None if L(x) <= L(spec), else a witness string. holes(tag) -> set of chars (None = any) or Rx."""
    chars = _alphabet([x, spec], {i: c for i, c in enumerate(classes)})
    chars |= set(DIGITS)
    alpha = sorted(chars) + [OTHER]
    a, b = Nfa(holes), Nfa(holes)
    s1, e1 = a.build(x)
    s2, e2 = b.build(spec)
    start = (a.closure([s1]), b.closure([s2]))
    seen = {start: ''}
    todo = [start]
    while todo:
        nxt = []
        for st in todo:
            p, q = st
            if e1 in p and e2 not in q:
                return seen[st]
            for ch in alpha:
                p2 = a.step(p, ch)
                if not p2:
                    continue
                k = (p2, b.step(q, ch))
                if k not in seen:
                    seen[k] = seen[st] + ch
                    nxt.append(k)
        todo = nxt
        if len(seen) > 60000:
            raise RuntimeError('language inclusion: state budget exceeded')
    return None
