"""Partial evaluation of a sequence of public operations in one abstract state."""

from .roots import *
from .lift import *
from .heap import Fr


class Session(object):
    """Calls operations one after the other on partly known values."""

    def __init__(self, program, client, **opts):
        self.I = I = Interp(program, client, **opts)
        self.program = program
        I.fstack, I.memo = [], {}
        I.st.frames = [Fr()]
        m = program.modules['pdfsyntax']
        I.fstack = [FrameInfo(None, m.tree, 0, m)]
        self.n = 0

    def call(self, name, *args, **kw):
        """Result of the operation mod.func; None when no path returns."""
        I = self.I
        mod, qual = name.split('.', 1)
        fn = I.find_func(mod, qual)
        self.n += 1
        args = [lift(I, a) for a in args]
        kw = {k: lift(I, v) for k, v in kw.items()}
        I.fi.ctx = 1000000 + self.n
        before = I.st.copy()
        try:
            v = I.call_func(fn, args, kw, fn.ref.node)
        except Dead:
            I.st = before
            return None
        I.push(v)       # keep it alive
        return v

    def item(self, v, i):
        """Component of tuples."""
        out = set()
        for a in v or ():
            if isinstance(a, Tua) and i < len(a.items):
                out |= a.items[i]
        return frozenset(out)

    def data(self, name, tn='bytes', lo=0):
        """Unknown text of its own length."""
        ln = lin_of(sym(('len', name), lo, INF))
        from . import rx as RX
        return V(T(tn, NOLB, (ln, RX.hole(('data', name, ln)), None)))

    def number(self, name, lo=0, hi=INF):
        return V(T('int', NOLB, lin_of(sym(('num', name), lo, hi))))

    def obj(self, v):
        """The heap object a value surely is, or None."""
        if v is not None and len(v) == 1:
            a = next(iter(v))
            if isinstance(a, Pa):
                return self.I.st.heap.get(a.loc)
        return None

    def get(self, v, *path):
        """Follow keys and positions from a value; None when not known."""
        for k in path:
            if v is None:
                return None
            t = next(iter(v)) if len(v) == 1 else None
            if isinstance(t, Tua):
                v = t.items[k] if -len(t.items) <= k < len(t.items) else None
                continue
            o = self.obj(v)
            if o is None:
                return None
            if o.exact is not None and isinstance(k, int):
                v = o.exact[k] if -len(o.exact) <= k < len(o.exact) else None
            elif k in o.fields:
                v = o.fields[k]
            else:
                v = o.other or None
        return v

    def py(self, v, d=0, seen=None):
        """Readable rendering of a value for the reports and for debugging."""
        out = []
        seen = {} if seen is None else seen
        for a in v or ():
            if isinstance(a, Pa) and d < 6:
                o = self.I.st.heap.get(a.loc)
                if o is None:
                    out.append('<gone>')
                    continue
                if a.loc in seen:
                    out.append(f'#{seen[a.loc]}')
                    continue
                seen[a.loc] = len(seen)
                n = f'#{seen[a.loc]}'
                if o.exact is not None:
                    out.append(n + '[' + ', '.join(self.py(x, d + 1, seen) for x in o.exact) + ']')
                else:
                    out.append(f'{n}{o.kind}{"" if o.unique else "*"}{{' + ', '.join(f'{k!r}: {self.py(x, d + 1, seen)}' for k, x in o.fields.items()) + (f', *: {self.py(o.other, d + 1, seen)}' if o.other else '') + '}')
            elif isinstance(a, Tua):
                out.append('(' + ', '.join(self.py(x, d + 1, seen) for x in a.items) + ')')
            elif isinstance(a, Ta):
                out.append(a.tn)
            elif isinstance(a, Fna):
                out.append(f'<{a.kind}>')
            else:
                out.append(str(a)[:80])
        return out[0] if len(out) == 1 else '{' + ' | '.join(out) + '}'
