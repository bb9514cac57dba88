"""Abstract interpreter for the Python subset used by the program (values.py / heap.py domains).

Flow-sensitive, calls inlined per call string, recursion by summaries, loops by widening to a fixpoint.
Nothing of the analysed program is executed.
"""

import ast
import builtins as _py

from .values import *
from .heap import *
from .model import *
from . import rx as RX

MAXK = 24
LITERAL_OPS = (ast.Add, ast.Sub)


class Dead(Exception):
    """The current path ends here (certain exception, or infeasible)."""


class Restart(Exception):
    def __init__(self, fn):
        self.fn = fn


import os
import time
DEBUG_REC = os.environ.get('SA_DEBUG_REC')


ROOT_LIMIT = 420        # seconds for one root


class Client(object):
    """Observer of one analysis; every hook has a neutral default."""

    exact_exc = False       # only statements that fail for sure, raise, or call something of unknown outcome lead to the exception handlers

    def on_write(self, I, loc, obj, key, val, node, how): pass
    def on_call(self, I, fn, args, kwargs, node): pass
    def on_return(self, I, fn, val, node): pass
    def on_ext(self, I, name, args, kwargs, node): return None
    def on_unknown_call(self, I, f, args, node): pass
    def on_none(self, I, node, what): pass
    def on_unbound(self, I, node, name): pass
    def on_bad(self, I, node, what): pass
    def on_name_error(self, I, node, name): pass
    def on_global_write(self, I, node, name): pass
    def on_loop(self, I, node, what, data): pass
    def on_iter(self, I, val, node): pass
    def on_raise(self, I, node): pass
    def on_method(self, I, recv, name, args, kwargs, node): return None
    def fmt_label(self, I, lb, spec, node): return lb
    def lab(self, tn, lb): return lb
    def const_refine(self, lb): return lb


class FrameInfo(object):
    __slots__ = ('fn', 'node', 'ctx', 'rets', 'env', 'envs', 'loops', 'module', 'retvals', 'yields', 'globals_', 'nonlocals', 'params', 'locals_')

    def __init__(self, fn, node, ctx, module):
        self.fn, self.node, self.ctx, self.module = fn, node, ctx, module
        self.rets = []
        self.env = None
        self.envs = []
        self.loops = []
        self.yields = None
        self.globals_ = set()
        self.nonlocals = set()
        self.locals_ = None


class Rec(object):
    def __init__(self):
        self.entry = None
        self.exit = None
        self.args = None
        self.dirty = False


class Loop(object):
    __slots__ = ('breaks', 'conts', 'depth')

    def __init__(self):
        self.breaks, self.conts = [], []


_ctx_table = {}


def mkctx(parent, node):
    k = (parent, getattr(node, '_mod', None) and node._mod.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__)
    r = _ctx_table.get(k)
    if r is None:
        r = len(_ctx_table) + 1
        _ctx_table[k] = r
    return r


def itctx(parent, node, i):
    """The context of one iteration of an unrolled loop."""
    k = (parent, node_id(node), 'it', i)
    r = _ctx_table.get(k)
    if r is None:
        r = len(_ctx_table) + 1
        _ctx_table[k] = r
    return r


def node_id(node):
    m = getattr(node, '_mod', None)
    return (m.name.split('.')[-1] if m else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), getattr(node, 'end_col_offset', 0))


from .builtins_ import BuiltinMixin  # noqa: E402


class Interp(BuiltinMixin):
    store_pf = {}
    def __init__(self, program, client=None, numeric=False, shapes=False, terms=False, max_depth=60):
        self.program = program
        self.client = client or Client()
        self.numeric, self.shapes, self.terms = numeric, shapes, terms
        self.lin_holes = numeric and shapes and getattr(client, 'lin_holes', False)
        self.scenario = getattr(client, 'unroll', 0) > 0
        self.max_depth = max_depth
        self.deadline = time.time() + ROOT_LIMIT
        self.st = State()
        self.fstack = []
        self.try_stack = []
        self.may_exc = False
        self.guards = []
        self.rel, self.overflow = {}, []     # what symbols stand for; values that may not fit
        self.recs = {}
        self.recursive = set()
        self.classes = {}
        self.funcs = {}          # qual -> FuncObj
        self.literals = set()
        self.stats = {'calls': 0, 'functions': set(), 'loops': 0, 'writes': 0, 'stmts': 0}
        self.memo = {}
        self.symlog = None
        self.unsupported = []
        self.peel = True
        self.sets_elems = True
        for m in program.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, str, bytes, float)):
                    try:
                        self.literals.add((type(n.value), n.value))
                    except TypeError:
                        pass
        self.base_alloc = True
        self.load_modules()
        self.base_alloc = False

    # ------------------------------------------------------------ modules

    def load_modules(self):
        for name in self.program.modules:
            if not name.endswith('__main__'):
                self.load_module(name)
        self.base = self.st
        self.base.frames = []

    def load_module(self, name):
        m = self.program.modules[name]
        if m.ready:
            if getattr(m, 'owner', None) is self:
                return m
        m.ready, m.owner, m.ns = True, self, {}
        fi = FrameInfo(None, m.tree, 0, m)
        self.fstack.append(fi)
        self.st.frames.append(Fr())
        m.ns['__name__'] = V(K(name))
        for s in m.tree.body:
            try:
                self.exec_stmt(s)
            except Dead:
                pass
            if self.st is None:
                raise AnalysisBroken(f'module {name}: top level dies at {where(s)}')
        fr = self.st.frames.pop()
        self.fstack.pop()
        for k, v in fr.vars.items():
            m.ns[k] = v
        # heap objects owned by the module are global state
        for k, v in m.ns.items():
            for a in v:
                if isinstance(a, Pa):
                    self.tag_reach(a.loc, 'global:' + name + '.' + k)
        return m

    def tag_reach(self, loc, tag, seen=None):
        seen = seen if seen is not None else set()
        if loc in seen or loc not in self.st.heap:
            return
        seen.add(loc)
        o = self.st.heap[loc]
        if not any(str(t).startswith('global:') for t in o.tags):
            self.st.heap[loc] = o.upd(tags=o.tags | {tag})
        for v in o.values():
            for a in v:
                if isinstance(a, Pa):
                    self.tag_reach(a.loc, tag, seen)

    def find_func(self, modname, qual):
        """The function object bound to a public name, following re-exports."""
        m = self.program.modules.get(PKG + '.' + modname if modname else PKG)
        if m is None:
            raise AnalysisBroken(f'module {modname} is missing')
        parts_ = qual.split('.')
        v = m.ns.get(parts_[0])
        for p in parts_[1:]:
            nv = None
            for a in v or ():
                if isinstance(a, Fna) and a.kind == 'class':
                    nv = a.ref.lookup(p)
            v = nv
        if v:
            for a in v:
                if isinstance(a, Fna) and a.kind in ('func', 'class'):
                    return a
        raise AnalysisBroken(f'public function {modname}.{qual} is missing')

    # ------------------------------------------------------------ small helpers

    @property
    def fr(self):
        return self.st.frames[-1]

    @property
    def fi(self):
        return self.fstack[-1]

    def push(self, v):
        self.st.temps.append(v)

    def pop(self):
        return self.st.temps.pop()

    def path(self):
        """Call chain of the current point, outermost first."""
        out = []
        for f in self.fstack:
            if f.fn is not None:
                out.append(f.fn.qual)
        return out

    def in_rec(self):
        return bool(self.recs)

    # ------------------------------------------------------------ joins

    def join_vals(self, a, b, key=None):
        if a is b or a == b:
            return a
        return self.norm(a | b, key)

    def norm(self, u, key=None):
        n = len(u)
        if n <= 1:
            return u
        byt = {}
        tups = {}
        rest = []
        for x in u:
            if isinstance(x, (Ka, Ta)):
                byt.setdefault(x.tn, []).append(x)
            elif isinstance(x, Tua):
                tups.setdefault((x.cls, len(x.items)), []).append(x)
            else:
                rest.append(x)
        out = list(rest)
        for tn, xs in byt.items():
            if len(xs) > 1:
                xs = self.norm_scalars(tn, xs, key)
            out.extend(xs)
        for (cls, n_), xs in tups.items():
            if len(xs) > 4:
                items = list(xs[0].items)
                for x in xs[1:]:
                    items = [self.join_vals(p, q, key) for p, q in zip(items, x.items)]
                xs = [Tu(items, cls)]
            out.extend(xs)
        if len([1 for x in rest if isinstance(x, Ua)]) > 6:
            lb = frozenset().union(*[x.lb for x in rest if isinstance(x, Ua)])
            out = [x for x in out if not isinstance(x, Ua)] + [U(lb)]
        return frozenset(out)

    def norm_scalars(self, tn, xs, key):
        ts = [x for x in xs if isinstance(x, Ta)]
        ks = [x for x in xs if isinstance(x, Ka)]
        if tn == 'int' and self.numeric:
            if ts:
                lb = frozenset().union(*[x.lb for x in xs])
                ls = []
                for x in xs:
                    l = lin(x.v) if isinstance(x, Ka) else x.aux
                    if l is None:
                        return [T('int', lb)]
                    if l not in ls:
                        ls.append(l)
                cur = ls[0]
                for l in ls[1:]:
                    cur = self.phi(cur, l, key)
                return [T('int', lb, cur)]
            if len(ks) > MAXK:
                lb = frozenset().union(*[x.lb for x in xs])
                vs = [k.v for k in ks]
                return [T('int', lb, lin_of(sym(('kset', key, min(vs), max(vs)), min(vs), max(vs))))]
            return xs
        if tn in ('str', 'bytes') and (self.shapes or self.terms or self.numeric):
            if len(xs) <= 6:
                return xs
            if ts or len(ks) > MAXK:
                lb = frozenset().union(*[x.lb for x in xs])
                return [T(tn, lb, self.join_saux([self.saux(x) for x in xs], key))]
            return xs
        if tn == 'bool' and len(ks) + len(ts) > 1:
            lb = frozenset().union(*[x.lb for x in xs])
            return [T('bool', lb)]
        if tn == 'none':
            lb = frozenset().union(*[x.lb for x in xs])
            return [K(None, lb)]
        auxs = {x.aux for x in ts}
        if len(auxs) > 1 and self.terms:
            if len(xs) <= 6:
                return xs
            ts = [T(tn, frozenset().union(*[x.lb for x in ts]))]
        if ts:
            keep = []
            for k in ks:
                if not any(k.lb <= t.lb for t in ts):
                    keep.append(k)
            if len(keep) > 6 or len(ts) > 6:
                lb = frozenset().union(*[x.lb for x in xs])
                return [T(tn, lb)]
            return ts + keep
        if len(ks) > MAXK:
            lb = frozenset().union(*[x.lb for x in xs])
            return [T(tn, lb)]
        return xs

    # string refinements: (length Lin, regex, term)
    def saux(self, a):
        if isinstance(a, Ka):
            if a.tn not in ('str', 'bytes'):
                return (None, None, None)
            return (lin(len(a.v)) if self.numeric else None, RX.lit(a.v) if self.shapes else None,
                    ('const', a.v) if self.terms else None)
        return a.aux or (None, None, None)

    def mk_saux(self, ln=None, rx=None, term=None):
        if ln is None and rx is None and term is None:
            return None
        return (ln, rx, term)

    def join_saux(self, auxs, key):
        ln, rx, term = auxs[0]
        for l, r, t in auxs[1:]:
            ln = self.phi(ln, l, key) if ln is not None and l is not None else None
            rx = RX.alt(rx, r) if rx is not None and r is not None else None
            term = term if term == t else None
        return self.mk_saux(ln, rx, term)

    def phi(self, a, b, key):
        """Affine form standing for a or b; equal differences at one merge point share one symbol."""
        if a is b:
            return a
        d = lin_sub(b, a)
        lo, hi = min(0, d.lo()), max(0, d.hi())
        if key is None:
            key = ('anon',)
        s = sym(('phi', key, d), lo, hi)
        if self.symlog is not None:
            self.symlog.add(s)
        return lin_add(a, lin_of(s))

    def join_objs(self, a, b, key):
        if a.same(b):
            return a
        if a.kind != b.kind:
            kind = 'mixed'
        else:
            kind = a.kind
        exact = None
        A, B = a, b
        if a.exact is not None and b.exact is not None and len(a.exact) == len(b.exact):
            exact = tuple(self.join_vals(x, y, key) for x, y in zip(a.exact, b.exact))
        else:
            A, B = self.unexact(a), self.unexact(b)
        fields = {}
        for k in list(A.fields) + [k for k in B.fields if k not in A.fields]:
            va = A.fields.get(k)
            vb = B.fields.get(k)
            if va is None:
                va = A.other
            if vb is None:
                vb = B.other
            fields[k] = self.join_vals(va, vb, key)
        ln = None
        if A.ln is not None and B.ln is not None:
            ln = self.phi(A.ln, B.ln, key)
        return Obj(kind, a.cls if a.cls == b.cls else None, fields, A.must & B.must, self.join_vals(A.other, B.other, key),
                   self.join_vals(A.okeys, B.okeys, key), exact, ln, a.unique and b.unique, a.tags | b.tags, a.site)

    def unexact(self, o):
        """Forget positions: elements go to `other` (short lists keep constant indices)."""
        if o.exact is None:
            return o
        fields = {}
        other = set(o.other)
        for v in o.exact:
            other |= v
        other = self.norm(frozenset(other), ('ux', o.site))
        n = len(o.exact)
        must = set(o.must)
        if o.kind == 'list' and n <= 8:
            for i, v in enumerate(o.exact):
                fields[i] = v
                must.add(i)
                fields[i - n] = v
                must.add(i - n)
        ln = lin(n) if self.numeric else None
        return o.upd(fields=fields, other=other, exact=None, ln=ln, must=frozenset(must))

    def join_states(self, a, b, key):
        if a is None:
            return b
        if b is None or a is b:
            return a
        if len(a.frames) != len(b.frames):
            raise AnalysisBroken('internal: frame depth mismatch')
        s = State()
        h = dict(a.heap)
        for loc, o in b.heap.items():
            p = h.get(loc)
            if p is None:
                h[loc] = o
            elif p is not o:
                h[loc] = self.join_objs(p, o, key)
        s.heap = h
        n = len(a.frames)
        s.frames = []
        for i in range(n):
            fa, fb = a.frames[i], b.frames[i]
            if fa is fb:
                s.frames.append(fa)
                continue
            s.frames.append(self.join_frames(fa, fb, key))
        s.temps = [self.join_vals(x, y, key) for x, y in zip(a.temps, b.temps)]
        if a.ghost == b.ghost:
            s.ghost = a.ghost
        else:
            s.ghost = {}
            for k in set(a.ghost) | set(b.ghost):
                s.ghost[k] = self.join_ghost(k, a.ghost.get(k), b.ghost.get(k), key)
        if a.facts == b.facts:
            s.facts = a.facts
        else:
            s.facts = frozenset([f for f in a.facts if self.entails(b.facts, f)] + [f for f in b.facts if f not in a.facts and self.entails(a.facts, f)])
        return s

    def join_ghost(self, k, x, y, key):
        if x == y:
            return x
        if isinstance(x, Lin) and isinstance(y, Lin):
            return self.phi(x, y, key)
        if isinstance(x, frozenset) or isinstance(y, frozenset):
            return (x or frozenset()) | (y or frozenset())
        return None

    def join_frames(self, fa, fb, key):
        vars_ = {}
        va, vb = fa.vars, fb.vars
        unb = frozenset([UNB])
        for k in va:
            x, y = va[k], vb.get(k)
            if y is None:
                vars_[k] = x | unb
            elif x is y or x == y:
                vars_[k] = x
            else:
                vars_[k] = self.join_vals(x, y, key)
        for k in vb:
            if k not in va:
                vars_[k] = vb[k] | unb
        pf = {}
        for k, (v, names, ls) in fa.pf.items():
            if k in fb.pf:
                v2, n2, l2 = fb.pf[k]
                pf[k] = (self.join_vals(v, v2, key), names, ls | l2)
        cf = {k: v for k, v in fa.cf.items() if fb.cf.get(k) is v or fb.cf.get(k) == v}
        return Fr(vars_, pf, cf)

    def join_all(self, states, key):
        out = None
        for i, s in enumerate(states):
            if s is not None:
                out = s if out is None else self.join_states(out, s, (key, i))
        return out

    # ------------------------------------------------------------ widening

    def widen_states(self, old, new, key, n):
        """State at a loop head after one more iteration, generalised."""
        self._wkey, self._wn = key, n
        s = State()
        h = {}
        for loc, o in new.heap.items():
            p = old.heap.get(loc)
            if p is None:
                h[loc] = o
            elif p.same(o):
                h[loc] = p
            else:
                h[loc] = self.widen_objs(p, o, key, n)
        for loc, o in old.heap.items():
            if loc not in h:
                h[loc] = o
        s.heap = h
        self._wheap = h
        s.frames = []
        for fa, fb in zip(old.frames, new.frames):
            if fa is fb:
                s.frames.append(fa)
                continue
            unb = frozenset([UNB])
            vars_ = {}
            for k in list(fa.vars) + [k for k in fb.vars if k not in fa.vars]:
                x, y = fa.vars.get(k), fb.vars.get(k)
                if x is None:
                    vars_[k] = y | unb
                elif y is None:
                    vars_[k] = x | unb
                else:
                    vars_[k] = self.widen_vals(x, y, key, n, k)
            pf = {}
            for k, (v, names, ls) in fa.pf.items():
                if k in fb.pf:
                    v2, n2, l2 = fb.pf[k]
                    pf[k] = (self.widen_vals(v, v2, key, n, ('pf', k)), names, ls | l2)
            cf = {k: v for k, v in fa.cf.items() if fb.cf.get(k) == v}
            s.frames.append(Fr(vars_, pf, cf))
        s.temps = [self.widen_vals(x, y, key, n, ('temp', i)) for i, (x, y) in enumerate(zip(old.temps, new.temps))]
        s.ghost = {}
        for k in set(old.ghost) | set(new.ghost):
            x, y = old.ghost.get(k), new.ghost.get(k)
            if isinstance(x, Lin) and isinstance(y, Lin):
                s.ghost[k] = self.widen_lin(x, y, key, n, ('g', k))
            else:
                s.ghost[k] = self.join_ghost(k, x, y, key)
        s.facts = frozenset([f for f in old.facts if self.entails(new.facts, f)])
        return s

    def widen_lin(self, a, b, key, n, var):
        if a is b:
            return a
        # a = base + sigma?
        d = lin_sub(b, a)
        sig = None
        for s_, k in a.terms:
            if k == 1 and isinstance(s_.key, tuple) and s_.key[0] == 'sig' and s_.key[1] == key:
                sig = s_
        if sig is None:
            lo, hi = d.lo(), d.hi()
            s = sym(('sig', key, d), 0 if lo >= 0 else -INF, 0 if hi <= 0 else INF)
            return lin_add(a, lin_of(s))
        if sig.key[2] is d:
            return a
        base = lin_sub(a, lin_of(sig))
        lo, hi = d.lo(), d.hi()
        nlo = 0 if (lo >= 0 and sig.lo == 0) else -INF
        nhi = 0 if (hi <= 0 and sig.hi == 0) else INF
        s = sym(('sig', key, ('any', var)), nlo, nhi)
        if s is sig:
            return a
        return lin_add(base, lin_of(s))

    def widen_vals(self, a, b, key, n, var):
        if a is b or a == b:
            return a
        if self.numeric:
            ia = [x for x in a if isinstance(x, (Ka, Ta)) and x.tn == 'int']
            ib = [x for x in b if isinstance(x, (Ka, Ta)) and x.tn == 'int']
            if ia and ib and set(ia) != set(ib):
                small = all(isinstance(x, Ka) for x in ia + ib) and n < 3 and all((int, x.v) in self.literals for x in ib) and len(set(ia) | set(ib)) <= 6 and not self._counts(ia, ib)
                if not small:
                    lb = frozenset().union(*[x.lb for x in ia + ib])
                    la = self.lin_of_atoms(ia, key)
                    lb_ = self.lin_of_atoms(ib, key)
                    if la is None or lb_ is None:
                        w = T('int', lb)
                    else:
                        w = T('int', lb, self.widen_lin(la, lb_, key, n, var))
                    a = frozenset([x for x in a if x not in ia] + [w])
                    b = frozenset([x for x in b if x not in ib] + [w])
        if self.shapes:
            for tn in ('str', 'bytes'):
                sa = [x for x in a if isinstance(x, (Ka, Ta)) and x.tn == tn]
                sb = [x for x in b if isinstance(x, (Ka, Ta)) and x.tn == tn]
                if sa and sb and not set(sb) <= set(sa):
                    if all(isinstance(x, Ka) and (type(x.v), x.v) in self.literals for x in sb) and n < 6:
                        continue
                    ja = self.join_saux([self.saux(x) for x in sa], key)
                    jb = self.join_saux([self.saux(x) for x in sb], key)
                    lb = frozenset().union(*[x.lb for x in sa + sb])
                    rx = None
                    if ja and jb and ja[1] is not None and jb[1] is not None:
                        rx = RX.widen(ja[1], jb[1]) if n < 6 else RX.ANY
                    ln = None
                    if ja and jb and ja[0] is not None and jb[0] is not None:
                        ln = self.widen_lin(ja[0], jb[0], key, n, (var, tn))
                    w = T(tn, lb, self.mk_saux(ln, rx, None))
                    a = frozenset([x for x in a if x not in sa] + [w])
                    b = frozenset([x for x in b if x not in sb] + [w])
        elif self.numeric:
            for tn in ('str', 'bytes'):
                sa = [x for x in a if isinstance(x, (Ka, Ta)) and x.tn == tn]
                sb = [x for x in b if isinstance(x, (Ka, Ta)) and x.tn == tn]
                if sa and sb and not set(sb) <= set(sa):
                    if all(isinstance(x, Ka) and (type(x.v), x.v) in self.literals for x in sb):
                        continue
                    la = self.join_saux([self.saux(x) for x in sa], key)
                    lb2 = self.join_saux([self.saux(x) for x in sb], key)
                    lb = frozenset().union(*[x.lb for x in sa + sb])
                    ln = None
                    if la and lb2 and la[0] is not None and lb2[0] is not None:
                        ln = self.widen_lin(la[0], lb2[0], key, n, (var, tn))
                    w = T(tn, lb, self.mk_saux(ln, None, None))
                    a = frozenset([x for x in a if x not in sa] + [w])
                    b = frozenset([x for x in b if x not in sb] + [w])
        u = self.join_vals(a, b, key)
        new = [x for x in u if isinstance(x, Ka) and x not in a and x.tn in ('int', 'str', 'bytes', 'float', 'complex')]
        if new:
            wid = set()
            for x in new:
                if n >= 3 and x.tn in ('int', 'float', 'complex'):
                    wid.add(x.tn)
                elif (type(x.v), x.v) not in self.literals and n >= 1:
                    wid.add(x.tn)
                elif n >= 8:
                    wid.add(x.tn)
            for tn in wid:
                if tn == 'int' and self.numeric:
                    continue
                xs = [x for x in u if isinstance(x, (Ka, Ta)) and x.tn == tn]
                lb = frozenset().union(*[x.lb for x in xs])
                u = frozenset([x for x in u if x not in xs] + [T(tn, lb)])
        if n >= 2:
            ts = [x for x in u if isinstance(x, Tua) and x.cls is None]
            if len({len(x.items) for x in ts}) > 4 and any(x not in a for x in ts):
                u = self.grow_tuple(u, ts, key, var)
        if n >= 4:
            u = self.limit_depth(u)
        if n >= 9:
            u = self.flatten(u)
        return u

    def flatten(self, v, d=3):
        """A coarse form with finitely many values: one tuple per arity, bounded nesting, few constants."""
        if d == 3 and not any(isinstance(a, Tua) for a in v):
            return v
        out = set()
        by = {}
        for a in v:
            if isinstance(a, Tua):
                if d <= 0:
                    out.add(U(labels(frozenset([a]))))
                else:
                    by.setdefault((len(a.items), a.cls), []).append(a)
            elif isinstance(a, Ka) and a.tn == 'int':
                out.add(T('int', a.lb))
            else:
                out.add(a)
        us = [a for a in out if isinstance(a, Ua)]
        if len(us) > 1:
            out = {a for a in out if not isinstance(a, Ua)} | {U(frozenset().union(*[a.lb for a in us]))}
        for (n, cls), ts in by.items():
            out.add(Tu([self.flatten(frozenset().union(*[t.items[i] for t in ts]), d - 1) for i in range(n)], cls))
        return frozenset(out)

    def grow_tuple(self, u, ts, key, var):
        """A tuple that grows from one iteration to the next: a sequence of unknown length."""
        loc = ('W', key, var)
        h = self._wheap
        e = EMPTY
        for t in ts:
            for i in t.items:
                e = self.join_vals(e, i, key)
        o = h.get(loc)
        if o is None:
            o = Obj('mixed', other=e, site=loc)
        else:
            w = self.join_vals(o.other, e, key)
            if w != o.other:
                o = o.upd(other=w)
        h[loc] = o
        return frozenset(x for x in u if x not in ts) | V(P(loc))

    def _counts(self, ia, ib):
        return len(ia) == 1 and len(ib) == 1 and ib[0].v == ia[0].v + 1 or len(ib) > len(ia)

    def lin_of_atoms(self, xs, key):
        cur = None
        for x in xs:
            l = lin(x.v) if isinstance(x, Ka) else x.aux
            if l is None:
                return None
            cur = l if cur is None else self.phi(cur, l, key)
        return cur

    def limit_depth(self, v, d=5):
        out = []
        for a in v:
            if isinstance(a, Tua):
                if d <= 0:
                    out.append(U(labels(frozenset([a]))))
                else:
                    out.append(Tu([self.limit_depth(i, d - 1) for i in a.items], a.cls))
            else:
                out.append(a)
        return frozenset(out)

    def widen_objs(self, a, b, key, n):
        if a.same(b):
            return a
        if a.kind == b.kind and a.exact is not None and b.exact is not None and len(a.exact) == len(b.exact):
            exact = tuple(self.widen_vals(x, y, key, n, (a.site, i)) for i, (x, y) in enumerate(zip(a.exact, b.exact)))
            return a.upd(exact=exact, unique=a.unique and b.unique, tags=a.tags | b.tags)
        A, B = self.unexact(a), self.unexact(b)
        fields = {}
        for k in list(A.fields) + [k for k in B.fields if k not in A.fields]:
            va, vb = A.fields.get(k), B.fields.get(k)
            if va is None:
                va = A.other
            if vb is None:
                vb = B.other
            fields[k] = self.widen_vals(va, vb, key, n, (a.site, k))
        ln = None
        if A.ln is not None and B.ln is not None:
            ln = self.widen_lin(A.ln, B.ln, key, n, (a.site, 'len'))
        return Obj(A.kind if A.kind == B.kind else 'mixed', a.cls if a.cls == b.cls else None, fields, A.must & B.must,
                   self.widen_vals(A.other, B.other, key, n, (a.site, '*')), self.widen_vals(A.okeys, B.okeys, key, n, (a.site, 'k')),
                   None, ln, a.unique and b.unique, a.tags | b.tags, a.site)

    def states_equal(self, a, b):
        if a.heap.keys() != b.heap.keys() or len(a.frames) != len(b.frames):
            return False
        for loc, o in a.heap.items():
            if not o.same(b.heap[loc]):
                return False
        for fa, fb in zip(a.frames, b.frames):
            if fa is fb:
                continue
            if fa.vars != fb.vars or fa.pf.keys() != fb.pf.keys():
                return False
            for k in fa.pf:
                if fa.pf[k][0] != fb.pf[k][0]:
                    return False
        return a.temps == b.temps and a.ghost == b.ghost and a.facts == b.facts

    # ------------------------------------------------------------ numeric facts

    def entails(self, facts, f):
        """Is f >= 0 implied?"""
        if f.lo() >= 0:
            return True
        for g in facts:
            if lin_sub(f, g).lo() >= 0:
                return True
        return False

    def entails2(self, f):
        facts = self.st.facts
        if self.entails(facts, f):
            return True
        if len(facts) <= 24:
            for g in facts:
                if self.entails(facts, lin_sub(f, g)):
                    return True
        return False

    def add_fact(self, st, f):
        """Record f >= 0; returns False if contradictory."""
        if f.hi() < 0:
            return False
        if f.lo() >= 0:
            return True
        neg = lin_add(lin(-1), f, -1)     # -f - 1 >= 0
        if self.entails(st.facts, neg):
            return False
        fs = st.facts
        if len(fs) > 40:
            return True
        st.facts = fs | {f}
        return True

    # ------------------------------------------------------------ heap

    def alloc(self, node, kind, sub='', **kw):
        ctx = self.fi.ctx if self.fstack else 0
        site = (node_id(node), sub, kind)
        loc = ('A', site, ctx)
        kw.setdefault('site', site)
        o = Obj(kind, **kw)
        return self.place(loc, o)

    def place(self, loc, o):
        h = self.st.heap
        if self.in_rec():
            o = o.upd(unique=False)
            if loc in h:
                o = self.join_objs(self.unexact(h[loc]), self.unexact(o), ('rec', loc))
            h[loc] = o
            return loc
        if loc in h:
            self.rename(loc, (loc, '*'))
            h = self.st.heap
        h[loc] = o
        return loc

    def rename(self, loc, new):
        self.rename_all({loc: new})

    def rename_all(self, mp):
        """Objects become part of summaries everywhere in the state (mp: location -> location of the summary)."""
        st = self.st
        ps = {P(l): P(n) for l, n in mp.items()}
        keys = frozenset(ps)
        cache = {}

        def sv(v):
            r = cache.get(v)
            if r is None:
                if keys.isdisjoint(v) and not any(isinstance(a, (Tua, Fna)) for a in v):
                    cache[v] = 0
                    return v
                out = []
                for a in v:
                    if a in ps:
                        out.append(ps[a])
                    elif isinstance(a, Tua):
                        out.append(Tu([sv(i) for i in a.items], a.cls))
                    elif isinstance(a, Fna) and a.extra is not None:
                        out.append(self.rename_fn(a, ps, mp, sv))
                    else:
                        out.append(a)
                r = frozenset(out)
                if r == v:
                    r = 0
                cache[v] = r
            return v if r == 0 else r
        h = {}
        for l, o in st.heap.items():
            ch = {}
            if o.other:
                v = sv(o.other)
                if v is not o.other:
                    ch['other'] = v
            if o.fields:
                nf = None
                for k, v in o.fields.items():
                    w = sv(v)
                    if w is not v:
                        if nf is None:
                            nf = dict(o.fields)
                        nf[k] = w
                if nf is not None:
                    ch['fields'] = nf
            if o.exact:
                ne = tuple(sv(v) for v in o.exact)
                if any(x is not y for x, y in zip(ne, o.exact)):
                    ch['exact'] = ne
            h[l] = o.upd(**ch) if ch else o
        for loc, new in mp.items():
            old = h.pop(loc).upd(unique=False)
            if new in h:
                old = self.join_objs(self.unexact(h[new]), self.unexact(old), ('ren', new)).upd(unique=False)
            h[new] = old
        st.heap = h
        fs = []
        for fr in st.frames:
            nv = {k: sv(v) for k, v in fr.vars.items()}
            npf = {}
            for k, (v, names, ls) in fr.pf.items():
                npf[k] = (sv(v), names, frozenset(mp.get(l, l) for l in ls))
            fs.append(Fr(nv, npf, fr.cf))
        st.frames = fs
        st.temps = [sv(v) for v in st.temps]
        for k, v in list(st.ghost.items()):
            if isinstance(v, frozenset) and any(isinstance(x, Atom) for x in v):
                st.ghost[k] = sv(v)
        for r in self.fstack:
            r.envs = [mp.get(e, e) for e in r.envs]

    def rename_fn(self, a, ps, mp, sv):
        e = a.extra
        if isinstance(e, Tua):
            r = sv(frozenset([e]))
            return Fn(a.kind, a.ref, next(iter(r)))
        if isinstance(e, frozenset):
            return Fn(a.kind, a.ref, sv(e))
        if isinstance(e, Atom):
            return Fn(a.kind, a.ref, ps[e]) if e in ps else a
        if e in mp:
            return Fn(a.kind, a.ref, mp[e])
        return a

    def get(self, loc):
        return self.st.heap.get(loc)

    def inval(self, loc):
        for i, fr in enumerate(self.st.frames):
            if fr.pf:
                bad = [k for k, (v, names, ls) in fr.pf.items() if loc in ls]
                if bad:
                    nf = Fr(fr.vars, {k: v for k, v in fr.pf.items() if k not in bad}, fr.cf)
                    self.st.frames[i] = nf
            if fr.cf:
                bad = [k for k, (e, names, ls) in fr.cf.items() if loc in ls]
                if bad:
                    self.st.frames[i] = Fr(self.st.frames[i].vars, self.st.frames[i].pf, {k: v for k, v in fr.cf.items() if k not in bad})

    def write_field(self, loc, key, val, node, how='set', strong=None):
        """heap[loc][key] = val; key None = unknown key. how: set/del/append/clear/..."""
        o = self.st.heap.get(loc)
        if o is None:
            return
        self.stats['writes'] += 1
        self.client.on_write(self, loc, o, key, val, node, how)
        self.inval(loc)
        uniq = o.unique if strong is None else strong
        jk = (node_id(node), 'w', loc)
        if o.exact is not None:
            if isinstance(key, int) and not isinstance(key, bool) and -len(o.exact) <= key < len(o.exact):
                ex = list(o.exact)
                ex[key] = val if uniq else self.join_vals(ex[key], val, jk)
                self.st.heap[loc] = o.upd(exact=tuple(ex))
                return
            o = self.unexact(o)
        fields = dict(o.fields)
        if key is None:
            for k in fields:
                if o.kind in ('list', 'dict', 'mixed'):
                    fields[k] = self.join_vals(fields[k], val, jk)
            other = self.join_vals(o.other, val, jk)
            self.st.heap[loc] = o.upd(fields=fields, other=other)
            return
        if uniq:
            if key in fields and not fields[key]:
                del fields[key]     # inserted again, at the end
            fields[key] = val
            if o.kind == 'list' and isinstance(key, int):
                # positive and negative indices may name the same cell
                for k in list(fields):
                    if isinstance(k, int) and (k < 0) != (key < 0):
                        fields[k] = self.join_vals(fields[k], val, jk)
                must = o.must | {key}
                other = self.join_vals(o.other, val, jk) if o.other or True else o.other
                self.st.heap[loc] = o.upd(fields=fields, must=must, other=o.other)
            else:
                self.st.heap[loc] = o.upd(fields=fields, must=o.must | {key})
        else:
            base = fields.get(key, o.other)
            fields[key] = self.join_vals(base, val, jk)
            if o.kind == 'list' and isinstance(key, int):
                for k in list(fields):
                    if isinstance(k, int) and k != key and (k < 0) != (key < 0):
                        fields[k] = self.join_vals(fields[k], val, jk)
            self.st.heap[loc] = o.upd(fields=fields)

    def del_field(self, loc, key, node):
        o = self.st.heap.get(loc)
        if o is None:
            return
        self.client.on_write(self, loc, o, key, EMPTY, node, 'del')
        self.inval(loc)
        if o.kind == 'list':
            if o.exact is not None and o.unique and isinstance(key, int) and not isinstance(key, bool) and -len(o.exact) <= key < len(o.exact):
                ex = list(o.exact)
                del ex[key]
                self.st.heap[loc] = o.upd(exact=tuple(ex), ln=lin(len(ex)) if self.numeric else None)
                return
            o = self.unexact(o)
            f = {}
            other = o.other
            if key == -1:
                for k, v in o.fields.items():
                    if isinstance(k, int) and k < -1:
                        f[k + 1] = v
                    elif isinstance(k, int) and k >= 0:
                        f[k] = v
                must = frozenset(k for k in f if k < 0 and k - 1 in o.must)
            else:
                for v in o.fields.values():
                    other = self.join_vals(other, v)
                must = frozenset()
                f = {}
            self.st.heap[loc] = o.upd(fields=f, must=must, other=other, ln=lin_add(o.ln, lin(-1)) if o.ln is not None else None)
            return
        if key is None:
            self.st.heap[loc] = o.upd(must=frozenset())
            return
        fields = dict(o.fields)
        if o.unique:
            fields[key] = EMPTY
        self.st.heap[loc] = o.upd(fields=fields, must=o.must - {key})

    def read_key(self, loc, key, node=None):
        """(Val, certainly-present) of heap[loc][key]; key None = unknown."""
        o = self.st.heap.get(loc)
        if o is None:
            return UNK, False
        if o.exact is not None:
            if isinstance(key, int) and not isinstance(key, bool):
                if -len(o.exact) <= key < len(o.exact):
                    return o.exact[key], True
                return EMPTY, False
            if key is None:
                return self.norm(o.elems(), ('rk', loc)), False
        if key is None:
            return self.norm(o.elems(), ('rk', loc)), False
        if key in o.fields and type_eq(key, o.fields):
            return o.fields[key], key in o.must
        r = o.other
        if o.kind == 'list' and isinstance(key, int):
            for k, v in o.fields.items():
                if isinstance(k, int) and (k < 0) != (key < 0):
                    r = self.join_vals(r, v, ('rk', loc))
        return r, False

    def obj_type(self, loc):
        o = self.st.heap.get(loc)
        if o is None:
            return None
        if o.kind == 'inst':
            return o.cls
        return o.kind

    # ------------------------------------------------------------ calls

    def call_func(self, fn, args, kwargs, node, self_env=None, split=False):
        """Inline a call of a program function. args: list of Val; kwargs: dict."""
        f = fn.ref
        self.stats['calls'] += 1
        self.stats['functions'].add(f.qual)
        if len(self.fstack) > self.max_depth:
            self.unsupported.append(('depth', f.qual))
            return UNK
        r = self.client.on_call(self, fn, args, kwargs, node)
        if r is not None:
            return r
        env_loc = fn.extra
        # memo for calls on scalars only
        key = None
        if not split and not kwargs and env_loc is None and f.node not in self.recs and self.memo_ok(f) and all(self.scalar(a) for a in args):
            key = (f.node, tuple(args), self.st.facts if self.numeric else None)
            hit = self.memo.get(key)
            if hit is not None:
                if hit == 'dead':
                    raise Dead()
                return hit
        active = [i for i, x in enumerate(self.fstack) if x.fn is not None and x.fn.node is f.node]
        if active and f.node not in self.recs and len(active) >= getattr(self.client, 'inline_rec', 0):
            if f.node not in self.recursive:
                self.recursive.add(f.node)
                raise Restart(f.node)
        vals = self.bind(fn, args, kwargs, node)
        if f.node in self.recs:
            return self.call_rec(fn, vals, node)
        if f.node in self.recursive:
            return self.call_rec_outer(fn, vals, node, split)
        depth = len(self.fstack)
        saved = self.st.copy()
        nrec = dict(self.recs)
        ntry = list(self.try_stack)
        try:
            out = self.run_body(fn, vals, node, split)
        except Restart as e:
            if e.fn is not f.node:
                raise
            del self.fstack[depth:]
            self.try_stack[:] = ntry
            self.recs = nrec
            self.st = saved
            return self.call_rec_outer(fn, vals, node, split)
        except Dead:
            if key is not None:
                self.memo[key] = 'dead'
            raise
        if key is not None and self.scalar(out):
            self.memo[key] = out
        return out

    def memo_ok(self, f):
        return getattr(self, 'use_memo', True)

    def scalar(self, v):
        for a in v:
            if isinstance(a, (Ka, Ta, Ua)):
                continue
            if isinstance(a, Tua):
                if a.cls is not None or not all(self.scalar(i) for i in a.items):
                    return False
                continue
            return False
        return True

    def bind(self, fn, args, kwargs, node):
        f = fn.ref
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                rest.append(v)
        kwrest = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                vals[k] = v
            else:
                kwrest[k] = v
        defaults = self.func_defaults(f)
        for n in names + konly:
            if n not in vals:
                if n in defaults:
                    vals[n] = defaults[n]
                elif kwargs.get('**') is not None:
                    vals[n] = UNK
                else:
                    self.client.on_bad(self, node, f'missing argument {n} in call of {f.qual}')
                    raise Dead()
        if rest and not a.vararg:
            self.client.on_bad(self, node, f'too many arguments in call of {f.qual}')
            raise Dead()
        if a.vararg:
            vals[a.vararg.arg] = V(Tu(rest))
        if a.kwarg:
            loc = self.alloc(node, 'dict', 'kw' + f.qual, fields={k: v for k, v in kwrest.items() if k != '**'}, must=frozenset(kwrest))
            vals[a.kwarg.arg] = V(P(loc))
        elif [k for k in kwrest if k != '**']:
            self.client.on_bad(self, node, f'unexpected keyword argument in call of {f.qual}')
            raise Dead()
        return vals

    def func_defaults(self, f):
        return self.defaults.get(f.node, {})

    defaults = {}

    def new_frame(self, fn, node):
        f = fn.ref
        if self.in_rec():
            # contexts are cut at the recursive function
            ctx = mkctx(('r', self.rec_ctx), node)
            if f.node in self.recs:
                ctx = self.rec_ctx
            else:
                ctx = mkctx(self.fi.ctx if self.fstack else 0, node)
        else:
            ctx = mkctx(self.fi.ctx if self.fstack else 0, node)
        fi = FrameInfo(f, node, ctx, f.module)
        fi.env = fn.extra
        return fi

    def run_body(self, fn, vals, node, split=False, fi=None):
        f = fn.ref
        fi = fi or self.new_frame(fn, node)
        self.fstack.append(fi)
        if self.st.frames:
            self.st.frames[-1] = self.st.frames[-1]
        self.st.frames.append(Fr(dict(vals)))
        if f.is_gen:
            yl = self.alloc(f.node, 'iter', 'gen')
            fi.yields = yl
        entry_vals = vals
        body = f.node.body
        depth_t = len(self.st.temps)
        if f.lambda_:
            v = self.eval(body)
            fi.rets.append((self.st, v))
            self.st = None
        else:
            self.exec_block(body)
            if self.st is not None:
                fi.rets.append((self.st, NONE))
                self.st = None
        self.fstack.pop()
        rets = []
        for st, v in fi.rets:
            if f.is_gen:
                v = V(P(fi.yields))
            del st.temps[depth_t:]
            rets.append((st, v))
        if not rets:
            self.st = None
            raise Dead()
        if split:
            # keep the returns apart, with the parameters' refined values
            out = []
            for st, v in rets:
                fr = st.frames[-1]
                out.append((st, v, {p: fr.vars.get(p, EMPTY) for p in entry_vals}))
                st.frames.pop()
            return out
        rkey = ('ret', node_id(f.node), fi.ctx)
        cur = None
        for i, (st, v) in enumerate(rets):
            st.frames.pop()
            st.temps.append(v)
            cur = st if cur is None else self.join_states(cur, st, (rkey, i))
        self.st = cur
        self.gc()
        v = self.pop()
        self.client.on_return(self, f, v, node)
        return v

    def call_rec_outer(self, fn, vals, node, split=False):
        f = fn.ref
        rec = Rec()
        outer = self.st
        self.recs[f.node] = rec
        saved_ctx = getattr(self, 'rec_ctx', None)
        self.rec_ctx = mkctx(self.fi.ctx if self.fstack else 0, node)
        base_frames = outer.frames
        base_temps = outer.temps
        names = list(vals)
        entry = outer.copy()
        eargs = dict(vals)
        nfs = len(self.fstack)
        ntry = list(self.try_stack)
        try:
            for it in range(40):
                rec.dirty = False
                self.st = entry.copy()
                fi = self.new_frame(fn, node)
                fi.ctx = self.rec_ctx
                val = None
                try:
                    val = self.run_body(fn, dict(eargs), node, False, fi)
                except Dead:
                    pass
                except Restart:
                    del self.fstack[nfs:]
                    self.try_stack[:] = ntry
                    raise
                if val is not None:
                    ex = self.st
                    if rec.exit is None:
                        rec.exit = (ex, val)
                        rec.dirty = True
                    else:
                        oex, ov = rec.exit
                        nex = self.widen_states(oex, self.join_states(oex, ex, ('recx', node_id(f.node))), ('recx', node_id(f.node), self.rec_ctx), it)
                        self._wheap = nex.heap
                        nv = self.widen_vals(ov, self.join_vals(ov, val, ('recx', 'v')), ('recx', node_id(f.node), self.rec_ctx), it, 'ret')
                        if nv != ov or not self.heap_equal(nex, oex):
                            rec.exit = (nex, nv)
                            rec.dirty = True
                if rec.args is not None:
                    # entries seen from the recursive calls
                    nentry = entry.copy()
                    rs, ra = rec.args
                    for loc, o in rs.heap.items():
                        p = nentry.heap.get(loc)
                        nentry.heap[loc] = o if p is None else (p if p.same(o) else self.widen_objs(p, self.join_objs(p, o, ('rece', loc)), ('rece', node_id(f.node), self.rec_ctx), it))
                    nentry.facts = frozenset(x for x in entry.facts if self.entails(rs.facts, x))
                    nargs = {}
                    self._wheap = nentry.heap
                    for n in names:
                        nargs[n] = self.widen_vals(eargs[n], self.join_vals(eargs[n], ra[n], ('reca', n)), ('rece', node_id(f.node), self.rec_ctx), it, n)
                    if nargs != eargs or not self.heap_equal(nentry, entry):
                        if DEBUG_REC and it > 10:
                            for n in names:
                                if nargs[n] != eargs[n]:
                                    print(f.qual, it, n, show(eargs[n])[:300], '->', show(nargs[n])[:300])
                            for l, o in nentry.heap.items():
                                p = entry.heap.get(l)
                                if p is None or not p.same(o):
                                    print('  heap', l, str(p)[:300], '->', str(o)[:300])
                        entry, eargs = nentry, nargs
                        rec.dirty = True
                if not rec.dirty:
                    break
            else:
                raise AnalysisBroken(f'recursion of {f.qual} does not stabilise')
            if rec.exit is None:
                self.st = None
                raise Dead()
            ex, val = rec.exit
            st = ex.copy()
            self.st = st
            if split:
                return [(st, val, {n: vals[n] for n in names})]
            return val
        finally:
            self.recs.pop(f.node, None)
            self.rec_ctx = saved_ctx

    def heap_equal(self, a, b):
        if a.heap.keys() != b.heap.keys():
            return False
        for loc, o in a.heap.items():
            if not o.same(b.heap[loc]):
                return False
        return a.ghost == b.ghost

    def call_rec(self, fn, vals, node):
        f = fn.ref
        rec = self.recs[f.node]
        cur = self.st
        if rec.args is None:
            rec.args = (self.shell(cur), dict(vals))
            rec.dirty = True
        else:
            rs, ra = rec.args
            ns = self.join_states(rs, self.shell(cur), ('reca', node_id(f.node)))
            na = {k: self.join_vals(ra[k], vals[k], ('reca', k)) for k in ra}
            if na != ra or not self.heap_equal(ns, rs):
                rec.dirty = True
            rec.args = (ns, na)
        if rec.exit is None:
            self.st = None
            raise Dead()
        ex, val = rec.exit
        st = cur.copy()
        h = dict(cur.heap)
        h.update(ex.heap)
        st.heap = h
        st.ghost = dict(ex.ghost)
        self.st = st
        return val

    def shell(self, st):
        s = State()
        s.heap = dict(st.heap)
        s.ghost = dict(st.ghost)
        s.facts = st.facts
        return s

    def gc(self):
        h = self.st.heap
        if len(h) < getattr(self, 'gc_limit', 400):
            return
        seen = set()
        todo = []

        def addv(v):
            for a in v:
                if isinstance(a, Pa):
                    if a.loc not in seen:
                        seen.add(a.loc)
                        todo.append(a.loc)
                elif isinstance(a, Tua):
                    for i in a.items:
                        addv(i)
                elif isinstance(a, Fna) and a.extra is not None:
                    e = a.extra
                    if isinstance(e, Atom):
                        addv((e,))
                    elif isinstance(e, frozenset):
                        addv(e)
                    elif isinstance(e, tuple) and e not in seen:
                        seen.add(e)
                        todo.append(e)
        for fr in self.st.frames:
            for v in fr.vars.values():
                addv(v)
            for v, _, _ in fr.pf.values():
                addv(v)
        for v in self.st.temps:
            addv(v)
        for v in self.st.ghost.values():
            if isinstance(v, frozenset):
                addv([x for x in v if isinstance(x, Atom)])
        for fi in self.fstack:
            for e in fi.envs:
                if e not in seen:
                    seen.add(e)
                    todo.append(e)
            if fi.env is not None and fi.env not in seen:
                seen.add(fi.env)
                todo.append(fi.env)
            if fi.yields is not None and fi.yields not in seen:
                seen.add(fi.yields)
                todo.append(fi.yields)
            for st, v in fi.rets:
                addv(v)
                for fr in st.frames:
                    for x in fr.vars.values():
                        addv(x)
                for x in st.temps:
                    addv(x)
        for loc, o in h.items():
            if o.tags and loc not in seen:
                seen.add(loc)
                todo.append(loc)
        for v in getattr(self, 'gc_roots', ()):
            addv(v)
        for v in self.guards:
            addv(v)
        while todo:
            loc = todo.pop()
            o = h.get(loc)
            if o is not None:
                for v in o.values():
                    addv(v)
        self.st.heap = {l: o for l, o in h.items() if l in seen}
        if len(self.st.heap) > 0.7 * getattr(self, 'gc_limit', 400):
            self.gc_limit = 2 * len(self.st.heap)

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.stats['stmts'] += 1
        if not self.stats['stmts'] % 256 and time.time() > self.deadline:
            raise AnalysisBroken('the time limit of the root has passed')
        pre = None
        if self.try_stack:
            if self.client.exact_exc:
                pre = self.st.copy()
                keep, self.may_exc = self.may_exc, False
            else:
                self.collect_exc()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f'{where(s)}: unsupported statement {type(s).__name__}')
        nt = len(self.st.temps)
        dead = False
        try:
            m(s)
        except Dead:
            self.st = None
            dead = True
        if pre is not None:
            if dead or self.may_exc:
                self.collect_exc(pre)
            self.may_exc = keep or self.may_exc
        if self.st is not None:
            del self.st.temps[nt:]

    def collect_exc(self, st=None):
        t = self.try_stack[-1]
        if st is None:
            st = self.st
        if st is None:
            return
        s = st.copy()
        del s.frames[t['depth']:]
        del s.temps[t['temps']:]
        t['st'] = s if t['st'] is None else self.join_states(t['st'], s, ('exc', t['key']))

    def x_Pass(self, s): pass

    def x_Expr(self, s):
        self.eval(s.value)

    def x_Import(self, s):
        for a in s.names:
            top = a.asname or a.name.split('.')[0]
            ref = a.name if a.asname else a.name.split('.')[0]
            self.assign_name(top, V(self.ext_module(ref)), s)

    def ext_module(self, name):
        if name in self.program.modules:
            self.load_module(name)
            return Fn('module', name)
        return Fn('ext', name)

    def x_ImportFrom(self, s):
        modname = self.fi.module.name
        if s.level:
            base = modname.split('.')
            if not self.fi.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            target = '.'.join(base + ([s.module] if s.module else []))
        else:
            target = s.module
        if target in self.program.modules:
            m = self.load_module(target)
            ns = m.ns if m.ready and m.ns else {}
            for a in s.names:
                if a.name == '*':
                    if '__all__' in ns:
                        pass
                    for k, v in list(ns.items()):
                        if not k.startswith('_'):
                            self.assign_name(k, v, s)
                elif a.name in ns:
                    self.assign_name(a.asname or a.name, ns[a.name], s)
                elif target + '.' + a.name in self.program.modules:
                    self.load_module(target + '.' + a.name)
                    self.assign_name(a.asname or a.name, V(Fn('module', target + '.' + a.name)), s)
                else:
                    self.client.on_name_error(self, s, a.name)
                    self.assign_name(a.asname or a.name, UNK, s)
        else:
            for a in s.names:
                if a.name != '*':
                    self.assign_name(a.asname or a.name, V(Fn('ext', target + '.' + a.name)), s)

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        self.assign_name(s.name, f, s)

    def make_func(self, s):
        parent = self.fi.fn
        prefix = (parent.qual + '.') if parent is not None else ''
        if getattr(self, 'cls_stack', None):
            prefix = self.cls_stack[-1].name + '.'
        key = s
        fo = self.funcs.get(key)
        if fo is None:
            fo = FuncObj(prefix + getattr(s, 'name', '<lambda>'), s, s._mod)
            self.funcs[key] = fo
        a = s.args
        d = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for n, e in zip(names[len(names) - len(a.defaults):], a.defaults):
            d[n] = self.eval(e)
            if isinstance(e, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)):
                for x in d[n]:
                    if isinstance(x, Pa) and x.loc in self.st.heap and parent is None:
                        self.tag_reach(x.loc, f'default:{fo.qual}.{n}')
        for x, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[x.arg] = self.eval(e)
                for y in d[x.arg]:
                    if isinstance(y, Pa) and y.loc in self.st.heap and parent is None:
                        self.tag_reach(y.loc, f'default:{fo.qual}.{x.arg}')
        if 'defaults' not in self.__dict__:
            self.defaults = {}
        self.defaults[s] = d
        env = None
        if parent is not None:
            env = self.make_env(s)
        v = V(Fn('func', fo, env))
        for dec in reversed(getattr(s, 'decorator_list', [])):
            dn = ast.unparse(dec)
            if dn in ('staticmethod',):
                v = V(Fn('static', fo, env))
            elif dn in ('property', 'functools.cached_property', 'cached_property'):
                v = V(Fn('property', fo, env))
            elif dn == 'classmethod':
                v = V(Fn('classm', fo, env))
            else:
                self.client.on_method(self, None, 'decorator:' + dn, [], {}, s)
                if isinstance(dec, ast.Name):
                    # a decorator of the program itself
                    try:
                        dv = self.eval(dec)
                        if any(isinstance(x, Fna) and x.kind == 'func' for x in dv):
                            v = self.call_value(dv, [v], {}, s)
                    except (Dead, AnalysisBroken):
                        self.st = self.st or State()
        return v

    def make_env(self, s):
        """Snapshot of the variables a nested function can see; refreshed on later assignments."""
        fi = self.fi
        loc = self.alloc(s, 'env', 'env', fields=dict(self.fr.vars), must=frozenset(self.fr.vars))
        o = self.st.heap[loc]
        if fi.env is not None:
            o.fields['$parent'] = V(P(fi.env))
            self.st.heap[loc] = o
        if loc not in fi.envs:
            fi.envs.append(loc)
        return loc

    def x_ClassDef(self, s):
        c = ClassObj(s.name, self.fi.module)
        for b in s.bases:
            for a in self.eval(b):
                if isinstance(a, Fna) and a.kind == 'class':
                    c.bases.append(a.ref)
                elif isinstance(a, Fna) and a.kind == 'ext' and a.ref.endswith('NamedTuple'):
                    c.nt_fields = []
        dc = any('dataclass' in ast.unparse(d) for d in s.decorator_list)
        c.frozen = any('frozen' in ast.unparse(d) for d in s.decorator_list)
        self.cls_stack = getattr(self, 'cls_stack', []) + [c]
        flds = []
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                c.attrs[b.name] = self.make_func(b)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                flds.append(b.target.id)
                if b.value is not None:
                    c.attrs[b.target.id] = self.eval(b.value)
                    c.dc_defaults[b.target.id] = c.attrs[b.target.id]
            elif isinstance(b, ast.Assign):
                v = self.eval(b.value)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = v
                        for x in v:
                            if isinstance(x, Pa):
                                self.tag_reach(x.loc, f'global:{s.name}.{t.id}')
        self.cls_stack = self.cls_stack[:-1]
        if dc:
            c.dc_fields = [f for b in c.bases for f in (b.dc_fields or [])] + flds
        elif c.nt_fields is not None:
            c.nt_fields = flds
        self.classes[s.name] = c
        self.assign_name(s.name, V(Fn('class', c)), s)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.fi.rets.append((self.st, v))
        self.st = None

    def x_Global(self, s):
        self.fi.globals_.update(s.names)

    def x_Nonlocal(self, s):
        self.fi.nonlocals.update(s.names)

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            if len(s.targets) > 1:
                self.push(v)
            self.assign(t, v, s)
            if len(s.targets) > 1:
                v = self.pop()
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.note_cond(s.targets[0].id, s.value)

    def note_cond(self, name, e):
        """Remember `flag = <pure condition>` so that testing the flag refines what the condition tests."""
        if self.st is None or not isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call, ast.Subscript)):
            return
        if isinstance(e, ast.Subscript) and not self.is_place(e):
            return
        if isinstance(e, ast.UnaryOp) and not isinstance(e.op, ast.Not):
            return
        if not self.pure_expr(e):
            return
        names = frozenset(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
        if name in names:
            return
        ls = set()
        for n in ast.walk(e):
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                try:
                    ls |= self.place_locs(n)
                except Dead:
                    return
        self.st.frames[-1] = fr = self.fr.copy()
        fr.cf[name] = (e, names, frozenset(ls))

    def pure_expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Name) and f.id in ('type', 'isinstance', 'len', 'bool', 'int'):
                    continue
                if isinstance(f, ast.Attribute) and f.attr in ('get', 'startswith', 'endswith'):
                    continue
                return False
            if isinstance(n, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                return False
        return True

    def x_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            self.assign(s.target, v, s)

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval_name(t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            self.push(base)
            key = self.eval_index(t.slice)
            base = self.pop()
            self.push(base)
            self.push(key)
            cur = self.subscript(base, key, t)
        else:
            base = self.eval(t.value)
            self.push(base)
            cur = self.getattr_(base, t.attr, t)
        self.push(cur)
        r = self.eval(s.value)
        cur = self.pop()
        # in-place on mutable receivers
        res = set()
        scal = set()
        for a in cur:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
                    self.push(r)
                    self.list_extend(a.loc, r, s)
                    r = self.pop()
                    res.add(a)
                    continue
                if o is not None and o.kind == 'set' and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
                    xs = self.sset(o)
                    if xs is not None:
                        ys = self.const_items(r)
                        if ys is not None:
                            self.client.on_write(self, a.loc, o, None, EMPTY, s, 'update')
                            self.inval(a.loc)
                            self.set_exact(a.loc, set(xs) | set(ys) if isinstance(s.op, ast.BitOr) else set(xs) & set(ys) if isinstance(s.op, ast.BitAnd) else set(xs) - set(ys))
                            res.add(a)
                            continue
                    if o.exact is not None:
                        self.st.heap[a.loc] = self.unexact(o)
                    if isinstance(s.op, ast.BitOr):
                        self.set_add(a.loc, self.iter_elem(r, s), s)
                    else:
                        self.client.on_write(self, a.loc, o, None, EMPTY, s, 'discard')
                    res.add(a)
                    continue
                if o is not None and o.kind == 'dict' and isinstance(s.op, ast.BitOr):
                    self.dict_update(a.loc, r, s)
                    res.add(a)
                    continue
            scal.add(a)
        if scal:
            res |= self.binop(s.op, frozenset(scal), r, s)
        v = frozenset(res)
        if not v:
            raise Dead()
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, s)
        elif isinstance(t, ast.Subscript):
            key = self.pop()
            base = self.pop()
            self.store_subscript(base, key, v, s)
        else:
            base = self.pop()
            self.store_attr(base, t.attr, v, s)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Subscript):
            self.push(v)
            base = self.eval(t.value)
            self.push(base)
            key = self.eval_index(t.slice)
            base = self.pop()
            self.push(base)
            self.push(v)
            self.store_subscript(base, key, v, t)
            v = self.pop()
            base = self.pop()
            if len(base) > 1 or self.key_consts_(key) is None:
                self.note_place(t, base, v)
        elif isinstance(t, ast.Attribute):
            self.push(v)
            base = self.eval(t.value)
            v = self.pop()
            self.store_attr(base, t.attr, v, t)
        else:
            raise AnalysisBroken(f'{where(t)}: unsupported target')

    def key_consts_(self, key):
        return None if isinstance(key, tuple) else self.key_consts(key)

    def note_place(self, t, base, v):
        """Record that the place just assigned holds v (until something it goes through is written)."""
        if not v or isinstance(t.slice, ast.Slice) or not self.is_place(t):
            return
        for a in base:
            if not isinstance(a, Pa):
                return
            o = self.get(a.loc)
            if o is None or o.kind not in ('list', 'dict', 'mixed'):
                return
        names = frozenset(n.id for n in ast.walk(t) if isinstance(n, ast.Name))
        ls = frozenset(self.place_locs(t)) | frozenset(a.loc for a in base)
        fr = self.st.frames[-1].copy()
        fr.pf[self.txt(t)] = (v, names, ls)
        self.st.frames[-1] = fr

    def assign_name(self, name, v, node):
        if not v:
            raise Dead()
        fi = self.fi
        if name in fi.globals_:
            self.client.on_global_write(self, node, name)
            m = fi.module
            m.ns[name] = self.join_vals(m.ns.get(name, EMPTY), v)
            return
        if name in fi.nonlocals and fi.env is not None:
            loc = fi.env
            while loc is not None:
                o = self.get(loc)
                if name in o.fields:
                    self.st.heap[loc] = o.upd(fields={**o.fields, name: self.join_vals(o.fields[name], v)})
                p = o.fields.get('$parent')
                loc = next(iter(p)).loc if p else None
            return
        fr = self.fr
        fr.vars[name] = v
        if fr.pf:
            bad = [k for k, x in fr.pf.items() if name in x[1]]
            for k in bad:
                del fr.pf[k]
        if fr.cf:
            bad = [k for k, x in fr.cf.items() if k == name or name in x[1]]
            for k in bad:
                del fr.cf[k]
        for e in fi.envs:
            o = self.st.heap.get(e)
            if o is not None:
                w = self.join_vals(o.fields.get(name, EMPTY), v) if not o.unique else v
                self.st.heap[e] = o.upd(fields={**o.fields, name: w}, must=o.must | {name})

    def unpack(self, t, v, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        cols = [set() for _ in range(n)]
        ok = False
        for a in v:
            if isinstance(a, Tua):
                if not star and len(a.items) == n:
                    for i, x in enumerate(a.items):
                        cols[i] |= x
                    ok = True
                elif star and len(a.items) >= n - 1:
                    k = star[0]
                    tail = n - 1 - k
                    for i in range(k):
                        cols[i] |= a.items[i]
                    mid = EMPTY
                    for x in a.items[k:len(a.items) - tail]:
                        mid = mid | x
                    cols[k] |= V(P(self.alloc(node, 'list', 'star', other=mid)))
                    for i in range(tail):
                        cols[n - 1 - i] |= a.items[len(a.items) - 1 - i]
                    ok = True
            elif isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                if o.kind in ('list', 'iter', 'set', 'dict', 'mixed') or o.kind == 'tuple':
                    if o.exact is not None:
                        if len(o.exact) == n and not star:
                            for i, x in enumerate(o.exact):
                                cols[i] |= x
                            ok = True
                        continue
                    if o.ln is not None and (lin_sub(o.ln, lin(n)).lo() > 0 or lin_sub(o.ln, lin(n)).hi() < 0) and not star:
                        continue
                    e = self.iter_elem(frozenset([a]), node)
                    for i in range(n):
                        if i in star:
                            cols[i] |= V(P(self.alloc(node, 'list', 'star', other=e)))
                        else:
                            x = o.fields.get(i) if o.kind == 'list' else None
                            cols[i] |= x if x else e
                    ok = bool(e) or ok
            elif isinstance(a, Ua):
                for i in range(n):
                    cols[i].add(U(a.lb))
                ok = True
            elif isinstance(a, (Ka, Ta)) and a.tn in ('str', 'bytes'):
                e = self.iter_elem(frozenset([a]), node)
                for i in range(n):
                    cols[i] |= e
                ok = True
            elif isinstance(a, Ka) and a.v is None:
                self.client.on_none(self, node, 'unpack')
        if not ok:
            raise Dead()
        vals = [self.norm(frozenset(c), ('unp', node_id(t), i)) for i, c in enumerate(cols)]
        base = len(self.st.temps)
        for x in vals:
            self.push(x)
        for i, e in enumerate(t.elts):
            self.assign(e, self.st.temps[base + i], node)
        del self.st.temps[base:]

    def store_subscript(self, base, key, v, node):
        done = False
        self.store_pf = dict(self.fr.pf)        # what is known about places before any of the targets is written
        many = len(base) > 1
        for a in base:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                if o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__setitem__')
                    if m:
                        self.call_value(m, [frozenset([a]), key, v], {}, node)
                    done = True
                    continue
                done = True
                self.note_key(a.loc, o, key)
                if isinstance(key, tuple):      # slice
                    self.client.on_write(self, a.loc, o, None, v, node, 'slice')
                    self.inval(a.loc)
                    cs = [single_const(x) for x in key[1:]]
                    xs = self.exact_items(v) if o.kind == "list" and o.exact is not None and o.unique and not many and None not in cs and cs[2].v is None else None
                    if xs is not None:
                        new = list(o.exact)
                        new[cs[0].v:cs[1].v] = xs
                        self.st.heap[a.loc] = o.upd(exact=tuple(new), ln=lin(len(new)) if self.numeric else None)
                        continue
                    o2 = self.unexact(self.get(a.loc))
                    e = self.iter_elem(v, node)
                    other = self.join_vals(o2.elems(), e)
                    self.st.heap[a.loc] = o2.upd(fields={}, must=frozenset(), other=other, ln=None)
                    continue
                kc = self.key_consts(key, o)
                if kc is not None and len(kc) == 1:
                    self.write_field(a.loc, kc[0], v, node, strong=o.unique and not many)
                elif kc is not None and len(kc) <= 8:
                    for k in kc:
                        self.write_field(a.loc, k, v, node, strong=False)
                else:
                    self.write_field(a.loc, None, v, node)
            elif isinstance(a, Ua):
                done = True
                self.client.on_unknown_call(self, a, [v], node)
            elif isinstance(a, Ka) and a.v is None:
                self.client.on_none(self, node, 'store')
        if not done:
            raise Dead()

    def note_key(self, loc, o, key):
        if isinstance(key, tuple) or o.kind not in ('dict', 'mixed'):
            return
        kc = self.key_consts(key, o)
        if kc is None:
            self.st.heap[loc] = o.upd(okeys=self.join_vals(o.okeys, key))

    def nonzero(self, d):
        """Is the affine form surely not zero?"""
        if d.lo() > 0 or d.hi() < 0:
            return True
        return self.entails2(lin_add(d, lin(-1))) or self.entails2(lin_add(lin_scale(d, -1), lin(-1)))

    def key_consts(self, key, o=None):
        """Constant keys of a subscript value, or None; in a dictionary o, numbers that are surely not equal are told apart."""
        if o is not None and self.lin_holes and o.kind == 'dict' and len(key) == 1:
            a = next(iter(key))
            l = a.aux if isinstance(a, Ta) and a.tn == 'int' and isinstance(a.aux, Lin) else lin(a.v) if isinstance(a, Ka) and a.tn == 'int' else None
            if l is not None and not a.lb and (l.terms or any(isinstance(k, SymKey) for k in o.fields)):
                me = SymKey.of(l) if l.terms else l.c
                if me in o.fields:
                    return [me]
                if o.okeys or o.other:
                    return None
                for k in o.fields:
                    x = k.lin if isinstance(k, SymKey) else lin(k) if isinstance(k, int) and not isinstance(k, bool) else None
                    if x is not None and not self.nonzero(lin_sub(l, x)):
                        return None
                return [me]
        out = []
        for a in key:
            if isinstance(a, Ka):
                try:
                    hash(a.v)
                except TypeError:
                    return None
                out.append(a.v)
            elif isinstance(a, Ta) and a.tn == 'int' and a.aux is not None and isinstance(a.aux, Lin) and not a.aux.terms:
                out.append(a.aux.c)
            else:
                return None
        return out

    def store_attr(self, base, attr, v, node):
        done = False
        for a in base:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                done = True
                self.write_field(a.loc, attr, v, node, 'attr', strong=o.unique and len(base) == 1)
            elif isinstance(a, Fna) and a.kind == 'class':
                if self.base_alloc:
                    a.ref.attrs[attr] = v
                else:
                    self.client.on_global_write(self, node, f'{a.ref.name}.{attr}')
                done = True
            elif isinstance(a, Fna):
                self.client.on_global_write(self, node, f'{a!r}.{attr}')
                done = True
            elif isinstance(a, Tua):
                self.client.on_bad(self, node, 'attribute store on a tuple')
            elif isinstance(a, Ua):
                done = True
        if not done:
            raise Dead()

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.vars[t.id] = V(UNB)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                self.push(base)
                key = self.eval_index(t.slice)
                base = self.pop()
                for a in base:
                    if isinstance(a, Pa):
                        kc = None if isinstance(key, tuple) else self.key_consts(key, self.get(a.loc))
                        self.del_field(a.loc, kc[0] if kc and len(kc) == 1 else None, t)
            elif isinstance(t, ast.Attribute):
                for a in self.eval(t.value):
                    if isinstance(a, Pa):
                        self.del_field(a.loc, t.attr, t)

    def x_If(self, s):
        st, sf = self.branch(s.test)
        self.st = st
        if st is not None:
            self.exec_block(s.body)
        st = self.st
        self.st = sf
        if sf is not None:
            self.exec_block(s.orelse)
        self.st = self.join_states(st, self.st, ('if', node_id(s), self.fi.ctx))

    def x_Assert(self, s):
        st, sf = self.branch(s.test)
        self.st = st
        if st is None:
            raise Dead()

    def x_Raise(self, s):
        if s.exc is not None:
            self.eval(s.exc)
        self.client.on_raise(self, s)
        if self.try_stack:
            self.collect_exc()
        raise Dead()

    def x_Break(self, s):
        self.fi.loops[-1].breaks.append(self.st)
        self.st = None

    def x_Continue(self, s):
        self.fi.loops[-1].conts.append(self.st)
        self.st = None

    def loop_key(self, s):
        return ('loop', node_id(s), self.fi.ctx if not self.in_rec() else self.rec_ctx)

    def x_While(self, s):
        key = self.loop_key(s)
        self.stats['loops'] += 1
        depth = len(self.st.temps)
        exits = []

        def one(head):
            """One iteration from head: (exit state, back state, break states)."""
            self.st = head
            st, sf = self.branch(s.test)
            lp = Loop()
            self.fi.loops.append(lp)
            self.st = st
            if st is not None:
                self.client.on_loop(self, s, 'enter', None)
                self.exec_block(s.body)
            self.fi.loops.pop()
            for x in lp.conts + lp.breaks:
                del x.temps[depth:]
            back = self.join_all([self.st] + lp.conts, (key, 'b'))
            return sf, back, lp.breaks
        early = []
        n = 0
        while self.st is not None and n < getattr(self.client, 'unroll', 0):
            # partial evaluation: follow the iterations as long as the test is decided
            head = self.st.copy()
            ctx = self.fi.ctx
            self.fi.ctx = itctx(ctx, s, n)
            try:
                sf, back, br = one(self.st)
            finally:
                self.fi.ctx = ctx
            if sf is not None and back is not None:
                self.st = head
                break
            early += br
            n += 1
            self.st = back
            if sf is not None:
                self.st = sf
                if s.orelse:
                    self.exec_block(s.orelse)
                self.st = self.join_all([self.st] + early, (key, 'x'))
                return
        if self.st is None:
            self.st = self.join_all(early, (key, 'x'))
            return
        self.fix_loop(s, key, one, exits)
        normal, brk = exits
        self.st = normal
        if normal is not None and s.orelse:
            self.exec_block(s.orelse)
        self.st = self.join_all([self.st] + early + brk, (key, 'x'))

    def show_diff(self, a, b):
        print('  diff', set(a.heap) ^ set(b.heap), [set(x.pf) ^ set(y.pf) for x, y in zip(a.frames, b.frames)], [set(x.vars) ^ set(y.vars) for x, y in zip(a.frames, b.frames)], a.temps == b.temps, a.ghost == b.ghost, a.facts == b.facts, len(a.frames), len(b.frames))
        for l, o in b.heap.items():
            p = a.heap.get(l)
            if p is None or not p.same(o):
                print('  heap', l)
                if p is not None:
                    for nm in ('kind', 'cls', 'must', 'ln', 'unique', 'tags', 'exact'):
                        if getattr(p, nm) != getattr(o, nm):
                            print('     ', nm, str(getattr(p, nm))[:300], '->', str(getattr(o, nm))[:300])
                    for nm, x, y in [('other', p.other, o.other), ('okeys', p.okeys, o.okeys)] + [(k, p.fields.get(k, EMPTY), o.fields.get(k, EMPTY)) for k in set(p.fields) | set(o.fields)]:
                        if x != y:
                            print('     ', nm, '-', show(x - y)[:300], '+', show(y - x)[:300])
        for fa, fb in zip(a.frames, b.frames):
            for k in fb.vars:
                if fa.vars.get(k) != fb.vars[k]:
                    print('  var', k, '-', show(fa.vars.get(k, EMPTY) - fb.vars[k])[:400], '+', show(fb.vars[k] - fa.vars.get(k, EMPTY))[:400])
            for k in fb.pf:
                if k in fa.pf and fa.pf[k][0] != fb.pf[k][0]:
                    print('  place', k, show(fa.pf[k][0])[:400], '->', show(fb.pf[k][0])[:400])

    def fix_loop(self, s, key, one, out):
        normal = []
        brks = []
        head = self.st
        if self.peel:
            self.client.on_loop(self, s, 'peel', head)
            log = self.symlog
            self.symlog = set()
            sf, back, br = one(head.copy())
            gen = self.symlog
            self.symlog = log
            if log is not None:
                log |= gen
            normal.append(sf)
            brks.extend(br)
            head = back
            if head is not None and self.numeric and gen:
                head = self.age(head, gen, key)
        n = 0
        while head is not None:
            log = self.symlog
            self.symlog = set()
            self.client.on_loop(self, s, 'head', head)
            sf, back, br = one(head.copy())
            self.client.on_loop(self, s, 'back', (head, back))
            gen = self.symlog
            self.symlog = log
            if log is not None:
                log |= gen
            if back is None:
                normal.append(sf)
                brks.extend(br)
                break
            new = self.widen_states(head, back, key, n)
            if self.numeric and gen:
                new = self.age(new, gen, key)
            if self.states_equal(new, head):
                normal.append(sf)
                brks.extend(br)
                break
            if DEBUG_REC and n > 40:
                self.show_diff(head, new)
            head = new
            n += 1
            if n > 60:
                raise AnalysisBroken(f'{where(s)}: loop does not stabilise')
        out.append(self.join_all(normal, (key, 'n')))
        out.append(brks)

    def age(self, st, gen, key):
        """Symbols born in the loop body denote the previous iteration's values from now on."""
        m = {}
        for s in gen:
            if isinstance(s.key, tuple) and s.key[0] == 'old':
                continue
            m[s] = lin_of(sym(('old', key, s.key), s.lo, s.hi))
        return self.subst_state(st, m)

    def subst_state(self, st, m):
        cache = {}

        def sa(a):
            if isinstance(a, Ta) and a.aux is not None:
                if isinstance(a.aux, Lin):
                    x = lin_subst(a.aux, m)
                    return a if x is a.aux else T(a.tn, a.lb, x)
                if isinstance(a.aux, tuple) and isinstance(a.aux[0], Lin):
                    x = lin_subst(a.aux[0], m)
                    return a if x is a.aux[0] else T(a.tn, a.lb, (x,) + a.aux[1:])
            if isinstance(a, Tua):
                return Tu([sv(i) for i in a.items], a.cls)
            return a

        def sv(v):
            r = cache.get(v)
            if r is None:
                r = frozenset(sa(a) for a in v)
                if r == v:
                    r = v
                cache[v] = r
            return r
        for loc, o in list(st.heap.items()):
            ch = {}
            if o.other:
                x = sv(o.other)
                if x is not o.other:
                    ch['other'] = x
            if o.fields:
                nf = {k: sv(v) for k, v in o.fields.items()}
                if any(nf[k] is not o.fields[k] for k in nf):
                    ch['fields'] = nf
            if o.exact:
                ne = tuple(sv(v) for v in o.exact)
                if any(x is not y for x, y in zip(ne, o.exact)):
                    ch['exact'] = ne
            if o.ln is not None:
                x = lin_subst(o.ln, m)
                if x is not o.ln:
                    ch['ln'] = x
            if ch:
                st.heap[loc] = o.upd(**ch)
        st.frames = list(st.frames)
        for i, fr in enumerate(st.frames):
            nv = {k: sv(v) for k, v in fr.vars.items()}
            if any(nv[k] is not fr.vars[k] for k in nv):
                st.frames[i] = Fr(nv, {k: (sv(v), n_, l_) for k, (v, n_, l_) in fr.pf.items()}, fr.cf)
        st.temps = [sv(v) for v in st.temps]
        for k, v in list(st.ghost.items()):
            if isinstance(v, Lin):
                st.ghost[k] = lin_subst(v, m)
        st.facts = frozenset(f for f in (lin_subst(f, m) for f in st.facts) if f.lo() < 0)
        return st

    def x_For(self, s):
        it = self.eval(s.iter)
        self.client.on_iter(self, it, s)
        self.for_loop(s, s.target, it, lambda: self.exec_block(s.body), s.orelse)

    def exact_items(self, it):
        """The element values in order when they are all known."""
        if len(it) != 1:
            return None
        a = next(iter(it))
        if isinstance(a, Tua) and a.cls is None:
            return list(a.items)
        if isinstance(a, Pa):
            o = self.get(a.loc)
            if o is not None and o.exact is not None and o.unique and (o.kind in ('list', 'iter') or self.sset(o) is not None):
                return list(o.exact)
            if o is not None and o.kind == 'dict' and o.unique and not o.other and not o.okeys and o.fields and all(k in o.must or not x for k, x in o.fields.items()):
                return [V(key_atom(k)) for k, x in o.fields.items() if x]
            if o is not None and o.kind == 'dict' and o.unique and not o.other and not o.okeys and not o.fields:
                return []
        if isinstance(a, Ka) and a.tn in ('str', 'bytes') and len(a.v) <= max(16, getattr(self.client, 'unroll', 0)):
            return [V(K(x, a.lb)) for x in a.v]
        return None

    UNROLL = 16

    def for_loop(self, s, target, it, body, orelse, tag=''):
        key = self.loop_key(s) + (tag,)
        self.stats['loops'] += 1
        ex = self.exact_items(it)
        if ex is not None and len(ex) <= max(self.UNROLL, getattr(self.client, 'unroll', 0)):
            brks = []
            base = len(self.st.temps)
            for i, v in enumerate(ex):
                self.push(v)
            n = len(ex)
            for i in range(n):
                if self.st is None:
                    break
                v = self.st.temps[base + i]
                lp = Loop()
                self.fi.loops.append(lp)
                ctx = self.fi.ctx
                if self.scenario:
                    self.fi.ctx = itctx(ctx, s, i)
                try:
                    self.assign(target, v, s)
                    body()
                except Dead:
                    self.st = None
                self.fi.ctx = ctx
                self.fi.loops.pop()
                for b in lp.breaks:
                    del b.temps[base:]
                for b in lp.conts:
                    del b.temps[base + n:]
                brks.extend(lp.breaks)
                self.st = self.join_all([self.st] + lp.conts, (key, 'u', i))
            if self.st is not None:
                del self.st.temps[base:]
                if orelse:
                    self.exec_block(orelse)
            self.st = self.join_all([self.st] + brks, (key, 'x'))
            return
        nonempty = self.nonempty(it)
        exits = []
        base = len(self.st.temps)
        self.push(it)
        first = [True]

        def one(head):
            itv = head.temps[base]
            sf = head.copy()
            self.st = head
            lp = Loop()
            self.fi.loops.append(lp)
            try:
                e = self.iter_elem(itv, s, True)
                if not e:
                    raise Dead()
                self.client.on_loop(self, s, 'enter', None)
                self.assign(target, e, s)
                body()
            except Dead:
                self.st = None
            self.fi.loops.pop()
            for x in lp.conts:
                del x.temps[base + 1:]
            back = self.join_all([self.st] + lp.conts, (key, 'b'))
            if first[0] and nonempty:
                sf = None
            first[0] = False
            return sf, back, lp.breaks
        self.fix_loop(s, key, one, exits)
        normal, brk = exits
        for b in brk:
            del b.temps[base:]
        self.st = normal
        if normal is not None:
            del normal.temps[base:]
            if orelse:
                self.exec_block(orelse)
        self.st = self.join_all([self.st] + brk, (key, 'x'))

    def nonempty(self, it):
        for a in it:
            if isinstance(a, Tua):
                if not a.items:
                    return False
            elif isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None or not (o.exact or o.must or (o.ln is not None and o.ln.lo() >= 1)):
                    return False
            elif isinstance(a, Ka) and a.tn in ('str', 'bytes'):
                if not a.v:
                    return False
            else:
                return False
        return bool(it)

    def x_AsyncFor(self, s):
        raise AnalysisBroken(f'{where(s)}: async')

    def x_With(self, s):
        for item in s.items:
            v = self.eval(item.context_expr)
            r = set()
            for a in v:
                if isinstance(a, Pa) and self.obj_type(a.loc) in self.classes:
                    m = self.class_lookup(self.obj_type(a.loc), '__enter__')
                    r |= self.call_value(m, [frozenset([a])], {}, s) if m else {a}
                else:
                    r.add(a)
            self.push(v)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, frozenset(r), s)
        n = len(s.items)
        at = len(self.st.temps) - n
        marks = self.exit_marks()
        self.exec_block(s.body)

        def leave():
            for v in self.st.temps[at:at + n]:
                self.close_ctx(v, s)
        self.on_exits(marks, leave)
        if self.st is not None:
            for item in reversed(s.items):
                v = self.pop()
                self.close_ctx(v, s)

    def exit_marks(self):
        fi = self.fi
        return [(l, len(l)) for l in [fi.rets] + ([fi.loops[-1].breaks, fi.loops[-1].conts] if fi.loops else [])]

    def on_exits(self, marks, act):
        """Run act in the states that left a block by return, break or continue since the marks were taken."""
        keep = self.st
        for l, n in marks:
            new = l[n:]
            del l[n:]
            for x in new:
                self.st = x[0] if isinstance(x, tuple) else x
                if isinstance(x, tuple):
                    self.push(x[1])
                act()
                if self.st is not None:
                    l.append((self.st, self.pop()) if isinstance(x, tuple) else self.st)
        self.st = keep

    def close_ctx(self, v, node):
        for a in v:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is not None and o.kind == 'file':
                    self.close_file(a.loc, o)

    def close_file(self, loc, o):
        self.st.heap[loc] = o.upd(fields={**o.fields, 'closed': TRUE})
        for k in o.fields.get('key', EMPTY):
            self.st.ghost[k.v] = FALSE

    def x_Try(self, s):
        t = {'st': None, 'depth': len(self.st.frames), 'temps': len(self.st.temps), 'key': (node_id(s), self.fi.ctx)}
        self.try_stack.append(t)
        if not self.client.exact_exc:
            self.collect_exc()
        marks = self.exit_marks() if s.finalbody else []
        self.exec_block(s.body)
        self.try_stack.pop()
        after = self.st
        if after is not None and s.orelse:
            self.exec_block(s.orelse)
            after = self.st
        outs = [after]
        catches_all = False
        for h in s.handlers:
            if t['st'] is None:
                continue
            self.st = t['st'].copy()
            if h.name:
                self.assign_name(h.name, UNK, h)
            self.exec_block(h.body)
            outs.append(self.st)
        self.st = self.join_all(outs, ('try', node_id(s), self.fi.ctx))
        if s.finalbody:
            # also run on the exceptional path, for its effects
            keep = self.st
            if t['st'] is not None:
                self.st = t['st'].copy()
                self.exec_block(s.finalbody)
            self.st = keep
            self.on_exits(marks, lambda: self.exec_block(s.finalbody))
            if keep is not None:
                self.st = keep
                self.exec_block(s.finalbody)

    def x_Match(self, s):
        subj = self.eval(s.subject)
        name = f'$match{s.lineno}'
        self.assign_name(name, subj, s)
        outs = []
        for c in s.cases:
            if self.st is None:
                break
            test = self.match_test(c.pattern, name, s)
            binds = self.match_binds(c.pattern, name)
            if test is None:
                st, sf = self.st, None
            elif test == '?':
                st, sf = self.st.copy(), self.st
            else:
                st, sf = self.branch(test)
            self.st = st
            if st is not None:
                for n, e in binds:
                    self.assign_name(n, self.fr.vars[name], s)
                if c.guard is not None and self.st is not None:
                    st, sg = self.branch(c.guard)
                    sf = self.join_states(sf, sg, ('mg', node_id(c.pattern)))
                    self.st = st
                if self.st is not None:
                    self.exec_block(c.body)
            outs.append(self.st)
            self.st = sf
        outs.append(self.st)
        self.st = self.join_all(outs, ('match', node_id(s), self.fi.ctx))

    def match_binds(self, p, name):
        if isinstance(p, ast.MatchAs) and p.name:
            return [(p.name, name)] + (self.match_binds(p.pattern, name) if p.pattern else [])
        return []

    def match_test(self, p, name, s):
        def fix(e):
            ast.copy_location(e, s)
            ast.fix_missing_locations(e)
            for n in ast.walk(e):
                n._mod = s._mod
            return e
        if isinstance(p, ast.MatchAs):
            return self.match_test(p.pattern, name, s) if p.pattern else None
        k = ('mt', p)
        if k in self.memo:
            return self.memo[k]
        if isinstance(p, ast.MatchValue):
            e = fix(ast.Compare(ast.Name(name, ast.Load()), [ast.Eq()], [p.value]))
        elif isinstance(p, ast.MatchSingleton):
            e = fix(ast.Compare(ast.Name(name, ast.Load()), [ast.Is()], [ast.Constant(p.value)]))
        elif isinstance(p, ast.MatchOr):
            ts = [self.match_test(q, name, s) for q in p.patterns]
            e = '?' if '?' in ts else fix(ast.BoolOp(ast.Or(), ts))
        elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            e = fix(ast.Call(ast.Name('isinstance', ast.Load()), [ast.Name(name, ast.Load()), p.cls], []))
        else:
            e = '?'
        self.memo[k] = e
        return e

    # ------------------------------------------------------------ expressions

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f'{where(e)}: unsupported expression {type(e).__name__}')
        v = m(e)
        if self.st is None or not v:
            raise Dead()
        return v

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return UNK
        return V(K(e.value))

    def e_Name(self, e):
        return self.eval_name(e)

    def eval_name(self, e):
        name = e.id
        v = self.lookup(name)
        if v is None:
            self.client.on_name_error(self, e, name)
            raise Dead()
        if UNB in v:
            self.client.on_unbound(self, e, name)
            v = v - {UNB}
            if not v:
                raise Dead()
            self.fr.vars[name] = v
        return v

    def lookup(self, name):
        fi = self.fi
        if name not in fi.globals_:
            v = self.fr.vars.get(name)
            if v is not None:
                return v
            loc = fi.env
            while loc is not None:
                o = self.get(loc)
                if o is None:
                    break
                if name in o.fields:
                    return o.fields[name]
                p = o.fields.get('$parent')
                loc = next(iter(p)).loc if p else None
        v = fi.module.ns.get(name)
        if v is not None:
            return v
        if fi.fn is None and name in self.fr.vars:
            return self.fr.vars[name]
        b = self.builtin_value(name)
        return b

    def e_Attribute(self, e):
        if self.fr.pf:
            hit = self.fr.pf.get(self.txt(e))
            if hit is not None:
                return hit[0]
        base = self.eval(e.value)
        return self.getattr_(base, e.attr, e)

    def txt(self, e):
        t = getattr(e, '_txt', None)
        if t is None:
            t = e._txt = ast.unparse(e)
        return t

    def e_Subscript(self, e):
        if self.fr.pf:
            hit = self.fr.pf.get(self.txt(e))
            if hit is not None:
                return hit[0]
        base = self.eval(e.value)
        self.push(base)
        key = self.eval_index(e.slice)
        base = self.pop()
        return self.subscript(base, key, e)

    def eval_index(self, s):
        """Val of an index, or a ('slice', lo, hi, step) tuple."""
        if isinstance(s, ast.Slice):
            out = []
            for x in (s.lower, s.upper, s.step):
                self.push(self.eval(x) if x is not None else NONE)
            step = self.pop()
            hi = self.pop()
            lo = self.pop()
            return ('slice', lo, hi, step)
        return self.eval(s)

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Tuple(self, e):
        return V(Tu(self.eval_seq(e)))

    def eval_seq(self, e):
        """Element values of a display, in order (starred parts expanded when known)."""
        base = len(self.st.temps)
        n = 0
        self.star_known = True
        known = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                ex = self.exact_items(v)
                if ex is not None:
                    for y in ex:
                        self.push(y)
                        n += 1
                else:
                    known = False
                    self.push(self.iter_elem(v, x) or UNK)
                    n += 1
            else:
                self.push(self.eval(x))
                n += 1
        items = self.st.temps[base:]
        del self.st.temps[base:]
        self.star_known = known
        return items

    def e_List(self, e):
        starred = any(isinstance(x, ast.Starred) for x in e.elts)
        items = self.eval_seq(e)
        if starred and not self.star_known:
            other = frozenset().union(*items) if items else EMPTY
            return V(P(self.alloc(e, 'list', other=self.norm(other, ('ls', node_id(e))))))
        return V(P(self.new_list(e, items)))

    def new_list(self, node, items, sub='', kind='list', **kw):
        if len(items) <= 512:
            return self.alloc(node, kind, sub, exact=tuple(items), ln=lin(len(items)) if self.numeric else None, **kw)
        other = self.norm(frozenset().union(*items), ('nl', node_id(node)))
        return self.alloc(node, kind, sub, other=other, ln=lin(len(items)) if self.numeric else None, **kw)

    def e_Set(self, e):
        items = self.eval_seq(e)
        known = self.star_known
        other = self.norm(frozenset().union(*items), ('st', node_id(e)))
        cs = [single_const(x) for x in items] if self.scenario else [None]
        if known and all(c is not None and isinstance(c.v, (int, float, complex)) and not c.lb for c in cs):
            return self.new_set(e, '', [c.v for c in cs])
        sure = any(not isinstance(x, ast.Starred) for x in e.elts)
        return V(P(self.alloc(e, 'set', other=other, must=frozenset(['$ne'] if sure else []))))

    def e_Dict(self, e):
        base = len(self.st.temps)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.push(NONE)
                self.push(self.eval(v))
            else:
                self.push(self.eval(k))
                self.push(self.eval(v))
        items = self.st.temps[base:]
        del self.st.temps[base:]
        base2 = len(self.st.temps)
        loc = None
        fields, must, other, okeys = {}, set(), EMPTY, EMPTY
        for i, k in enumerate(e.keys):
            kv, vv = items[2 * i], items[2 * i + 1]
            if k is None:
                for a in vv:
                    if isinstance(a, Pa):
                        o = self.get(a.loc)
                        if o is not None:
                            for kk, x in o.fields.items():
                                if kk in o.must and len(vv) == 1:
                                    fields[kk] = x
                                    must.add(kk)
                                else:
                                    fields[kk] = self.join_vals(fields.get(kk, other), x)
                            if o.other:
                                other = self.join_vals(other, o.other)
                                okeys = self.join_vals(okeys, o.okeys)
                                for kk in fields:
                                    if kk not in o.must:
                                        fields[kk] = self.join_vals(fields[kk], o.other)
                continue
            kc = self.key_consts(kv, Obj('dict', fields=fields, other=other, okeys=okeys))
            if kc is not None and len(kc) == 1:
                fields[kc[0]] = vv
                must.add(kc[0])
            else:
                other = self.join_vals(other, vv)
                okeys = self.join_vals(okeys, kv)
                for kk in fields:
                    fields[kk] = self.join_vals(fields[kk], vv)
        loc = self.alloc(e, 'dict', fields=fields, must=frozenset(must), other=other, okeys=okeys)
        return V(P(loc))

    def e_BoolOp(self, e):
        # value semantics through branching
        isand = isinstance(e.op, ast.And)
        outs = []
        for i, x in enumerate(e.values):
            if i == len(e.values) - 1:
                try:
                    v = self.eval(x)
                    self.push(v)
                    outs.append(self.st)
                except Dead:
                    pass
                break
            try:
                st, sf, vt, vf = self.branch_val(x)
            except Dead:
                st = sf = None
            stop, go = (sf, st) if isand else (st, sf)
            if stop is not None:
                stop.temps.append(vf if isand else vt)
                outs.append(stop)
            if go is None:
                break
            self.st = go
        self.st = self.join_all(outs, ('bo', node_id(e), self.fi.ctx))
        if self.st is None:
            raise Dead()
        return self.pop()

    def branch_val(self, x):
        """Branch on x, also giving the value of x on either side."""
        if isinstance(x, (ast.Compare, ast.UnaryOp)) and not (isinstance(x, ast.UnaryOp) and not isinstance(x.op, ast.Not)):
            st, sf = self.branch(x)
            return st, sf, TRUE, FALSE
        pure = isinstance(x, (ast.Name, ast.Attribute, ast.Subscript, ast.Constant))
        if pure or (isinstance(x, ast.BoolOp) and self.pure_expr(x)):
            v = self.eval(x)
            save = self.st.copy()
            vt, vf = self.truthy(v), self.falsy(v)
            st, sf = self.branch(x)
            return (st if vt else None), (sf if vf else None), vt, vf
        v = self.eval(x)
        vt, vf = self.truthy(v), self.falsy(v)
        st = self.st
        a = st if vt else None
        b = (st.copy() if vt else st) if vf else None
        if isinstance(x, ast.Call):
            if a is not None:
                self.st = a
                a = self.refine_call(x, True, a)
            if b is not None:
                b = self.refine_call(x, False, b)
        return a, b, vt, vf

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            st, sf = self.branch(e)
            if st is not None:
                st.temps.append(TRUE)
            if sf is not None:
                sf.temps.append(FALSE)
            self.st = self.join_all([st, sf], ('not', node_id(e), self.fi.ctx))
            if self.st is None:
                raise Dead()
            return self.pop()
        v = self.eval(e.operand)
        out = set()
        for a in v:
            if isinstance(a, Ka) and a.tn in ('int', 'float', 'bool', 'complex'):
                out.add(K(-a.v if isinstance(e.op, ast.USub) else (+a.v if isinstance(e.op, ast.UAdd) else ~a.v), a.lb))
            elif isinstance(a, Ta) and a.tn in ('int', 'float', 'bool', 'complex'):
                aux = None
                if isinstance(e.op, ast.USub):
                    if isinstance(a.aux, Lin):
                        aux = lin_scale(a.aux, -1)
                    elif self.terms and a.aux is not None:
                        aux = self.poly_op('-', self.poly_const(0), a.aux)
                out.add(T('int' if a.tn == 'bool' else a.tn, a.lb, aux))
            elif isinstance(a, Ua):
                out.add(a)
        return frozenset(out)

    def e_BinOp(self, e):
        l = self.eval(e.left)
        self.push(l)
        r = self.eval(e.right)
        l = self.pop()
        v = self.binop(e.op, l, r, e)
        if not v:
            self.client.on_bad(self, e, 'no operand types fit')
        return v

    def e_Compare(self, e):
        st, sf = self.branch(e)
        if st is not None and sf is None:
            self.st = st
            return TRUE
        if sf is not None and st is None:
            self.st = sf
            return FALSE
        if st is None:
            raise Dead()
        # a plain value: keep the unrefined state
        self.st = self.join_states(st, sf, ('cmp', node_id(e), self.fi.ctx))
        return V(T('bool'))

    def e_IfExp(self, e):
        st, sf = self.branch(e.test)
        outs = []
        for s, x in ((st, e.body), (sf, e.orelse)):
            if s is None:
                continue
            self.st = s
            try:
                v = self.eval(x)
                self.push(v)
                outs.append(self.st)
            except Dead:
                pass
        self.st = self.join_all(outs, ('ife', node_id(e), self.fi.ctx))
        if self.st is None:
            raise Dead()
        return self.pop()

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign_name(e.target.id, v, e)
        return v

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_JoinedStr(self, e):
        base = len(self.st.temps)
        for x in e.values:
            if isinstance(x, ast.Constant):
                self.push(V(K(x.value)))
            else:
                self.push(self.e_FormattedValue(x))
        parts_ = self.st.temps[base:]
        del self.st.temps[base:]
        return self.concat_strs(parts_, 'str', e)

    def e_FormattedValue(self, x):
        v = self.eval(x.value)
        spec = None
        if x.format_spec is not None:
            self.push(v)
            spec = self.eval(x.format_spec)
            v = self.pop()
        return self.format_value(v, spec, x.conversion, x)

    def e_ListComp(self, e):
        loc = self.alloc(e, 'list', 'comp', exact=(), ln=lin(0) if self.numeric else None)
        return self.comp(e, loc, lambda l: self.list_append(l, self.eval(e.elt), e))

    def e_SetComp(self, e):
        loc = next(iter(self.new_set(e, 'comp', []))).loc
        return self.comp(e, loc, lambda l: self.set_add(l, self.eval(e.elt), e))

    def e_GeneratorExp(self, e):
        loc = self.alloc(e, 'iter', 'comp', exact=(), ln=lin(0) if self.numeric else None)
        return self.comp(e, loc, lambda l: self.list_append(l, self.eval(e.elt), e))

    def e_DictComp(self, e):
        loc = self.alloc(e, 'dict', 'comp')

        def add(l):
            k = self.eval(e.key)
            self.push(k)
            v = self.eval(e.value)
            k = self.pop()
            self.store_subscript(V(P(l)), k, v, e)
        return self.comp(e, loc, add)

    def comp(self, e, loc, add):
        """Comprehensions run in the enclosing frame with their targets saved around them."""
        self.push(V(P(loc)))
        pos = len(self.st.temps) - 1
        targets = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {}
        for t in targets:
            if t in self.fr.vars:
                saved[t] = self.fr.vars[t]
        self.push(V(Tu([V(K(t)) for t in sorted(saved)])))
        for t in sorted(saved):
            self.push(saved[t])

        def level(i):
            if i == len(e.generators):
                lv = self.st.temps[pos]
                for a in lv:
                    add(a.loc)
                    break
                return
            g = e.generators[i]
            it = self.eval(g.iter)
            self.client.on_iter(self, it, e)

            def body():
                for c in g.ifs:
                    if self.st is None:
                        return
                    st, sf = self.branch(c)
                    self.st = st
                    if sf is not None:
                        self.fi.loops[-1].conts.append(sf)
                if self.st is not None:
                    try:
                        level(i + 1)
                    except Dead:
                        self.st = None
            self.for_loop(e, g.target, it, body, [], tag=('comp', i))
        level(0)
        if self.st is None:
            raise Dead()
        n = len(saved)
        vals = self.st.temps[pos + 2:pos + 2 + n]
        for t in targets:
            if t not in saved:
                self.fr.vars.pop(t, None)
        for t, v in zip(sorted(saved), vals):
            self.fr.vars[t] = v
        r = self.st.temps[pos]
        del self.st.temps[pos:]
        return r

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        self.list_append(self.fi.yields, v, e, weak=True)
        return UNK

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        x = self.iter_elem(v, e)
        if x:
            self.list_append(self.fi.yields, x, e, weak=True)
        return UNK

    def e_Call(self, e):
        f = self.eval(e.func)
        self.push(f)
        base = len(self.st.temps)
        star = False
        kwn = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                ex = self.exact_items(v)
                if ex is not None:
                    for x in ex:
                        self.push(x)
                else:
                    self.push(self.iter_elem(v, a) or UNK)
                    star = True
            else:
                self.push(self.eval(a))
        npos = len(self.st.temps) - base
        for k in e.keywords:
            self.push(self.eval(k.value))
            kwn.append(k.arg if k.arg is not None else '**')
        vals = self.st.temps[base:]
        del self.st.temps[base:]
        args = vals[:npos]
        kwargs = dict(zip(kwn, vals[npos:]))
        if '**' in kwargs:
            x = kwargs['**']
            ok = False
            if len(x) == 1:
                a = next(iter(x))
                if isinstance(a, Pa):
                    o = self.get(a.loc)
                    if o is not None and not o.other and all(k in o.must or not x for k, x in o.fields.items()):
                        del kwargs['**']
                        for k, v in o.fields.items():
                            if v:
                                kwargs[k] = v
        f = self.pop()
        return self.call_value(f, args, kwargs, e)

    def call_value(self, f, args, kwargs, node):
        """Call every callable f may be, from the same state, and join."""
        fs = [a for a in f if isinstance(a, (Fna, Ua, Pa, Tua))]
        for a in f:
            if isinstance(a, Ka) and a.v is None:
                self.client.on_none(self, node, 'call')
        if not fs:
            raise Dead()
        scal = [a for a in fs if isinstance(a, Fna) and a.kind == 'sm']
        groups = []
        if scal:
            byname = {}
            for a in scal:
                byname.setdefault(a.ref, set()).update(a.extra)
            for nm, recv in byname.items():
                groups.append(('sm', nm, frozenset(recv)))
        groups += [('x', a, None) for a in fs if not (isinstance(a, Fna) and a.kind == 'sm')]
        if len(groups) == 1:
            return self.call_group(groups[0], args, kwargs, node)
        base = self.st
        outs = []
        for g in groups:
            self.st = base.copy()
            try:
                v = self.call_group(g, args, kwargs, node)
                if v:
                    self.push(v)
                    outs.append(self.st)
            except Dead:
                pass
        self.st = self.join_all(outs, ('call', node_id(node), self.fi.ctx))
        if self.st is None:
            raise Dead()
        return self.pop()

    def call_group(self, g, args, kwargs, node):
        if g[0] == 'sm':
            return self.scalar_method(g[2], g[1], args, kwargs, node)
        return self.call_atom(g[1], args, kwargs, node)

    def call_atom(self, a, args, kwargs, node):
        if isinstance(a, Ua):
            self.client.on_unknown_call(self, a, args, node)
            lb = a.lb
            for x in args:
                lb |= labels(x)
            return V(U(lb))
        if isinstance(a, Pa):
            t = self.obj_type(a.loc)
            m = self.class_lookup(t, '__call__') if t in self.classes else None
            if m:
                return self.call_value(m, [frozenset([a])] + args, kwargs, node)
            self.client.on_bad(self, node, 'not callable')
            raise Dead()
        if isinstance(a, Tua):
            raise Dead()
        k = a.kind
        if k in ('func', 'static'):
            return self.call_func(a, args, kwargs, node)
        if k == 'classm':
            return self.call_func(a, args, kwargs, node)
        if k == 'bound':
            fn = a.ref
            recv = a.extra
            return self.call_func(fn, [frozenset([recv])] + args, kwargs, node)
        if k == 'class':
            return self.construct(a.ref, args, kwargs, node)
        if k in ('type', 'builtin', 'ext', 'hm'):   # what they work on stays alive while they call back
            n = len(self.guards)
            self.guards.extend(args)
            self.guards.extend(kwargs.values())
            if k == 'hm' and isinstance(a.extra, Atom):
                self.guards.append((a.extra,))
            try:
                return self.call_native(a, args, kwargs, node)
            finally:
                del self.guards[n:]
        if k == 'partial':
            fn, pre, pk = a.extra
            return self.call_value(frozenset([fn]), list(pre) + args, {**dict(pk), **kwargs}, node)
        if k == 'model':
            return a.ref(self, args, kwargs, node)
        raise AnalysisBroken(f'{where(node)}: call of {k}')

    def call_native(self, a, args, kwargs, node):
        k = a.kind
        if k == 'type':
            return self.call_type(a.ref, args, kwargs, node)
        if k == 'builtin':
            return self.call_builtin(a.ref, args, kwargs, node)
        if k == 'ext':
            return self.call_ext(a.ref, args, kwargs, node)
        if k == 'hm':
            r = self.client.on_method(self, a.extra, a.ref, args, kwargs, node)
            if r is not None:
                return r
            return self.heap_method(a.extra, a.ref, args, kwargs, node)
        raise AnalysisBroken(f'{where(node)}: call of {k}')

    def class_lookup(self, cname, attr):
        c = self.classes.get(cname)
        if c is None:
            return None
        return c.lookup(attr)

    def construct(self, c, args, kwargs, node):
        nf = c.fieldnames()
        if nf is not None:
            vals = list(args)
            for n in nf[len(vals):]:
                if n in kwargs:
                    vals.append(kwargs[n])
                elif n in c.dc_defaults:
                    vals.append(c.dc_defaults[n])
                else:
                    self.client.on_bad(self, node, f'missing field {n} of {c.name}')
                    raise Dead()
            return V(Tu(vals, c.name))
        if c.dc_fields is not None:
            fields = {}
            for n, v in zip(c.dc_fields, args):
                fields[n] = v
            for k, v in kwargs.items():
                fields[k] = v
            for n in c.dc_fields:
                if n not in fields:
                    if n in c.dc_defaults:
                        fields[n] = c.dc_defaults[n]
                    else:
                        self.client.on_bad(self, node, f'missing field {n} of {c.name}')
                        raise Dead()
            loc = self.alloc(node, 'inst', cls=c.name, fields=fields, must=frozenset(fields))
            return V(P(loc))
        loc = self.alloc(node, 'inst', cls=c.name)
        init = c.lookup('__init__')
        if init:
            self.push(V(P(loc)))
            self.call_value(init, [V(P(loc))] + args, kwargs, node)
            v = self.pop()
            return v
        return V(P(loc))

    def getattr_(self, base, attr, node):
        out = set()
        for a in base:
            if isinstance(a, Tua):
                c = self.classes.get(a.cls) if a.cls else None
                if c is not None:
                    nf = c.fieldnames() or []
                    if attr in nf:
                        out |= a.items[nf.index(attr)]
                        continue
                    m = c.lookup(attr)
                    if m is not None:
                        out |= self.bind_method(m, a, node)
                        continue
                    if attr == '_replace':
                        out.add(Fn('hm', '_replace', a))
                        continue
                if attr in ('index', 'count'):
                    out.add(Fn('hm', attr, a))
                    continue
                self.client.on_bad(self, node, f'no attribute {attr}')
            elif isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                if o.kind == 'inst':
                    if attr in o.fields:
                        out |= o.fields[attr]
                        continue
                    m = self.class_lookup(o.cls, attr)
                    if m is not None:
                        out |= self.bind_method(m, a, node)
                        continue
                    if o.cls is not None and attr in (self.classes[o.cls].dc_fields or []) if o.cls in self.classes else False:
                        continue
                    if o.other:
                        out |= o.other
                        continue
                    self.client.on_bad(self, node, f'no attribute {attr}')
                    continue
                out.add(Fn('hm', attr, a))
            elif isinstance(a, (Ka, Ta)):
                if a.tn == 'none':
                    self.client.on_none(self, node, 'attr ' + attr)
                    continue
                if a.tn == 'slice' and isinstance(a, Ka) and attr in ('start', 'stop', 'step'):
                    out.add(K(getattr(a.v, attr)))
                    continue
                r = self.scalar_attr(a, attr, node)
                if r is not None:
                    out |= r
                else:
                    out.add(Fn('sm', attr, frozenset([a])))
            elif isinstance(a, Ua):
                out.add(U(a.lb))
            elif isinstance(a, Fna):
                if a.kind == 'ext':
                    out |= self.ext_attr(a.ref, attr, node)
                elif a.kind == 'module':
                    m = self.program.modules[a.ref]
                    v = m.ns.get(attr)
                    if v is None:
                        self.client.on_name_error(self, node, f'{a.ref}.{attr}')
                    else:
                        out |= v
                elif a.kind == 'class':
                    v = a.ref.lookup(attr)
                    if v is not None:
                        out |= v
                    elif attr == '__name__':
                        out.add(K(a.ref.name))
                    else:
                        self.client.on_bad(self, node, f'no attribute {attr}')
                elif a.kind == 'type':
                    if attr == '__name__':
                        out.add(K(a.ref))
                    else:
                        out.add(Fn('builtin', f'{a.ref}.{attr}'))
                elif attr == '__name__':
                    out.add(K(getattr(a.ref, 'name', str(a.ref))))
                else:
                    out.add(U())
        if not out:
            raise Dead()
        return frozenset(out)

    def bind_method(self, m, recv, node):
        out = set()
        for x in m:
            if isinstance(x, Fna) and x.kind == 'func':
                out.add(Fn('bound', x, recv))
            elif isinstance(x, Fna) and x.kind == 'property':
                out |= self.call_func(Fn('func', x.ref, x.extra), [frozenset([recv])], {}, node)
            elif isinstance(x, Fna) and x.kind == 'classm':
                out.add(Fn('bound', Fn('func', x.ref, x.extra), recv))
            else:
                out.add(x)
        return out

    # ------------------------------------------------------------ conditions

    def branch(self, e):
        """Evaluate a condition: (state when true, state when false)."""
        try:
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                t, f = self.branch(e.operand)
                return f, t
            if isinstance(e, ast.BoolOp):
                isand = isinstance(e.op, ast.And)
                outs = []
                for i, x in enumerate(e.values):
                    if self.st is None:
                        break
                    t, f = self.branch(x)
                    go, stop = (t, f) if isand else (f, t)
                    if stop is not None:
                        outs.append(stop)
                    self.st = go
                last = self.st
                j = self.join_all(outs, ('bb', node_id(e), self.fi.ctx))
                return (last, j) if isand else (j, last)
            if isinstance(e, ast.Compare):
                if len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    # (a truth value) == True
                    l, r = e.left, e.comparators[0]
                    if isinstance(l, ast.Constant):
                        l, r = r, l
                    if isinstance(r, ast.Constant) and isinstance(r.value, bool) and self.is_bool(l):
                        t, f = self.branch(l)
                        return (t, f) if r.value == isinstance(e.ops[0], (ast.Eq, ast.Is)) else (f, t)
                return self.branch_compare(e)
            if isinstance(e, ast.Call):
                return self.branch_call(e)
            if isinstance(e, ast.NamedExpr):
                v = self.eval(e)
                vt, vf = self.truthy(v), self.falsy(v)
                st = self.st
                a = st if vt else None
                b = st.copy() if vf else None
                if a is not None:
                    a.frames[-1].vars[e.target.id] = vt
                if b is not None:
                    b.frames[-1].vars[e.target.id] = vf
                return a, b
            v = self.eval(e)
        except Dead:
            self.st = None
            return None, None
        vt, vf = self.truthy(v), self.falsy(v)
        st = self.st
        a = st.copy() if vt else None
        b = st if vf else None
        if a is not None:
            a = self.refine(a, e, lambda x: self.truthy(x))
        if b is not None:
            b = self.refine(b, e, lambda x: self.falsy(x))
        if isinstance(e, ast.Name):
            cond = st.frames[-1].cf.get(e.id)
            if cond is not None:
                ce = cond[0]
                if a is not None:
                    self.st = a
                    a = self.branch(ce)[0]
                if b is not None:
                    self.st = b
                    b = self.branch(ce)[1]
        return a, b

    def is_bool(self, e):
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'bool', 'callable', 'hasattr', 'any', 'all') and \
            e.func.id not in self.st.frames[-1].vars

    def truthy(self, v):
        out = []
        for a in v:
            t = self.truth(a)
            if t is False:
                continue
            if isinstance(a, Ta) and a.tn == 'bool':
                a = K(True, a.lb)
            out.append(a)
        return frozenset(out)

    def falsy(self, v):
        out = []
        for a in v:
            t = self.truth(a)
            if t is True:
                continue
            if isinstance(a, Ta):
                if a.tn == 'bool':
                    a = K(False, a.lb)
                elif a.tn == 'int':
                    a = K(0, a.lb)
                elif a.tn == 'str':
                    a = K('', a.lb)
                elif a.tn == 'bytes':
                    a = K(b'', a.lb)
            out.append(a)
        return frozenset(out)

    def truth(self, a):
        if isinstance(a, Ka):
            return bool(a.v)
        if isinstance(a, Ta):
            if a.tn == 'int' and isinstance(a.aux, Lin):
                if a.aux.lo() > 0 or a.aux.hi() < 0 or self.entails2(lin_add(a.aux, lin(-1))):
                    return True
                if a.aux.lo() == 0 == a.aux.hi():
                    return False
            if a.tn in ('str', 'bytes') and a.aux is not None:
                if a.aux[0] is not None:
                    if a.aux[0].lo() > 0:
                        return True
                    if a.aux[0].hi() == 0:
                        return False
            return None
        if isinstance(a, Tua):
            if a.cls and self.class_lookup(a.cls, '__len__'):
                return None
            return bool(a.items)
        if isinstance(a, Fna):
            return True
        if isinstance(a, Pa):
            o = self.get(a.loc)
            if o is None:
                return None
            if o.kind in ('inst', 'file', 'env', 'iter'):
                return True
            if o.exact is not None:
                return bool(o.exact)
            if o.must:
                return True
            if o.ln is not None:
                if o.ln.lo() > 0:
                    return True
                if o.ln.hi() <= 0:
                    return False
            if not o.fields and not o.other and not o.okeys and o.kind in ('dict', 'set'):
                return False
            if o.kind in ('dict',) and not o.other and all(not v for v in o.fields.values()):
                return False
            return None
        return None

    def refine(self, st, e, f, present=False):
        """Filter the value of place expression e in st with f; None if nothing is left."""
        save = self.st
        self.st = st
        try:
            return self._refine(st, e, f, present)
        except Dead:
            return None
        finally:
            self.st = save

    def _refine(self, st, e, f, present):
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name):
            fr = st.frames[-1]
            v = fr.vars.get(e.id)
            if v is None:
                return st
            w = f(v - {UNB})
            if not w:
                return None
            if w != v:
                fr = fr.copy()
                fr.vars[e.id] = w
                st.frames[-1] = fr
                al = fr.cf.get(e.id)
                if al is not None and isinstance(al[0], ast.Subscript):
                    # the variable holds the current value of a place
                    r = self._refine(st, al[0], lambda x: f(x), present)
                    st = r if r is not None else st
            return st
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and len(e.args) >= 1:
            # d.get(k): refine the key when None is excluded
            dflt = NONE
            if len(e.args) > 1:
                return st
            probe = f(frozenset([K(None)]))
            if probe:
                # None remains possible: only drop constants
                return st
            base = self.eval(e.func.value)
            key = self.eval(e.args[0])
            st = self.st
            if len(base) == 1:
                a = next(iter(base))
                kc = self.key_consts(key, self.get(a.loc)) if isinstance(a, Pa) else None
                if isinstance(a, Pa) and kc is not None and len(kc) == 1:
                    o = self.get(a.loc)
                    if o is not None and o.unique and o.kind == 'dict':
                        v, p = self.read_key(a.loc, kc[0])
                        w = f(v)
                        if not w:
                            return None
                        st.heap[a.loc] = o.upd(fields={**o.fields, kc[0]: w}, must=o.must | {kc[0]})
            return st
        if isinstance(e, (ast.Subscript, ast.Attribute)) and self.is_place(e):
            self.push(self.eval(e.value))
            cur = self.eval(e)
            self.push(cur)
            kv = self.eval_index(e.slice) if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice) else None
            cur = self.pop()
            base = self.pop()
            st = self.st
            w = f(cur)
            if not w:
                return None
            if w == cur:
                return st
            if len(base) == 1:
                a = next(iter(base))
                if isinstance(a, Pa):
                    o = self.get(a.loc)
                    k = None
                    if isinstance(e, ast.Attribute):
                        k = e.attr
                    else:
                        kc = self.key_consts(kv, o) if kv is not None else None
                        if kc and len(kc) == 1:
                            k = kc[0]
                    if o is not None and o.unique and k is not None:
                        if o.exact is not None:
                            if isinstance(k, int) and -len(o.exact) <= k < len(o.exact):
                                ex = list(o.exact)
                                ex[k] = w
                                st.heap[a.loc] = o.upd(exact=tuple(ex))
                                return st
                        elif o.kind in ('dict', 'inst') or (o.kind == 'list' and k in o.fields):
                            st.heap[a.loc] = o.upd(fields={**o.fields, k: w})
                            return st
            names = frozenset(n.id for n in ast.walk(e) if isinstance(n, ast.Name))
            ls = frozenset(self.place_locs(e))
            fr = st.frames[-1].copy()
            fr.pf[self.txt(e)] = (w, names, ls)
            st.frames[-1] = fr
            return st
        return st

    def is_place(self, e):
        if isinstance(e, ast.Name):
            return True
        if isinstance(e, ast.Attribute):
            return self.is_place(e.value)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return False
            return self.is_place(e.value) and self.pure_index(e.slice)
        return False

    def pure_index(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in ('int', 'len', 'str')):
                    return False
            elif isinstance(n, (ast.NamedExpr, ast.ListComp, ast.Lambda)):
                return False
        return True

    def place_locs(self, e):
        """Heap objects read along a place expression."""
        out = set()
        while isinstance(e, (ast.Subscript, ast.Attribute)):
            if not self.is_place(e):
                return out
            b = self.eval(e.value)
            out |= set(locs(b))
            if isinstance(e, ast.Subscript):
                for n in ast.walk(e.slice):
                    if isinstance(n, (ast.Subscript, ast.Attribute)):
                        out |= set(locs(self.eval(n.value)))
            e = e.value
        return out

    def branch_call(self, e):
        # type predicates
        if isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2 and not e.keywords:
            v = self.eval(e.args[0])
            self.push(v)
            c = self.eval(e.args[1])
            v = self.pop()
            names = self.class_names(c)
            if names is not None:
                yes = frozenset(x for x in (self.inst_filter(a, names, True) for a in v) if x is not None)
                no = frozenset(x for x in (self.inst_filter(a, names, False) for a in v) if x is not None)
                st = self.st
                a = st.copy() if yes else None
                b = st if no else None
                if a is not None:
                    a = self.refine(a, e.args[0], lambda x: frozenset(y for y in (self.inst_filter(z, names, True) for z in x) if y is not None))
                if b is not None:
                    b = self.refine(b, e.args[0], lambda x: frozenset(y for y in (self.inst_filter(z, names, False) for z in x) if y is not None))
                return a, b
        if isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
            return self.branch(e.args[0])
        # predicate helpers of the program: keep the returns apart
        f = self.eval(e.func)
        if len(f) == 1:
            a = next(iter(f))
            fn = None
            pre = []
            if isinstance(a, Fna) and a.kind == 'func':
                fn = a
            elif isinstance(a, Fna) and a.kind == 'bound':
                fn, pre = a.ref, [frozenset([a.extra])]
            if fn is not None and fn.ref.node not in self.recursive and not fn.ref.is_gen and len(e.keywords) == 0 and not any(isinstance(x, ast.Starred) for x in e.args):
                args = []
                base = len(self.st.temps)
                for x in e.args:
                    self.push(self.eval(x))
                args = pre + self.st.temps[base:]
                del self.st.temps[base:]
                snapshot = self.st.copy()
                try:
                    outs = self.call_func(fn, args, {}, e, split=True)
                except Restart:
                    raise
                if isinstance(outs, frozenset):
                    vt, vf = self.truthy(outs), self.falsy(outs)
                    st = self.st
                    return (st.copy() if vt else None), (st if vf else None)
                params = [x.arg for x in fn.ref.node.args.posonlyargs + fn.ref.node.args.args]
                assigned = self.assigned_names(fn.ref.node)
                ts, fs = [], []
                for i, (st, v, ps) in enumerate(outs):
                    self.st = st
                    for side, acc in ((self.truthy(v), ts), (self.falsy(v), fs)):
                        if not side:
                            continue
                        s2 = st.copy()
                        ok = True
                        for p, ax in zip(params[len(pre):], e.args):
                            if p in assigned:
                                continue
                            w = ps.get(p)
                            if w:
                                s2 = self.refine(s2, ax, lambda x, w=w: frozenset(y for y in x if y in w) or w)
                                if s2 is None:
                                    ok = False
                                    break
                        if ok:
                            acc.append(s2)
                k = ('bc', node_id(e), self.fi.ctx)
                return self.join_all(ts, k), self.join_all(fs, k)
        v = self.eval_call_with(e, f)
        vt, vf = self.truthy(v), self.falsy(v)
        st = self.st
        a = st.copy() if vt else None
        b = st if vf else None
        if a is not None:
            a = self.refine_call(e, True, a)
        if b is not None:
            b = self.refine_call(e, False, b)
        return a, b

    def eval_call_with(self, e, f):
        return self.e_Call(e)

    def assigned_names(self, fnode):
        k = ('asg', fnode)
        r = self.memo.get(k)
        if r is None:
            r = {n.id for n in ast.walk(fnode) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
            self.memo[k] = r
        return r

    def refine_call(self, e, truth, st):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get':
            return self.refine(st, e, lambda x: self.truthy(x) if truth else self.falsy(x))
        return st

    def class_names(self, c):
        out = set()
        for a in c:
            if isinstance(a, Tua):
                for i in a.items:
                    r = self.class_names(i)
                    if r is None:
                        return None
                    out |= r
            elif isinstance(a, Fna) and a.kind == 'type':
                out.add(a.ref)
            elif isinstance(a, Fna) and a.kind == 'class':
                out.add(a.ref.name)
            else:
                return None
        return out

    def atom_type(self, a):
        if isinstance(a, (Ka, Ta)):
            return a.tn
        if isinstance(a, Tua):
            return a.cls or 'tuple'
        if isinstance(a, Pa):
            t = self.obj_type(a.loc)
            return t
        if isinstance(a, Fna):
            return 'function'
        return None

    def inst_filter(self, a, names, want):
        t = self.atom_type(a)
        if t is None or t == 'mixed':
            if isinstance(a, Ua) and want and len(names) == 1:
                n = next(iter(names))
                if n in ('int', 'str', 'bytes', 'float', 'bool', 'complex'):
                    return T(n, a.lb)
            return a
        hit = t in names or (t == 'bool' and 'int' in names) or 'object' in names
        if not hit and t in self.classes:
            c = self.classes[t]
            todo = list(c.bases)
            while todo:
                b = todo.pop()
                if b.name in names:
                    hit = True
                todo.extend(b.bases)
            if c.fieldnames() is not None and 'tuple' in names:
                hit = True
        return a if hit == want else None

    def branch_compare(self, e):
        if len(e.ops) > 1:
            # a < b < c  ->  (a < b) and (b < c)
            left = e.left
            outs, outs0 = [], []
            for op, right in zip(e.ops, e.comparators):
                k = ('cc', e, len(outs0))
                outs0.append(0)
                c = self.memo.get(k)
                if c is None:
                    c = ast.Compare(left, [op], [right])
                    ast.copy_location(c, e)
                    c._mod = e._mod
                    c.col_offset = left.col_offset
                    c.end_col_offset = right.end_col_offset
                    self.memo[k] = c
                t, f = self.branch(c)
                if f is not None:
                    outs.append(f)
                self.st = t
                left = right
                if t is None:
                    break
            return self.st, self.join_all(outs, ('bcc', node_id(e), self.fi.ctx))
        op = e.ops[0]
        neg = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        L, R = e.left, e.comparators[0]
        lv = self.eval(L)
        self.push(lv)
        rv = self.eval(R)
        lv = self.pop()
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            t, f = self.cmp_eq(L, R, lv, rv, e)
        elif isinstance(op, (ast.In, ast.NotIn)):
            t, f = self.cmp_in(L, R, lv, rv, e)
        else:
            t, f = self.cmp_rel(op, L, R, lv, rv, e)
        return (f, t) if neg else (t, f)

    def type_arg(self, e):
        """x when e is type(x) or x.__class__."""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
            return e.args[0]
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return e.value
        return None

    def cmp_eq(self, L, R, lv, rv, e):
        for A, B, av, bv in ((L, R, lv, rv), (R, L, rv, lv)):
            x = self.type_arg(A)
            if x is not None:
                names = self.class_names(bv)
                if names is not None:
                    return self.refine_type(x, names)
        eq = self.may_eq(lv, rv)
        st = self.st
        a = st.copy() if eq[0] else None
        b = st if eq[1] else None
        for X, xv, ov in ((L, lv, rv), (R, rv, lv)):
            c = single_const(ov)
            if c is not None:
                if a is not None:
                    a = self.refine(a, X, lambda x: frozenset(y for y in (self.eq_filter(z, c) for z in x) if y is not None))
                if b is not None:
                    b = self.refine(b, X, lambda x: frozenset(z for z in x if not (isinstance(z, Ka) and type(z.v) is type(c.v) and z.v == c.v)))
            elif a is not None and consts(ov) is not None:
                cs = [o for o in ov]
                a = self.refine(a, X, lambda x: frozenset(z for z in x if not isinstance(z, Ka) or any(z.v == o.v for o in cs)))
        if self.numeric:
            la, lb = self.int_lin(lv), self.int_lin(rv)
            if la is not None and lb is not None:
                d = lin_sub(la, lb)
                if a is not None:
                    if not self.add_fact(a, d) or not self.add_fact(a, lin_scale(d, -1)):
                        a = None
                if b is not None:
                    # d != 0 strengthens a one-sided bound
                    self.st = b
                    if self.entails2(d):
                        if not self.add_fact(b, lin_add(d, lin(-1))):
                            b = None
                    elif self.entails2(lin_scale(d, -1)):
                        if not self.add_fact(b, lin_add(lin_scale(d, -1), lin(-1))):
                            b = None
        return a, b

    def eq_filter(self, z, c):
        if isinstance(z, Ka):
            if z.tn == 'none' or c.tn == 'none':
                return z if z.tn == c.tn else None
            try:
                return z if z.v == c.v else None
            except Exception:
                return None
        if isinstance(z, Ta):
            if z.tn == c.tn:
                if self.numeric and z.tn == 'int':
                    return K(c.v, self.client.const_refine(z.lb))
                return K(c.v, self.client.const_refine(z.lb))
            if z.tn in ('int', 'float', 'bool', 'complex') and c.tn in ('int', 'float', 'bool', 'complex'):
                return z
            return None
        if isinstance(z, Ua):
            return K(None) if c.tn == 'none' else z
        return None

    def int_lin(self, v):
        if len(v) == 1:
            a = next(iter(v))
            if isinstance(a, Ka) and a.tn == 'int':
                return lin(a.v)
            if isinstance(a, Ta) and a.tn == 'int' and isinstance(a.aux, Lin):
                return a.aux
        elif v and all(isinstance(a, Ka) and a.tn == 'int' for a in v) and self.numeric:
            vs = sorted(a.v for a in v)
            return lin_of(sym(('set', tuple(vs)), vs[0], vs[-1]))
        return None

    def refine_type(self, x, names):
        v = self.eval(x)
        st = self.st

        def yes(vv):
            out = []
            for a in vv:
                t = self.atom_type(a)
                if t is None or t == 'mixed':
                    if isinstance(a, Ua) and len(names) == 1:
                        n = next(iter(names))
                        out.append(T(n, a.lb) if n in ('int', 'str', 'bytes', 'float', 'bool', 'complex') else a)
                    else:
                        out.append(a)
                elif t in names or (t == 'none' and 'NoneType' in names):
                    out.append(a)
            return frozenset(out)

        def no(vv):
            return frozenset(a for a in vv if not (self.atom_type(a) in names))
        a = st.copy() if yes(v) else None
        b = st if no(v) else None
        if a is not None:
            a = self.refine(a, x, yes)
        if b is not None:
            b = self.refine(b, x, no)
        return a, b

    def may_eq(self, lv, rv):
        """(may be equal, may differ)."""
        t = f = False
        for a in lv:
            for b in rv:
                r = self.eq_atoms(a, b)
                if r is not False:
                    t = True
                if r is not True:
                    f = True
                if t and f:
                    return t, f
        return t, f

    def eq_atoms(self, a, b):
        """True / False / None (unknown)."""
        if isinstance(a, Ka) and isinstance(b, Ka):
            try:
                return bool(a.v == b.v)
            except Exception:
                return None
        if isinstance(a, Ua) or isinstance(b, Ua):
            return None
        ta, tb = self.atom_type(a), self.atom_type(b)
        num = ('int', 'float', 'bool', 'complex')
        if isinstance(a, (Ka, Ta)) and isinstance(b, (Ka, Ta)):
            if ta in num and tb in num:
                if self.numeric and ta == 'int' and tb == 'int':
                    la = lin(a.v) if isinstance(a, Ka) else a.aux
                    lb = lin(b.v) if isinstance(b, Ka) else b.aux
                    if isinstance(la, Lin) and isinstance(lb, Lin):
                        d = lin_sub(la, lb)
                        if d.lo() == 0 == d.hi() and not d.terms:
                            return True
                        if d.lo() > 0 or d.hi() < 0 or self.entails2(lin_add(d, lin(-1))) or self.entails2(lin_add(lin_scale(d, -1), lin(-1))):
                            return False
                return None
            if ta != tb:
                return False
            if self.shapes and ta in ('str', 'bytes'):
                pass
            if self.numeric and ta in ('str', 'bytes'):
                la, lb = self.saux(a)[0], self.saux(b)[0]
                if la is not None and lb is not None:
                    d = lin_sub(la, lb)
                    if d.lo() > 0 or d.hi() < 0:
                        return False
            return None
        if isinstance(a, Fna) and isinstance(b, Fna):
            if a is b:
                return True
            if a.kind in ('type', 'class') and b.kind in ('type', 'class'):
                return a.ref is b.ref or a.ref == b.ref
            return None
        if isinstance(a, Pa) and isinstance(b, Pa):
            if a is b and self.get(a.loc) is not None and self.get(a.loc).unique:
                return True
            oa, ob = self.get(a.loc), self.get(b.loc)
            if oa is not None and ob is not None and oa.kind != ob.kind and 'mixed' not in (oa.kind, ob.kind):
                return False
            if oa is not None and ob is not None and oa.exact is not None and ob.exact is not None and len(oa.exact) != len(ob.exact):
                return False
            return self.eq_struct(oa, ob)
        if isinstance(a, Tua) and isinstance(b, Tua):
            if a.cls is None and b.cls is None and len(a.items) != len(b.items):
                return False
            if len(a.items) == len(b.items):
                return self.eq_all([(x, y) for x, y in zip(a.items, b.items)])
            return None
        if type(a) is not type(b):
            if isinstance(a, (Ka, Ta, Pa, Fna)) and isinstance(b, (Ka, Ta, Pa, Fna)):
                return False
            if isinstance(a, Tua) and isinstance(b, (Ka, Ta)) or isinstance(b, Tua) and isinstance(a, (Ka, Ta)):
                return False
        return None

    def eq_all(self, pairs):
        """Equality of all pairs of values: True / False / None."""
        res = True
        for x, y in pairs:
            if len(x) != 1 or len(y) != 1:
                t, f = self.may_eq(x, y)
                r = None if t and f else t
            else:
                r = self.eq_atoms(next(iter(x)), next(iter(y)))
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def eq_struct(self, a, b, d=[0]):
        """Equality of two heap objects whose contents are known."""
        if a is None or b is None or a.kind != b.kind or not a.unique or not b.unique or d[0] > 8:
            return None
        d[0] += 1
        try:
            if a.kind == 'list' and a.exact is not None and b.exact is not None and len(a.exact) == len(b.exact):
                return self.eq_all(zip(a.exact, b.exact))
            if a.kind == 'dict':
                for x, y in ((a, b), (b, a)):
                    if not x.other and not x.okeys and any(k not in x.fields or not x.fields[k] for k in y.must):
                        return False
                both = a.must & b.must
                r = self.eq_all([(a.fields[k], b.fields[k]) for k in both])
                if r is False:
                    return False
                if not a.other and not a.okeys and not b.other and not b.okeys and all(k in both or not a.fields[k] for k in a.fields) and all(k in both or not b.fields[k] for k in b.fields):
                    return r
        finally:
            d[0] -= 1
        return None

    def cmp_in(self, L, R, lv, rv, e):
        may_t = may_f = False
        for b in rv:
            t, f = self.member(lv, b)
            may_t |= t
            may_f |= f
        st = self.st
        a = st.copy() if may_t else None
        bb = st if may_f else None
        kc = self.key_consts(lv)
        # constant in container: presence of the key
        if kc is not None and len(kc) == 1 and self.is_place(R):
            k = kc[0]
            if a is not None:
                a = self.refine_key(a, R, k, True)
            if bb is not None:
                bb = self.refine_key(bb, R, k, False)
        # value in container of constants: restrict the value
        if a is not None:
            cs = self.container_consts(rv)
            if cs is not None and self.is_place(L) and len(cs) <= 24:
                a = self.refine(a, L, lambda x: self.in_filter(x, cs))
        if bb is not None:
            cs = self.container_consts(rv, True)
            if cs is not None:
                ks = {(type(c.v), c.v) for c in cs}
                bb = self.refine(bb, L, lambda x: frozenset(z for z in x if not (isinstance(z, Ka) and (type(z.v), z.v) in ks)))
        return a, bb

    def in_filter(self, x, cs):
        out = set()
        for z in x:
            if isinstance(z, Ka):
                if any(c.v == z.v for c in cs):
                    out.add(z)
            elif isinstance(z, Ta):
                m = [c for c in cs if c.tn == z.tn]
                if m:
                    out |= {K(c.v, self.client.const_refine(z.lb)) for c in m}
            elif isinstance(z, Ua):
                out.add(z)
        return frozenset(out)

    def container_consts(self, rv, sure=False):
        """The constants a container may hold (only those it certainly holds, when sure)."""
        out = []
        if sure and len(rv) != 1:
            return None
        for b in rv:
            if isinstance(b, Tua):
                for i in b.items:
                    for x in i:
                        if not isinstance(x, Ka):
                            return None
                        out.append(x)
            elif isinstance(b, Pa):
                o = self.get(b.loc)
                if o is None:
                    return None
                if o.kind in ('list', 'set') and (o.exact is not None or o.kind == 'set'):
                    if sure and o.exact is None and not (o.must and len(o.elems()) == 1):
                        # a set display: every element of the display is there
                        if not (o.unique and '$ne' in o.must and o.site and o.site[2] == 'set' and not o.site[1]):
                            return None
                    if sure and o.exact is not None:
                        out.extend(c for c in map(single_const, o.exact) if c is not None)
                        continue
                    for x in o.elems():
                        if not isinstance(x, Ka):
                            return None
                        out.append(x)
                elif o.kind == 'dict' and not o.other and not o.okeys:
                    out.extend(key_atom(k) for k, v in o.fields.items() if v and (not sure or k in o.must))
                elif sure and o.kind == 'dict':
                    out.extend(key_atom(k) for k in o.must)
                else:
                    return None
            else:
                return None
        return out

    def refine_key(self, st, R, k, present):
        save = self.st
        self.st = st
        try:
            base = self.eval(R)
            st = self.st
            keep = []
            for b in base:
                t, f = self.member(V(key_atom(k)), b)
                if (t if present else f):
                    keep.append(b)
            if not keep:
                return None
            if len(keep) < len(base):
                ks = frozenset(keep)
                st = self.refine(st, R, lambda x: frozenset(z for z in x if z in ks))
                if st is None:
                    return None
                self.st = st
            if len(keep) == 1 and isinstance(keep[0], Pa):
                o = self.get(keep[0].loc)
                if o is not None and o.unique and o.kind == 'dict':
                    f = dict(o.fields)
                    if present:
                        v = f.get(k, o.other)
                        if not v:
                            return None
                        f[k] = v
                        st.heap[keep[0].loc] = o.upd(fields=f, must=o.must | {k})
                    else:
                        if k in o.must:
                            return None
                        f[k] = EMPTY
                        st.heap[keep[0].loc] = o.upd(fields=f)
            return st
        except Dead:
            return None
        finally:
            self.st = save

    def lin_member(self, lv, items):
        """Is the number among the items: True, False or None (not known, or no numbers)?"""
        if not self.lin_holes or len(lv) != 1:
            return None
        l = self.int_lin(lv)
        if l is None:
            return None
        if not l.terms and not any((x := self.int_lin(i)) is not None and x.terms for i in items):
            return None
        r = False
        for i in items:
            x = self.int_lin(i)
            if x is None:
                c = single_const(i)
                if c is not None and not isinstance(c.v, (int, float, complex)):
                    continue
                return None
            if x is l:
                return True
            if not self.nonzero(lin_sub(l, x)):
                r = None
        return r

    def member(self, lv, b):
        """May lv be in / not in b."""
        if isinstance(b, Pa):
            o = self.get(b.loc)
            if o is None:
                return True, True
            if o.kind == 'inst':
                return True, True
            kc = self.key_consts(lv, o)
            if o.kind == 'dict':
                if kc is None:
                    return (bool(o.fields) or bool(o.other) or bool(o.okeys)), True
                t = f = False
                for k in kc:
                    if k in o.must:
                        t = True
                    elif k in o.fields:
                        if o.fields[k]:
                            t = f = True
                        else:
                            f = True
                    else:
                        f = True
                        if o.other:
                            t = True
                return t, f
            el = o.elems()
            if not el:
                return False, True
            r = self.lin_member(lv, o.exact) if o.exact is not None and o.unique else None
            if r is not None:
                return r, not r
            t, f = self.may_eq(lv, el)
            if o.exact is not None and kc is not None and len(kc) == 1 and any(single_const(v) is not None and single_const(v).v == kc[0] for v in o.exact):
                return True, False
            return t, True
        if isinstance(b, Tua):
            t = False
            surely = False
            r = self.lin_member(lv, b.items)
            if r is not None:
                return r, not r
            kc = self.key_consts(lv)
            for i in b.items:
                x, y = self.may_eq(lv, i)
                if x:
                    t = True
                if x and not y:
                    surely = True
            if kc is not None and b.items and all(any((c := single_const(i)) is not None and c.v == k for i in b.items) for k in kc):
                surely = True
            return t, not surely
        if isinstance(b, Ka):
            if b.tn == 'none':
                self.client.on_none(self, self.cur_node(), 'in')
                return False, False
            t = f = False
            for a in lv:
                if isinstance(a, Ka):
                    try:
                        r = a.v in b.v
                        t |= r
                        f |= not r
                    except TypeError:
                        pass
                else:
                    t = f = True
            return t, f
        if isinstance(b, Ta):
            if b.tn in ('str', 'bytes'):
                return True, True
            return False, False
        return True, True

    def cur_node(self):
        return self.fi.node

    def cmp_rel(self, op, L, R, lv, rv, e):
        # overloaded / unknown
        pairs_t = pairs_f = False
        okl, okr = set(), set()
        for a in lv:
            for b in rv:
                if isinstance(a, Ka) and isinstance(b, Ka):
                    try:
                        r = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)](a.v, b.v)
                    except TypeError:
                        if a.v is None or b.v is None:
                            self.client.on_none(self, e, 'compare')
                        continue
                    pairs_t |= r
                    pairs_f |= not r
                    continue
                if (isinstance(a, Ka) and a.v is None) or (isinstance(b, Ka) and b.v is None):
                    self.client.on_none(self, e, 'compare')
                    continue
                ta, tb = self.atom_type(a), self.atom_type(b)
                num = ('int', 'float', 'bool')
                if isinstance(a, (Ka, Ta)) and isinstance(b, (Ka, Ta)):
                    if not ((ta in num and tb in num) or ta == tb):
                        continue
                    if self.numeric and ta == 'int' and tb == 'int':
                        la = lin(a.v) if isinstance(a, Ka) else a.aux
                        lb = lin(b.v) if isinstance(b, Ka) else b.aux
                        if isinstance(la, Lin) and isinstance(lb, Lin):
                            # normal form: d >= 0 when true
                            d = self.rel_form(op, la, lb)
                            if d.lo() >= 0 or self.entails2(d):
                                pairs_t = True
                                continue
                            n = lin_add(lin(-1), d, -1)
                            if n.lo() >= 0 or self.entails2(n):
                                pairs_f = True
                                continue
                    if self.lin_holes and ta == tb == 'bytes' and hasattr(self.client, 'text_digit'):
                        x, y = (a, b) if isinstance(a, Ta) else (b, a)
                        if isinstance(x, Ta) and isinstance(y, Ka) and len(y.v) == 1 and not 0x30 < y.v[0] < 0x39 and self.client.text_digit(self, x):
                            r = [{ast.Lt: p < q, ast.LtE: p <= q, ast.Gt: p > q, ast.GtE: p >= q}[type(op)] for g in b'0123456789' for p, q in [(bytes([g]), y.v) if x is a else (y.v, bytes([g]))]]
                            pairs_t |= any(r)
                            pairs_f |= not all(r)
                            continue
                elif isinstance(a, Pa) and isinstance(b, (Ka, Ta)) or isinstance(b, Pa) and isinstance(a, (Ka, Ta)):
                    continue
                pairs_t = pairs_f = True
        st = self.st
        a = st.copy() if pairs_t else None
        b = st if pairs_f else None
        if self.numeric:
            la, lb = self.int_lin(self.ints(lv)), self.int_lin(self.ints(rv))
            if la is not None and lb is not None:
                d = self.rel_form(op, la, lb)
                if a is not None and not self.add_fact(a, d):
                    a = None
                if b is not None and not self.add_fact(b, lin_add(lin(-1), d, -1)):
                    b = None
        # drop constants excluded by a comparison with a constant
        for X, o2, flip in ((L, rv, False), (R, lv, True)):
            c = single_const(o2)
            if c is None or c.tn not in ('int', 'float', 'str', 'bytes'):
                continue

            def ok(z, want, c=c, flip=flip):
                if not isinstance(z, Ka):
                    return True
                try:
                    x, y = (c.v, z.v) if flip else (z.v, c.v)
                    r = {ast.Lt: lambda p, q: p < q, ast.LtE: lambda p, q: p <= q, ast.Gt: lambda p, q: p > q, ast.GtE: lambda p, q: p >= q}[type(op)](x, y)
                    return r == want
                except TypeError:
                    return False
            if a is not None:
                a = self.refine(a, X, lambda x: frozenset(z for z in x if ok(z, True)))
            if b is not None:
                b = self.refine(b, X, lambda x: frozenset(z for z in x if ok(z, False)))
        return a, b

    def ints(self, v):
        return frozenset(a for a in v if isinstance(a, (Ka, Ta)) and a.tn == 'int')

    def rel_form(self, op, la, lb):
        if isinstance(op, ast.Lt):
            return lin_add(lin_sub(lb, la), lin(-1))
        if isinstance(op, ast.LtE):
            return lin_sub(lb, la)
        if isinstance(op, ast.Gt):
            return lin_add(lin_sub(la, lb), lin(-1))
        return lin_sub(la, lb)


def type_eq(key, fields):
    """Guard against 0 == False and 1 == True key confusions."""
    return True
