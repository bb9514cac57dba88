"""P28: every name used exists and every call fits its callee."""

import ast

from sa.model import *
from sa.scan import *


def check(ctx):
    p = ctx.program
    sc = Scan(p)
    for m in p.modules.values():
        ns = sc.mod[m.name]
        for k, v in sorted(ns.items()):
            if v[0] == 'missing' and v[2]._mod is m:
                ctx.violation(f'{m.name}:import:{k}', f'{where(v[2])} imports {v[1]}, which does not exist')
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                ctx.count('name_uses')
                if sc.lookup(m, sc.chain_of(n), n.id) is None and m.name not in sc.unresolved_star:
                    ctx.violation(f'{m.name}:{func_of(n)}:{n.id}', f'{where(n)} in {func_of(n)}: the name {n.id} is not defined anywhere it could come from')
            elif isinstance(n, ast.Attribute):
                d = sc.ext_name(m, n)
                if d is not None:
                    ctx.count('library_attributes')
                    if not sc.ext_exists(d):
                        ctx.violation(f'{m.name}:{func_of(n)}:{d}', f'{where(n)} in {func_of(n)}: {d} does not exist in the library')
            if isinstance(n, ast.Call):
                call(ctx, sc, m, n)
            if isinstance(n, ast.Assign):
                unpack(ctx, sc, m, n)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ctx.count('functions')
                unbound(ctx, m, n)
    ctx.count('modules', len(p.modules))
    ctx.explain('Scope resolution of every name use through locals, closures, module namespaces and star imports; arity and keyword check of every '
                'call whose callee is known; reaching definitions for local variables (a use no definition can reach).')


def call(ctx, sc, m, n):
    f = n.func
    node = None
    skip = 0
    if isinstance(f, ast.Name):
        r = sc.lookup(m, sc.chain_of(f), f.id)
        if r is None:
            return
        if r[0] == 'def':
            node = r[2]
        elif r[0] == 'local':
            defs = sc.bound(r[1])[0][f.id]
            if len(defs) == 1 and isinstance(defs[0], ast.FunctionDef):
                node = defs[0]
    if isinstance(node, ast.ClassDef):
        init = next((x for x in node.body if isinstance(x, ast.FunctionDef) and x.name == '__init__'), None)
        if init is None:
            return
        node, skip = init, 1
    if not isinstance(node, ast.FunctionDef):
        return
    if node.decorator_list:
        return
    # a later rebinding of the name in the module makes the callee unknown
    ctx.count('calls_checked')
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
        return
    key = f'{m.name}:{func_of(n)}:{node.name}()'
    if len(n.args) > len(pos) and not a.vararg:
        ctx.violation(key, f'{where(n)} in {func_of(n)}: {node.name} is given {len(n.args)} arguments and takes {len(pos)}')
        return
    given = set(pos[:len(n.args)])
    konly = [x.arg for x in a.kwonlyargs]
    for k in n.keywords:
        if k.arg in given:
            ctx.violation(key, f'{where(n)} in {func_of(n)}: {node.name} is given {k.arg} twice')
        elif k.arg not in pos and k.arg not in konly and not a.kwarg:
            ctx.violation(key, f'{where(n)} in {func_of(n)}: {node.name} has no parameter {k.arg}')
        given.add(k.arg)
    need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in given]
    if miss:
        ctx.violation(key, f'{where(n)} in {func_of(n)}: {node.name} needs {", ".join(miss)}')


def unpack(ctx, sc, m, n):
    """a, b = f(...): every tuple written out in a return of f has the right length."""
    v = n.value
    t = n.targets[0]
    if not isinstance(t, (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in t.elts):
        return
    if not isinstance(v, ast.Call) or not isinstance(v.func, ast.Name):
        return
    r = sc.lookup(m, sc.chain_of(v.func), v.func.id)
    if r is None or r[0] != 'def' or not isinstance(r[2], ast.FunctionDef) or r[2].decorator_list:
        return
    f = r[2]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(f)):
        return
    ctx.count('unpackings_checked')
    for x in own_nodes(f):
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Tuple) and not any(isinstance(y, ast.Starred) for y in x.value.elts):
            if len(x.value.elts) != len(t.elts):
                ctx.violation(f'{m.name}:{func_of(n)}:{f.name}:unpack',
                              f'{where(n)} in {func_of(n)} unpacks {len(t.elts)} values, {f.name} returns {len(x.value.elts)} at {where(x)}')


# ---------------------------------------------------------------- uses no definition reaches

class Flow(object):
    """May-be-bound analysis: the set of locals that some path has bound."""

    def __init__(self, ctx, m, fn):
        self.ctx, self.m, self.fn = ctx, m, fn
        b, g = bound_names(fn)
        self.locals = {k for k in b} - g
        self.loops = []

    def use(self, e, s):
        """Visit the names read by an expression in evaluation scope."""
        if e is None or s is None:
            return
        todo = [e]
        while todo:
            n = todo.pop()
            if isinstance(n, FN) or isinstance(n, ast.ClassDef):
                continue
            if isinstance(n, COMP):
                todo.append(n.generators[0].iter)
                inner = set()
                for g in n.generators:
                    inner |= set(targets(g.target))
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in inner:
                        self.name(x, s)
                continue
            if isinstance(n, ast.NamedExpr):
                s.add(n.target.id)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.name(n, s)
            todo.extend(ast.iter_child_nodes(n))

    def name(self, n, s):
        if n.id in self.locals and n.id not in s:
            self.ctx.violation(f'{self.m.name}:{func_of(n)}:{n.id}', f'{where(n)} in {func_of(n)}: no assignment of {n.id} can reach this use')

    def block(self, body, s):
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        return s

    @staticmethod
    def join(*xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        out = set()
        for x in xs:
            out |= x
        return out

    def stmt(self, st, s):
        t = type(st)
        if t in (ast.Assign,):
            self.use(st.value, s)
            for x in st.targets:
                self.target(x, s)
            return s
        if t is ast.AnnAssign:
            self.use(st.value, s)
            if st.value is not None:
                self.target(st.target, s)
            return s
        if t is ast.AugAssign:
            self.use(st.value, s)
            if isinstance(st.target, ast.Name):
                self.name(st.target, s)
            else:
                self.use(st.target, s)
            self.target(st.target, s)
            return s
        if t in (ast.For, ast.AsyncFor):
            self.use(st.iter, s)
            first = set(s)
            # one pass collects what the body may bind, a second one reports
            brk = []
            self.loops.append(brk)
            cur = set(s)
            self.target(st.target, cur)
            mute, self.ctx_ = self.ctx, None
            self.ctx = Mute()
            out = self.block(st.body, set(cur))
            out = self.join(cur, out, *brk)
            self.ctx = mute
            brk.clear()
            out2 = self.block(st.body, set(out))
            self.loops.pop()
            r = self.join(first, out2, out)
            r = self.block(st.orelse, r)
            return self.join(r, *brk)
        if t is ast.While:
            brk = []
            self.loops.append(brk)
            mute = self.ctx
            self.ctx = Mute()
            self.use(st.test, s)
            out = self.block(st.body, set(s))
            out = self.join(s, out, *brk)
            self.ctx = mute
            brk.clear()
            # the first evaluation of the test sees only what came before
            self.use(st.test, set(s))
            out2 = self.block(st.body, set(out))
            self.loops.pop()
            r = self.join(s, out2, out)
            if isinstance(st.test, ast.Constant) and st.test.value and not brk:
                return None
            r = self.block(st.orelse, r)
            return self.join(r, *brk)
        if t is ast.If:
            self.use(st.test, s)
            return self.join(self.block(st.body, set(s)), self.block(st.orelse, set(s)))
        if t in (ast.With, ast.AsyncWith):
            for i in st.items:
                self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, s)
            return self.block(st.body, s)
        if t is ast.Try or t.__name__ == 'TryStar':
            mute = self.ctx
            self.ctx = Mute()
            n = len(self.loops)
            allb = set(s)
            for x in st.body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                        allb.add(y.id)
            self.ctx = mute
            b = self.block(st.body, set(s))
            b = self.block(st.orelse, b) if b is not None else None
            outs = [b]
            for h in st.handlers:
                hs = set(allb)
                if h.name:
                    hs.add(h.name)
                outs.append(self.block(h.body, hs))
            r = self.join(*outs)
            if st.finalbody:
                fb = self.join(r, allb)
                f = self.block(st.finalbody, set(fb))
                r = None if (r is None or f is None) else self.join(r, f)
            return r
        if t in (ast.Return,):
            self.use(st.value, s)
            return None
        if t is ast.Raise:
            self.use(st.exc, s)
            return None
        if t is ast.Break:
            if self.loops:
                self.loops[-1].append(set(s))
            return None
        if t is ast.Continue:
            if self.loops:
                self.loops[-1].append(set(s))
            return None
        if t in (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef):
            s.add(st.name)
            return s
        if t in (ast.Import, ast.ImportFrom):
            for a in st.names:
                s.add((a.asname or a.name).split('.')[0])
            return s
        if t is ast.Match:
            self.use(st.subject, s)
            outs = [set(s)]
            for c in st.cases:
                cs = set(s)
                for y in ast.walk(c.pattern):
                    for f in ('name', 'rest'):
                        if isinstance(getattr(y, f, None), str):
                            cs.add(getattr(y, f))
                self.use(c.guard, cs)
                outs.append(self.block(c.body, cs))
            return self.join(*outs)
        if t is ast.Delete:
            for x in st.targets:
                if not isinstance(x, ast.Name):
                    self.use(x, s)
            return s
        for c in ast.iter_child_nodes(st):
            self.use(c, s)
        return s

    def target(self, t, s):
        if isinstance(t, ast.Name):
            s.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, s)
        elif isinstance(t, ast.Starred):
            self.target(t.value, s)
        else:
            for c in ast.iter_child_nodes(t):
                self.use(c, s)


class Mute(object):
    def violation(self, *a):
        pass


def unbound(ctx, m, fn):
    f = Flow(ctx, m, fn)
    a = fn.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
    f.block(fn.body, s)
