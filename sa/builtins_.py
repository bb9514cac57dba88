"""Abstract semantics of the built-in types, functions and the few library calls the program uses."""

import ast
import re

from .values import *
from .heap import *
from .model import *
from . import rx as RX

TYPES = ('int', 'str', 'bytes', 'float', 'bool', 'complex', 'list', 'dict', 'set', 'tuple', 'object', 'bytearray',
         'frozenset', 'type', 'slice', 'range', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'property')
SCALARS = ('int', 'str', 'bytes', 'float', 'bool', 'complex')
NUM = ('int', 'float', 'bool', 'complex')
def plain_sym(s):
    return isinstance(s.key, tuple) and s.key[0] in ('len', 'num', 'digits')


FUNCS = ('len', 'print', 'open', 'min', 'max', 'isinstance', 'issubclass', 'round', 'sum', 'chr', 'ord', 'sorted', 'getattr', 'hasattr',
         'setattr', 'abs', 'any', 'all', 'repr', 'hash', 'id', 'next', 'iter', 'callable', 'divmod', 'pow', 'bin', 'hex', 'oct', 'format',
         'input', 'vars', 'dir', 'exec', 'eval', 'globals', 'locals', '__import__', 'super', 'ascii', 'staticmethod', 'classmethod')
EXC = re.compile(r'^[A-Z]\w*(Error|Exception|Warning|Iteration|Interrupt|Exit)$|^Exception$|^BaseException$')
STR_PURE = {'encode', 'decode', 'find', 'rfind', 'index', 'rindex', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper',
            'startswith', 'endswith', 'hex', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isnumeric', 'count', 'rjust', 'ljust', 'zfill',
            'center', 'splitlines', 'partition', 'rpartition', 'title', 'capitalize', 'swapcase', 'casefold', 'expandtabs',
            'removeprefix', 'removesuffix', 'to_bytes', 'bit_length', 'is_integer', 'conjugate', 'format', 'join', 'translate', 'isidentifier', 'isprintable', 'isascii'}
BOOLM = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isnumeric',
         'is_integer', 'isidentifier', 'isprintable', 'isascii'}
INTM = {'find', 'rfind', 'index', 'rindex', 'count', 'bit_length'}
BIG = 4096


class LinOrd(object):
    """An affine number as a sort key; comparisons that cannot be decided raise TypeError."""

    def __init__(self, I, l):
        self.I, self.l = I, l

    def diff(self, o):
        if isinstance(o, LinOrd):
            return lin_sub(self.l, o.l)
        if isinstance(o, int):
            return lin_sub(self.l, lin(o))
        raise TypeError

    def neg(self, d):
        """d < 0?"""
        n = lin_add(lin(-1), d, -1)
        if n.lo() >= 0 or self.I.entails2(n):
            return True
        if d.lo() >= 0 or self.I.entails2(d):
            return False
        raise TypeError

    def __lt__(self, o):
        return self.neg(self.diff(o))

    def __gt__(self, o):
        return self.neg(lin_scale(self.diff(o), -1))

    def __le__(self, o):
        return not self.__gt__(o)

    def __ge__(self, o):
        return not self.__lt__(o)

    def __eq__(self, o):
        d = self.diff(o)
        if not d.terms:
            return d.c == 0
        if self.I.nonzero(d):
            return False
        raise TypeError

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class BuiltinMixin(object):

    # ------------------------------------------------------------ constructors of results

    def fresh(self, node, tag, lo=-INF, hi=INF):
        s = sym(('f', node_id_(node), self.fi.ctx if self.fstack else 0, tag), lo, hi)
        if self.symlog is not None:
            self.symlog.add(s)
        return s

    def mk(self, tn, lb, aux=None):
        return V(T(tn, self.client.lab(tn, lb), aux))

    def mk_str(self, tn, lb, node, tag='', ln=None, rx=None, term=None, lo=0, hi=INF):
        if self.numeric and ln is None:
            ln = lin_of(self.fresh(node, ('len', tag), lo, hi))
        if not self.numeric:
            ln = None
        if not self.shapes:
            rx = None
        elif self.lin_holes and (rx is None or rx is RX.ANY) and ln is not None:
            rx = RX.hole((ln, '?'))
        return self.mk(tn, lb, self.mk_saux(ln, rx, term))

    def mk_int(self, lb, node, tag='', l=None, lo=-INF, hi=INF):
        if self.numeric:
            if l is None:
                l = lin_of(self.fresh(node, ('int', tag), lo, hi))
            if not l.terms:
                return V(K(l.c, self.client.lab('int', lb)))
            return self.mk('int', lb, l)
        return self.mk('int', lb)

    def mk_const(self, v, lb):
        return K(v, self.client.lab(type(v).__name__, lb) if v is not None else lb)

    def lbs(self, *vals):
        out = frozenset()
        for v in vals:
            if isinstance(v, tuple):
                for x in v[1:]:
                    out |= labels(x)
            else:
                out |= self.deep_labels(v)
        return out

    def deep_labels(self, v, d=2):
        """Labels of scalars of a value, looking one level into containers."""
        out = set()
        for a in v:
            if isinstance(a, (Ka, Ta, Ua)):
                out |= a.lb
            elif isinstance(a, Tua):
                for i in a.items:
                    out |= self.deep_labels(i, d)
            elif isinstance(a, Pa) and d > 0:
                o = self.get(a.loc)
                if o is not None and o.kind in ('list', 'iter', 'set', 'dict', 'mixed'):
                    for x in o.values():
                        out |= self.deep_labels(x, d - 1)
        return frozenset(out)

    # ------------------------------------------------------------ names

    def builtin_value(self, name):
        if name in TYPES:
            return V(Fn('type', name))
        if name in FUNCS:
            return V(Fn('builtin', name))
        if EXC.match(name) or name in ('KeyError', 'StopIteration', 'KeyboardInterrupt', 'SystemExit'):
            return V(Fn('builtin', 'exc:' + name))
        if name == '__name__':
            return V(K(self.fi.module.name))
        if name in ('__file__', '__doc__'):
            return STR
        if name == 'NotImplemented':
            return UNK
        return None

    def ext_attr(self, ref, attr, node):
        full = ref + '.' + attr
        if full in ('math.pi', 'math.e', 'math.inf', 'math.nan'):
            return V(T('float'))
        if full in ('os.sep', 'os.linesep', 'sys.platform', 'sys.version', 'os.name'):
            return V(T('str'))
        if full == 'sys.argv':
            return V(P(self.alloc(node, 'list', 'argv', other=STR)))
        return V(Fn('ext', full))

    # ------------------------------------------------------------ folding

    def fold(self, f, vals):
        """Apply f to every combination of constants; None when not all constant or too many."""
        ks = []
        n = 1
        for v in vals:
            if isinstance(v, tuple):
                return None
            if not v or not all(isinstance(a, Ka) for a in v):
                return None
            ks.append(list(v))
            n *= len(ks[-1])
        if n > 64:
            return None
        out = set()
        combos = [[]]
        for k in ks:
            combos = [c + [a] for c in combos for a in k]
        for c in combos:
            lb = frozenset().union(*[a.lb for a in c]) if c else NOLB
            try:
                r = f(*[a.v for a in c])
            except Exception:
                continue
            x = self.abstract_const(r, lb)
            if x is None:
                return None
            out.add(x)
        return frozenset(out)

    def abstract_const(self, r, lb):
        if isinstance(r, (int, float, complex, str, bytes, bool)) or r is None:
            if isinstance(r, (str, bytes)) and len(r) > BIG:
                return None
            if isinstance(r, int) and abs(r) > 10 ** 30:
                return None
            return self.mk_const(r, lb)
        if isinstance(r, tuple):
            xs = [self.abstract_const(i, lb) for i in r]
            if any(x is None for x in xs):
                return None
            return Tu([V(x) for x in xs])
        return None

    # ------------------------------------------------------------ operators

    def binop(self, op, l, r, node):
        out = set()
        ol = type(op).__name__
        dun = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'Mod': '__mod__', 'MatMult': '__matmul__',
               'BitOr': '__or__', 'BitAnd': '__and__', 'FloorDiv': '__floordiv__', 'BitXor': '__xor__', 'Pow': '__pow__'}.get(ol)
        for a in l:
            if (isinstance(a, Tua) and a.cls) or (isinstance(a, Pa) and self.obj_type(a.loc) in self.classes):
                m = self.class_lookup(a.cls if isinstance(a, Tua) else self.obj_type(a.loc), dun) if dun else None
                if m:
                    b = self.bind_method(m, a, node)
                    return self.call_value(b, [r], {}, node)
        sconc = {}
        for a in l:
            for b in r:
                x = self.bin_atoms(op, ol, a, b, node)
                if x is not None:
                    out |= x
        if not out:
            return frozenset()
        return self.norm(frozenset(out), ('bin', node_id_(node), self.fi.ctx))

    def bin_atoms(self, op, ol, a, b, node):
        if isinstance(a, Ka) and isinstance(b, Ka):
            if a.v is None or b.v is None:
                self.client.on_none(self, node, 'operand')
                return None
            big = ol == 'Pow' and isinstance(b.v, int) and b.v > 64 or ol == 'LShift' and isinstance(b.v, int) and b.v > 64 \
                or ol == 'Mult' and (isinstance(a.v, (str, bytes)) or isinstance(b.v, (str, bytes))) and max(x for x in (a.v, b.v) if isinstance(x, int)) > 1000
            if not big:
                try:
                    v = OPS[ol](a.v, b.v)
                except (TypeError, ValueError):
                    return None
                except Exception:
                    return None
                x = self.abstract_const(v, a.lb | b.lb)
                if x is not None:
                    return {x}
        if isinstance(a, Ka) and a.v is None or isinstance(b, Ka) and b.v is None:
            if not (isinstance(a, (Ka, Ta)) and a.tn in ('str', 'bytes') and ol == 'Mod'):
                self.client.on_none(self, node, 'operand')
                return None
        if isinstance(a, Ua) or isinstance(b, Ua):
            lb = self.lbs(V(a), V(b))
            if isinstance(a, (Ka, Ta)) and a.tn in ('str', 'bytes') and ol == 'Add':
                return self.mk_str(a.tn, lb, node, 'u')
            if isinstance(b, (Ka, Ta)) and b.tn in ('str', 'bytes') and ol == 'Add':
                return self.mk_str(b.tn, lb, node, 'u')
            return {U(lb)}
        if isinstance(a, (Ka, Ta)) and isinstance(b, (Ka, Ta)):
            return self.bin_scalars(ol, a, b, node)
        if isinstance(a, (Ka, Ta)) and a.tn in ('str', 'bytes') and ol == 'Mod':
            r = self.percent(a, V(b), a.lb | self.lbs(V(b)), node)
            if r is not None:
                return r
            return self.mk_str(a.tn, a.lb | self.lbs(V(b)), node, 'mod')
        if isinstance(a, Tua) and isinstance(b, Tua) and ol == 'Add':
            return {Tu(a.items + b.items)}
        if isinstance(a, Tua) and isinstance(b, Ka) and ol == 'Mult' and isinstance(b.v, int) and len(a.items) * b.v < 64:
            return {Tu(a.items * b.v)}
        if ol == 'Add' and (isinstance(a, Tua) and isinstance(b, Pa) or isinstance(a, Pa) and isinstance(b, Tua)):
            o = self.get(a.loc if isinstance(a, Pa) else b.loc)
            if o is not None and o.kind == 'mixed':
                e = o.elems()
                for i in (a if isinstance(a, Tua) else b).items:
                    e = self.join_vals(e, i)
                return {P(self.alloc(node, 'mixed', 'add', other=e))}
        if isinstance(a, Pa) and isinstance(b, Pa):
            oa, ob = self.get(a.loc), self.get(b.loc)
            if oa is None or ob is None:
                return {U()}
            if ol == 'Add' and oa.kind in ('list', 'mixed') and ob.kind in ('list', 'mixed'):
                if oa.exact is not None and ob.exact is not None and len(oa.exact) + len(ob.exact) <= 512:
                    return {P(self.new_list(node, list(oa.exact) + list(ob.exact), 'add'))}
                other = self.join_vals(oa.elems(), ob.elems())
                ln = None
                if self.numeric:
                    la, lb_ = self.list_len(oa, node), self.list_len(ob, node)
                    ln = lin_add(la, lb_) if la is not None and lb_ is not None else None
                f, must = {}, set()
                ua, ub = self.unexact(oa), self.unexact(ob)
                for k, v in ua.fields.items():
                    if isinstance(k, int) and k >= 0 and k in ua.must:
                        f[k] = v
                        must.add(k)
                for k, v in ub.fields.items():
                    if isinstance(k, int) and k < 0 and k in ub.must:
                        f[k] = v
                        must.add(k)
                return {P(self.alloc(node, 'list', 'add', other=other, ln=ln, fields=f, must=frozenset(must)))}
            if oa.kind == 'set' and ob.kind == 'set':
                xa, xb = self.sset(oa), self.sset(ob)
                if xa is not None and xb is not None and ol in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                    return set(self.new_set(node, 'op', OPS[ol](set(xa), set(xb))))
                oa, ob = self.unexact(oa), self.unexact(ob)
                return {P(self.alloc(node, 'set', 'op', other=self.join_vals(oa.other, ob.other) if ol in ('BitOr', 'BitXor') else oa.other))}
            if ol == 'BitOr' and oa.kind == 'dict' and ob.kind == 'dict':
                loc = self.copy_obj(a.loc, node, 'dict', 'bor')
                self.dict_update(loc, V(b), node)
                return {P(loc)}
            return None
        if isinstance(a, Pa) and isinstance(b, (Ka, Ta)) and ol == 'Mult' and b.tn in ('int', 'bool'):
            return self.list_mul(a, b, node)
        if isinstance(b, Pa) and isinstance(a, (Ka, Ta)) and ol == 'Mult' and a.tn in ('int', 'bool'):
            return self.list_mul(b, a, node)
        if isinstance(a, Fna) and isinstance(b, Fna) and ol == 'BitOr':
            return {Tu([V(a), V(b)])}
        return None

    def list_mul(self, a, n, node):
        o = self.get(a.loc)
        if o is None or o.kind not in ('list', 'mixed'):
            return None
        if o.exact is not None and isinstance(n, Ka) and len(o.exact) * n.v <= 512:
            return {P(self.new_list(node, list(o.exact) * n.v, 'mul'))}
        ln = None
        if self.numeric and o.exact is not None:
            l = lin(n.v) if isinstance(n, Ka) else n.aux
            if isinstance(l, Lin):
                ln = lin_scale(l, len(o.exact))
        return {P(self.alloc(node, 'list', 'mul', other=o.elems(), ln=ln))}

    def list_len(self, o, node):
        if o.exact is not None:
            return lin(len(o.exact))
        return o.ln

    def bin_scalars(self, ol, a, b, node):
        lb = a.lb | b.lb
        ta, tb = a.tn, b.tn
        if ta in NUM and tb in NUM:
            if 'complex' in (ta, tb):
                tn = 'complex'
            elif 'float' in (ta, tb) or ol == 'Div':
                tn = 'float'
            else:
                tn = 'int'
            if tn == 'int' and self.numeric:
                la = self.alin(a)
                lb_ = self.alin(b)
                if la is not None and lb_ is not None:
                    if ol == 'Add':
                        return self.mk_int(lb, node, l=lin_add(la, lb_))
                    if ol == 'Sub':
                        return self.mk_int(lb, node, l=lin_sub(la, lb_))
                    if ol == 'Mult' and not lb_.terms:
                        return self.mk_int(lb, node, l=lin_scale(la, lb_.c))
                    if ol == 'Mult' and not la.terms:
                        return self.mk_int(lb, node, l=lin_scale(lb_, la.c))
                    if ol == 'Mult' and la.lo() >= 0 and lb_.lo() >= 0:
                        return self.mk_int(lb, node, ('mul', la, lb_), lo=0)
                    if ol == 'FloorDiv' and not lb_.terms and lb_.c > 0:
                        lo = la.lo() // lb_.c if la.lo() > -INF else -INF
                        hi = la.hi() // lb_.c if la.hi() < INF else INF
                        if all(k % lb_.c == 0 for _, k in la.terms) and la.c % lb_.c == 0:
                            return self.mk_int(lb, node, l=lin(la.c // lb_.c, [(s, k // lb_.c) for s, k in la.terms]))
                        r = self.mk_int(lb, node, ('fd', la, lb_.c), lo=lo, hi=hi)
                        self.byte_len(r, la, lb_.c)
                        return r
                    if ol == 'Mod' and (lb_.terms or la.terms) and lb_.lo() > 0:
                        for x in (la, lin_sub(la, lb_), lin_add(la, lb_)):
                            if x.lo() >= 0 and lin_sub(lb_, x).lo() > 0:
                                return self.mk_int(lb, node, l=x)
                    if ol == 'Mod' and not lb_.terms and lb_.c > 0:
                        return self.mk_int(lb, node, ('mod', la, lb_.c), lo=0, hi=lb_.c - 1)
                    if ol in ('FloorDiv', 'RShift') and la.lo() >= 0:
                        r = self.mk_int(lb, node, (ol, la, lb_), lo=0)
                        if ol == 'RShift' and not lb_.terms and 0 <= lb_.c < 8:
                            self.byte_len(r, la, 2 ** lb_.c)
                        return r
                    if ol in ('BitAnd', 'BitOr', 'BitXor', 'LShift') and la.lo() >= 0 and lb_.lo() >= 0:
                        return self.mk_int(lb, node, (ol, la, lb_), lo=0)
                return self.mk_int(lb, node, ol)
            return self.mk(tn, lb)
        if ta == tb and ta in ('str', 'bytes') and ol == 'Add':
            xa, xb = self.saux(a), self.saux(b)
            ln = lin_add(xa[0], xb[0]) if xa[0] is not None and xb[0] is not None else None
            rx = RX.cat(xa[1] or RX.ANY, xb[1] or RX.ANY) if self.shapes else None
            return self.mk_str(ta, lb, node, 'cat', ln=ln, rx=rx)
        if ta in ('str', 'bytes') and ol == 'Mod':
            r = self.percent(a, V(b), lb, node)
            return r if r is not None else self.mk_str(ta, lb, node, 'mod')
        for x, y in ((a, b), (b, a)):
            if x.tn in ('str', 'bytes') and y.tn in ('int', 'bool') and ol == 'Mult':
                ln = None
                if self.numeric:
                    lx, ly = self.saux(x)[0], self.alin(y)
                    if lx is not None and not lx.terms and ly is not None and ly.lo() >= 0:
                        ln = lin_scale(ly, lx.c)
                rx = None
                if self.shapes:
                    rx = RX.star(self.saux(x)[1] or RX.ANY)
                return self.mk_str(x.tn, lb, node, 'rep', ln=ln, rx=rx)
        return None

    def alin(self, a):
        if isinstance(a, Ka):
            return lin(int(a.v)) if a.tn in ('int', 'bool') else None
        if a.tn == 'bool':
            return None
        return a.aux if isinstance(a.aux, Lin) else None

    def concat_strs(self, parts, tn, node):
        if all(single_const(p) is not None for p in parts):
            s = ''.join(single_const(p).v for p in parts)
            lb = frozenset().union(*[single_const(p).lb for p in parts]) if parts else NOLB
            if len(s) <= BIG:
                return V(self.mk_const(s, lb))
        lb = frozenset()
        ln = lin(0) if self.numeric else None
        rx = RX.EPS if self.shapes else None
        for p in parts:
            lb |= self.lbs(p)
            ax = [self.saux(a) if isinstance(a, (Ka, Ta)) else (None, None, None) for a in p]
            if ln is not None:
                ls = [x[0] for x in ax]
                if any(l is None for l in ls):
                    ln = None
                else:
                    cur = ls[0]
                    for l in ls[1:]:
                        cur = self.phi(cur, l, ('cs', node_id_(node)))
                    ln = lin_add(ln, cur)
            if rx is not None:
                rx = RX.cat(rx, RX.alt(*[x[1] or RX.ANY for x in ax]))
        return self.mk_str(tn, lb, node, 'fs', ln=ln, rx=rx)

    def format_value(self, v, spec, conv, node):
        sp = single_const(spec) if spec is not None else None
        out = set()
        for a in v:
            if isinstance(a, Ka) and a.v is None and spec is not None and not (sp is not None and sp.v == ''):
                self.client.on_none(self, node, 'format')
                continue
            lb = self.client.fmt_label(self, self.lbs(V(a)), sp.v if sp is not None else ('' if spec is None else None), node)
            if isinstance(a, Ka) and (spec is None or sp is not None):
                try:
                    x = a.v
                    if conv == 114:
                        x = repr(x)
                    elif conv == 115:
                        x = str(x)
                    s = format(x, sp.v if sp is not None else '')
                    out.add(self.mk_const(s, lb))
                    continue
                except Exception:
                    continue
            if isinstance(a, Ta) and a.tn == 'str' and spec is None and conv == -1:
                out.add(T('str', self.client.lab('str', lb), a.aux))
                continue
            ln, rx = None, None
            if isinstance(a, Ta) and a.tn in ('int', 'float'):
                sv = sp.v if sp is not None else ('' if spec is None else None)
                n, r = self.int_format(a, sv)
                rx = r
                if n is not None:
                    ln = lin(n)
                if self.lin_holes and a.tn == 'int' and isinstance(a.aux, Lin) and sv is not None:
                    sv = re.sub(r'^(0?\d*)d$', r'\1', sv)
                    rx = RX.hole((a.aux, sv))
                    if n is None and sv == '':
                        ln = lin_of(sym(('digits', a.aux), 1, 20))
            out |= self.mk_str('str', lb, node, 'fmt', ln=ln, rx=rx)
        return frozenset(out)

    def int_format(self, a, spec):
        """(exact length or None, shape) of a number formatted with spec."""
        tag = 'int' if a.tn == 'int' else 'float'
        if spec is None:
            return None, RX.ANY
        m = re.match(r'^0?(\d*)([dxXob]?)$', spec)
        if a.tn == 'int' and m:
            base = {'x': 'hex', 'X': 'hex'}.get(m.group(2), 'digit')
            if m.group(1) and spec.startswith('0'):
                w = int(m.group(1))
                return w, RX.rep(base, w, w)
            if not m.group(1):
                if a.tn == 'int' and self.nonneg(a):
                    return None, RX.rep(base, 1, None)
                return None, RX.hole('int')
        m = re.match(r'^\.(\d+)f$', spec)
        if m:
            return None, RX.hole('fixed')
        if spec == '':
            return None, RX.hole(tag)
        return None, RX.ANY

    def percent(self, a, b, lb, node):
        """fmt % args with a constant format of simple directives; None when not handled."""
        if not self.shapes or not isinstance(a, Ka):
            return None
        txt = a.v if isinstance(a.v, str) else a.v.decode('latin-1')
        bits = re.split(r'%(0?\d*[dis])', txt)
        if any('%' in x.replace('%%', '') for x in bits[::2]):
            return None
        one = next(iter(b))
        args = list(one.items) if isinstance(one, Tua) and len(b) == 1 else [b]
        if len(args) != len(bits) // 2:
            return None
        parts = []
        for i, x in enumerate(bits):
            if i % 2 == 0:
                x = x.replace('%%', '%')
                parts.append(V(K(x)))
                continue
            v = args[i // 2]
            if x[-1] in 'di':
                v = frozenset(K(int(y.v), y.lb) if isinstance(y, Ka) and y.tn in ('float', 'bool') and abs(y.v) < 1e18 else y for y in v)
                if not all(isinstance(y, (Ka, Ta)) and y.tn == 'int' for y in v):
                    return None
                parts.append(self.format_value(v, V(K(x[:-1])) if x[:-1] else None, -1, node))
            else:
                if x != 's' or not all(isinstance(y, (Ka, Ta)) for y in v):
                    return None
                if a.tn == 'bytes':
                    parts.append(frozenset(K(y.v.decode('latin-1'), y.lb) if isinstance(y, Ka) else T('str', y.lb, y.aux) for y in v))
                else:
                    parts.append(self.format_value(v, None, 115, node))
        r = self.concat_strs(parts, 'str', node)
        if a.tn == 'bytes':
            r = frozenset(K(y.v.encode('latin-1', 'replace'), y.lb) if isinstance(y, Ka) else T('bytes', y.lb, y.aux) for y in r)
        return r

    def nonneg(self, a):
        return isinstance(a, Ka) and a.v >= 0 or isinstance(a, Ta) and isinstance(a.aux, Lin) and a.aux.lo() >= 0

    def poly_op(self, *a):
        return None

    def poly_const(self, *a):
        return None

    # ------------------------------------------------------------ iteration

    def iter_elem(self, val, node, loop=False):
        out = set()
        for a in val:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                if o.kind == 'dict':
                    for k, v in o.fields.items():
                        if v:
                            out.add(K(k))
                    out |= o.okeys
                    if o.other and not o.okeys:
                        out.add(U())
                elif o.kind == 'mixed':
                    out |= o.elems() | o.okeys | {U()}
                elif o.kind == 'iter' and o.cls == 'range':
                    out |= self.range_elem(a, o, node, loop)
                elif o.kind == 'iter' and o.cls == 'enum' and self.numeric and loop:
                    st = self.fresh(node, 'enum', 0)
                    e = o.other
                    for t in e:
                        if isinstance(t, Tua):
                            base = self.int_lin(t.items[0])
                            l = lin_of(st)
                            out.add(Tu([self.mk('int', labels(t.items[0]), l), t.items[1]]))
                elif o.kind == 'file':
                    out |= self.mk_str('bytes', labels(o.other), node, 'line')
                elif o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__iter__')
                    if m:
                        r = self.alt_call(m, a, [], node, len(val) == 1)
                        out |= self.iter_elem(r, node)
                        continue
                    m = self.class_lookup(o.cls, '__getitem__')
                    if m:
                        out |= self.alt_call(m, a, [INT], node, len(val) == 1)
                    else:
                        self.client.on_bad(self, node, 'not iterable')
                else:
                    out |= o.elems()
            elif isinstance(a, Tua):
                m = self.class_lookup(a.cls, '__iter__') if a.cls else None
                if m:
                    r = self.alt_call(m, a, [], node, len(val) == 1)
                    out |= self.iter_elem(r, node)
                    continue
                for i in a.items:
                    out |= i
            elif isinstance(a, (Ka, Ta)):
                if a.tn == 'str':
                    if isinstance(a, Ka):
                        if len(a.v) <= 24:
                            out |= {K(c, a.lb) for c in a.v}
                        else:
                            out |= self.mk_str('str', a.lb, node, 'ch', ln=lin(1) if self.numeric else None, rx=RX.ANY)
                    else:
                        out |= self.mk_str('str', a.lb, node, 'ch', ln=lin(1) if self.numeric else None, rx=RX.ANY)
                elif a.tn == 'bytes':
                    if isinstance(a, Ka) and len(a.v) <= 24:
                        out |= {K(c, a.lb) for c in a.v}
                    else:
                        out |= self.mk_int(a.lb, node, 'byte', lo=0, hi=255)
                elif a.tn == 'none':
                    self.client.on_none(self, node, 'iterate')
                else:
                    self.client.on_bad(self, node, f'iterating {a.tn}')
            elif isinstance(a, Ua):
                out.add(U(a.lb))
            elif isinstance(a, Fna):
                self.client.on_bad(self, node, 'iterating a function')
        return self.norm(frozenset(out), ('it', node_id_(node)))

    def range_elem(self, a, o, node, loop):
        t = next(iter(o.okeys), None)
        if not isinstance(t, Tua) or not self.numeric:
            return o.other or INT
        lo, hi, step = t.items
        ll, lh, ls = self.int_lin(lo), self.int_lin(hi), self.int_lin(step)
        if not loop or ll is None or lh is None or ls is None or ls.terms or ls.c == 0:
            return self.mk_int(labels(lo) | labels(hi), node, 'rg')
        up = ls.c > 0
        l0 = ll.lo() if up else (lin_add(lh, lin(1))).lo()
        h0 = (lin_add(lh, lin(-1))).hi() if up else ll.hi()
        s = self.fresh(node, 'range', l0, h0)
        x = lin_of(s)
        if up:
            ok = self.add_fact(self.st, lin_sub(x, ll)) and self.add_fact(self.st, lin_add(lin_sub(lh, x), lin(-1)))
        else:
            ok = self.add_fact(self.st, lin_sub(ll, x)) and self.add_fact(self.st, lin_add(lin_sub(x, lh), lin(-1)))
        if not ok:
            return EMPTY
        return self.mk('int', labels(lo) | labels(hi), x)

    # ------------------------------------------------------------ containers

    def list_append(self, loc, v, node, weak=False):
        o = self.get(loc)
        if o is None:
            return
        self.stats['writes'] += 1
        self.client.on_write(self, loc, o, None, v, node, 'append')
        self.inval(loc)
        if o.kind == 'iter' and weak:
            self.st.heap[loc] = o.upd(other=self.join_vals(o.elems(), v, ('la', loc)), exact=None, fields={}, ln=None)
            return
        if o.exact is not None and o.unique and not weak and len(o.exact) < 512:
            self.st.heap[loc] = o.upd(exact=o.exact + (v,), ln=lin(len(o.exact) + 1) if self.numeric else None)
            return
        o = self.unexact(o)
        f = {}
        other = o.other
        for k, x in o.fields.items():
            if isinstance(k, int) and k < 0:
                if k - 1 < -4:
                    other = self.join_vals(other, x, ('la', loc))
                else:
                    f[k - 1] = x
            else:
                f[k] = x
        f[-1] = v
        must = {k for k in o.must if not isinstance(k, int) or k >= 0} | {k - 1 for k in o.must if isinstance(k, int) and k < 0 and k - 1 >= -4} | {-1}
        ln = lin_add(o.ln, lin(1)) if o.ln is not None else None
        n = o.upd(fields=f, must=frozenset(must), other=other, ln=ln)
        if not o.unique or weak:
            n = self.join_objs(o, n, ('la', loc))
        self.st.heap[loc] = n

    def list_insert(self, loc, idx, v, node):
        o = self.get(loc)
        self.client.on_write(self, loc, o, None, v, node, 'insert')
        self.inval(loc)
        c = single_const(idx)
        if o.exact is not None and o.unique and c is not None and isinstance(c.v, int) and len(o.exact) < 512:
            ex = list(o.exact)
            ex.insert(c.v, v)
            self.st.heap[loc] = o.upd(exact=tuple(ex), ln=lin(len(ex)) if self.numeric else None)
            return
        o = self.unexact(o)
        other = self.join_vals(o.elems(), v, ('li', loc))
        ln = lin_add(o.ln, lin(1)) if o.ln is not None else None
        f, must = {}, set()
        if o.unique and c is not None and c.v == 0:
            f[0] = v
            must.add(0)
            for k, x in o.fields.items():
                if isinstance(k, int) and k < 0 and k in o.must:
                    f[k] = x
                    must.add(k)
        if not o.unique:
            ln = None
        self.st.heap[loc] = o.upd(fields=f, must=frozenset(must), other=other, ln=ln)

    def list_extend(self, loc, v, node):
        o = self.get(loc)
        ex = self.exact_items(v)
        if ex is not None and (len(ex) <= 64 or len(ex) <= 300 and all(single_const(x) is not None for x in ex)):
            for x in ex:
                self.list_append(loc, x, node)
            return
        e = self.iter_elem(v, node)
        self.client.on_write(self, loc, o, None, e, node, 'extend')
        self.inval(loc)
        o = self.unexact(o)
        other = self.join_vals(o.elems(), e, ('le', loc))
        ln = None
        if self.numeric and o.ln is not None and len(v) == 1:
            a = next(iter(v))
            if isinstance(a, Pa):
                p = self.get(a.loc)
                l = self.list_len(p, node) if p is not None else None
                if l is not None:
                    ln = lin_add(o.ln, l)
        f = {k: x for k, x in o.fields.items() if isinstance(k, int) and k >= 0 and k in o.must}
        self.st.heap[loc] = o.upd(fields=f, must=frozenset(f), other=other, ln=ln)

    def sset(self, o):
        """The elements of a set of numbers that is known exactly (in the order of the interpreter)."""
        if o is None or o.kind != 'set' or o.exact is None or not o.unique:
            return None
        out = []
        for x in o.exact:
            c = single_const(x)
            if c is None and self.lin_holes and (l := self.int_lin(x)) is not None:
                out.append(SymKey.of(l))
                continue
            if c is None or not isinstance(c.v, (int, float, complex)) or c.lb:
                return None
            out.append(c.v)
        return out

    def const_items(self, v):
        """The numbers a value yields when they are all known."""
        ex = self.exact_items(v)
        if ex is None:
            return None
        out = []
        for x in ex:
            c = single_const(x)
            if c is None or not isinstance(c.v, (int, float, complex)) or c.lb:
                return None
            out.append(c.v)
        return out

    def new_set(self, node, sub, items, other=EMPTY, must=frozenset()):
        """A set whose elements are given as numbers (items), or unknown (None: elements in other)."""
        if items is not None and self.scenario and not self.in_rec():
            items = list(set(items))
            return V(P(self.alloc(node, 'set', sub, exact=tuple(V(key_atom(x)) for x in items), must=frozenset(['$ne']) if items else frozenset())))
        return V(P(self.alloc(node, 'set', sub, other=other, must=must)))

    def set_exact(self, loc, items):
        items = list(set(items))
        self.st.heap[loc] = self.get(loc).upd(exact=tuple(V(key_atom(x)) for x in items), other=EMPTY, must=frozenset(['$ne']) if items else frozenset())

    def set_add(self, loc, v, node):
        o = self.get(loc)
        self.client.on_write(self, loc, o, None, v, node, 'add')
        self.inval(loc)
        o = self.get(loc)
        cur, c = self.sset(o), single_const(v)
        if cur is not None and c is not None and isinstance(c.v, (int, float, complex)) and not c.lb:
            if not any(isinstance(x, SymKey) for x in cur) or self.lin_member(v, o.exact) is not None:
                return self.set_exact(loc, cur + [c.v])
        if cur is not None and c is None and self.lin_holes and (l := self.int_lin(v)) is not None:
            r = self.lin_member(v, o.exact)
            if r is not None or not cur:
                return None if r else self.set_exact(loc, cur + [SymKey.of(l)])
        o = self.unexact(o)
        must = o.must | {'$ne'} if o.unique else o.must
        self.st.heap[loc] = o.upd(other=self.join_vals(o.other, v, ('sa', loc)), must=must)

    def dict_update(self, loc, v, node):
        for a in v:
            if not isinstance(a, Pa):
                if isinstance(a, Ua):
                    self.write_field(loc, None, UNK, node, 'update')
                continue
            p = self.get(a.loc)
            if p is None or p.kind not in ('dict', 'mixed'):
                e = self.iter_elem(V(a), node)
                for t in e:
                    if isinstance(t, Tua) and len(t.items) == 2:
                        kc = self.key_consts(t.items[0], self.get(loc))
                        if kc is None or len(kc) != 1:
                            o = self.get(loc)
                            self.st.heap[loc] = o.upd(okeys=self.join_vals(o.okeys, t.items[0]))
                        self.write_field(loc, kc[0] if kc and len(kc) == 1 else None, t.items[1], node, 'update', strong=False)
                continue
            for k, x in p.fields.items():
                if x:
                    o = self.get(loc)
                    self.write_field(loc, k, x, node, 'update', strong=o.unique and k in p.must and len(v) == 1)
            if p.other:
                o = self.get(loc)
                self.st.heap[loc] = o.upd(okeys=self.join_vals(o.okeys, p.okeys or UNK))
                self.write_field(loc, None, p.other, node, 'update')
            elif not p.fields:
                self.client.on_write(self, loc, self.get(loc), None, EMPTY, node, 'update')

    def copy_obj(self, loc, node, kind, sub):
        o = self.get(loc)
        return self.alloc(node, kind, sub, fields=dict(o.fields), must=o.must, other=o.other, okeys=o.okeys if o.kind == 'dict' else EMPTY, exact=o.exact, ln=o.ln)

    def to_list(self, v, node, kind='list', sub='lst'):
        ex = self.exact_items(v)
        if ex is not None and len(ex) <= 512:
            return self.new_list(node, ex, sub, kind)
        if len(v) == 1:
            a = next(iter(v))
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is not None and o.kind in ('list', 'iter') and o.cls is None:
                    o = self.unexact(o) if not o.unique else o
                    return self.copy_obj(a.loc, node, kind, sub)
                if o is not None and o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__iter__')
        e = self.iter_elem(v, node)
        ln = lin_of(self.fresh(node, 'lstlen', 0)) if self.numeric else None
        if self.numeric and len(v) == 1:
            a = next(iter(v))
            if isinstance(a, (Ka, Ta)) and a.tn in ('str', 'bytes') and self.saux(a)[0] is not None:
                ln = self.saux(a)[0]
            if isinstance(a, Pa) and self.get(a.loc) is not None:
                ln = self.list_len(self.get(a.loc), node) or ln
        must = frozenset()
        return self.alloc(node, kind, sub, other=e, ln=ln, must=must)

    def alt_call(self, m, recv, args, node, alone):
        """A method call that is one of several alternatives: its failure leaves the others alive."""
        if alone:
            return self.call_value(self.bind_method(m, recv, node), args, {}, node)
        base = self.st.copy()
        try:
            v = self.call_value(self.bind_method(m, recv, node), args, {}, node)
        except Exception as e:
            if type(e).__name__ != 'Dead':
                raise
            self.st = base
            return EMPTY
        self.push(v)
        base.temps.append(v)
        self.st = self.join_states(self.st, base, ('alt', node_id_(node), self.fi.ctx))
        return self.pop()

    # ------------------------------------------------------------ subscripts

    def subscript(self, base, key, node):
        out = set()
        c = single_const(key) if not isinstance(key, tuple) else None
        if c is not None and isinstance(c.v, slice) and not any(isinstance(a, Pa) and self.get(a.loc) is not None and self.get(a.loc).kind == 'inst' for a in base):
            key = ('slice', V(K(c.v.start)), V(K(c.v.stop)), V(K(c.v.step)))
        isslice = isinstance(key, tuple)
        for a in base:
            if isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    continue
                if o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__getitem__')
                    if m:
                        k = UNK if isslice else key
                        out |= self.alt_call(m, a, [k], node, len(base) == 1)
                    continue
                if isslice:
                    out |= self.slice_list(a, o, key, node)
                    continue
                kc = self.key_consts(key, o)
                if kc is not None:
                    for k in kc:
                        if k is None and o.kind == 'list':
                            self.client.on_none(self, node, 'index')
                            continue
                        out |= self.read_key(a.loc, k, node)[0]
                else:
                    for x in key:
                        if isinstance(x, Ka) and x.v is None and o.kind == 'list':
                            self.client.on_none(self, node, 'index')
                    r = self.read_key(a.loc, None, node)[0]
                    r = self.client.read_unknown(self, a.loc, o, key, r, node) if hasattr(self.client, 'read_unknown') else r
                    out |= r
            elif isinstance(a, Tua):
                m = self.class_lookup(a.cls, '__getitem__') if a.cls else None
                if m:
                    k = self.slice_val(key) if isslice else key
                    out |= self.alt_call(m, a, [k], node, len(base) == 1)
                    continue
                if isslice:
                    cs = [single_const(x) for x in key[1:]]
                    if all(c is not None for c in cs):
                        out.add(Tu(a.items[slice(*[c.v for c in cs])]))
                    else:
                        out.add(P(self.alloc(node, 'list', 'tsl', other=frozenset().union(*a.items) if a.items else EMPTY)))
                    continue
                kc = self.key_consts(key)
                if kc is not None:
                    for k in kc:
                        if isinstance(k, int) and -len(a.items) <= k < len(a.items):
                            out |= a.items[k]
                else:
                    for i in a.items:
                        out |= i
            elif isinstance(a, (Ka, Ta)):
                if a.tn in ('str', 'bytes'):
                    r = self.slice_str(a, key, node) if isslice else self.index_str(a, key, node)
                    if isslice and a.lb and hasattr(self.client, 'slice_label'):
                        lb = self.client.slice_label(self, a, key, node)
                        r = frozenset(T(x.tn, lb, x.aux) if isinstance(x, Ta) else K(x.v, lb) if isinstance(x, Ka) else x for x in r)
                    out |= r
                elif a.tn == 'none':
                    self.client.on_none(self, node, 'subscript')
                else:
                    self.client.on_bad(self, node, f'subscript of {a.tn}')
            elif isinstance(a, Ua):
                out.add(U(a.lb))
            elif isinstance(a, Fna) and a.kind in ('type', 'class', 'ext'):
                out.add(a)
        if not out:
            raise Dead_()
        return self.norm(frozenset(out), ('sub', node_id_(node), self.fi.ctx))

    def slice_val(self, key):
        return V(Tu([x for x in key[1:]], None)) if False else UNK

    def index_str(self, a, key, node):
        kc = self.key_consts(key)
        if isinstance(a, Ka) and kc is not None:
            out = set()
            for k in kc:
                try:
                    out.add(self.mk_const(a.v[k], a.lb))
                except Exception:
                    pass
            return out
        if isinstance(a, Ka) and a.tn == 'bytes' and not a.v:
            return set()
        if self.lin_holes and isinstance(a, Ta) and self.saux(a)[1] is not None and self.saux(a)[0] is not None:
            l = self.int_lin(key)
            if l is not None and l.hi() < 0:
                l = lin_add(self.saux(a)[0], l)
            r = RX.slice_at(self.saux(a)[1], l, lin_add(l, lin(1))) if l is not None and (l.lo() >= 0 or self.entails2(l)) else None
            if r is not None and r.op == 'lit' and len(r.args) == 1:
                return {self.mk_const(ord(r.args) if a.tn == 'bytes' else r.args, a.lb)}
        if isinstance(a, Ka) and len(set(a.v)) <= 24:
            return {K(c, a.lb) for c in a.v}
        if a.tn == 'bytes':
            return self.mk_int(a.lb, node, 'byte', lo=0, hi=255)
        return self.mk_str('str', a.lb, node, 'ch', ln=lin(1) if self.numeric else None, rx=RX.ANY)

    def slice_bounds(self, L, key):
        """(lo, hi) Lin bounds of a slice of length-L text when they are certain, else None."""
        lo, hi, step = key[1:]
        if not (single_const(step) is not None and single_const(step).v is None) or L is None:
            return None

        def bound(v, dflt):
            c = single_const(v)
            if c is not None and c.v is None:
                return dflt
            l = self.int_lin(v)
            if l is None:
                return None
            if l.hi() < 0:
                l = lin_add(L, l)
                if not (l.lo() >= 0 or self.entails2(l)):
                    return None
                return l
            if not (l.lo() >= 0 or self.entails2(l)):
                return None
            d = lin_sub(L, l)
            if d.lo() >= 0 or self.entails2(d):
                return l
            d2 = lin_scale(d, -1)
            if d2.lo() >= 0 or self.entails2(d2):
                return L
            return None
        a, b = bound(lo, lin(0)), bound(hi, L)
        if a is None or b is None:
            return None
        return a, b

    def slice_str(self, a, key, node):
        cs = [single_const(x) for x in key[1:]]
        if isinstance(a, Ka) and all(c is not None for c in cs):
            try:
                return {self.mk_const(a.v[slice(*[c.v for c in cs])], a.lb)}
            except Exception:
                return set()
        for x in key[1:]:
            pass
        ln = None
        hi = INF
        if self.numeric:
            L = self.saux(a)[0]
            b = self.slice_bounds(L, key)
            if b is not None:
                d = lin_sub(b[1], b[0])
                if d.lo() >= 0 or self.entails2(d):
                    ln = d
                    if self.lin_holes and self.saux(a)[1] is not None:
                        r = RX.slice_at(self.saux(a)[1], b[0], b[1])
                        if r is not None:
                            if all(p.op == 'lit' for p in RX.parts(r)):
                                t = ''.join(p.args for p in RX.parts(r))
                                return {self.mk_const(t if a.tn == 'str' else t.encode('latin-1'), a.lb)}
                            return self.mk_str(a.tn, a.lb, node, 'sl', ln=ln, rx=r)
        rx = None
        if self.shapes:
            full = all(c is not None and c.v is None for c in cs)
            rx = self.saux(a)[1] if full else RX.ANY
            ax = self.saux(a)[1]
            if not full and ax is not None and cs[0] is not None and cs[1] is not None and cs[2] is not None and cs[2].v is None:
                rx = self.slice_rx(ax, cs[0].v, cs[1].v)
        lb = a.lb
        return self.mk_str(a.tn, lb, node, 'sl', ln=ln, rx=rx)

    def slice_rx(self, ax, lo, hi):
        ps = RX.parts(ax)
        if lo and lo > 0 and hi is None and ps and ps[0].op == 'lit' and len(ps[0].args) >= lo:
            return RX.cat(RX.lit(ps[0].args[lo:]), *ps[1:])
        if (lo is None or lo == 0) and hi is not None and hi < 0 and ps and ps[-1].op == 'lit' and len(ps[-1].args) >= -hi:
            return RX.cat(*(ps[:-1] + [RX.lit(ps[-1].args[:hi])]))
        if lo is not None and hi is not None:
            return self.slice_rx(self.slice_rx(ax, lo, None), None, hi) if hi < 0 else RX.ANY
        if ax.op == 'hole' and ax.args != 'any':
            return RX.hole('any')
        return RX.ANY

    def slice_list(self, a, o, key, node):
        cs = [single_const(x) for x in key[1:]]
        if o.exact is not None and o.unique and all(c is not None for c in cs):
            return {P(self.new_list(node, list(o.exact[slice(*[c.v for c in cs])]), 'slice'))}
        ln = None
        o = self.unexact(o)
        f, must = {}, set()
        nostep = cs[2] is not None and cs[2].v is None
        lo, hi = cs[0], cs[1]
        if nostep and lo is not None and (lo.v is None or lo.v == 0):
            for k, v in o.fields.items():
                if isinstance(k, int) and k >= 0 and (hi is not None and hi.v is None):
                    f[k] = v
                    if k in o.must:
                        must.add(k)
        if nostep and hi is not None and hi.v is None and lo is not None and (lo.v is None or lo.v == 0):
            for k, v in o.fields.items():
                if isinstance(k, int) and k < 0:
                    f[k] = v
                    if k in o.must:
                        must.add(k)
        if self.numeric:
            b = self.slice_bounds(o.ln, key)
            if b is not None:
                d = lin_sub(b[1], b[0])
                if d.lo() >= 0 or self.entails2(d):
                    ln = d
            if ln is None:
                ln = lin_of(self.fresh(node, 'sllen', 0))
        elems = o.elems()
        # a tail slice drops the elements before it
        if nostep and lo is not None and isinstance(lo.v, int) and lo.v > 0 and hi is not None and hi.v is None and o.kind == 'list':
            drop = [k for k in o.fields if isinstance(k, int) and 0 <= k < lo.v]
            if drop:
                el = set(o.other)
                for k, v in o.fields.items():
                    if k not in drop:
                        el |= v
                elems = self.norm(frozenset(el), ('sls', node_id_(node)))
        return {P(self.alloc(node, 'list', 'slice', other=elems, fields=f, must=frozenset(must), ln=ln))}

    # ------------------------------------------------------------ scalar attributes and methods

    def scalar_attr(self, a, attr, node):
        if a.tn in NUM and attr in ('real', 'imag'):
            if isinstance(a, Ka):
                return V(self.mk_const(getattr(a.v, attr), a.lb))
            if a.tn == 'complex':
                return self.mk('float', a.lb)
            return V(a) if attr == 'real' else V(K(0))
        return None

    def scalar_method(self, recv, name, args, kwargs, node):
        r = self.client.on_method(self, None, name, [recv] + args, kwargs, node)
        if r is not None:
            return r
        out = set()
        for a in recv:
            x = self.scalar_method1(a, name, args, kwargs, node)
            if x:
                out |= x
        if not out:
            raise Dead_()
        return self.norm(frozenset(out), ('sm', node_id_(node), self.fi.ctx))

    def scalar_method1(self, a, name, args, kwargs, node):
        if a.tn == 'slice' and name == 'indices' and len(args) == 1:
            c = single_const(args[0])
            return V(Tu([V(K(x)) for x in a.v.indices(c.v)]) if isinstance(a, Ka) and c is not None and isinstance(c.v, int) else Tu([V(T('int'))] * 3))
        if name not in STR_PURE and name not in ('fromhex', 'from_bytes'):
            if name == 'append' or not hasattr(getattr(__builtins__, 'x', str), name) and not hasattr(bytes, name) and not hasattr(int, name):
                self.client.on_bad(self, node, f'no method {name} on {a.tn}')
                return None
        if not hasattr({'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool, 'complex': complex}.get(a.tn, object), name):
            self.client.on_bad(self, node, f'no method {name} on {a.tn}')
            return None
        if not kwargs or name in ('to_bytes',):
            vals = [V(a)] + list(args)
            if name == 'split' or name == 'splitlines' or name == 'join' or name == 'rsplit' or name == 'translate':
                pass
            elif name in STR_PURE and not kwargs:
                f = self.fold(lambda *xs: getattr(xs[0], name)(*xs[1:]), vals)
                if f is not None:
                    return f
        for x in args:
            for y in x:
                if isinstance(y, Ka) and y.v is None and name not in ('split', 'strip', 'find', 'lstrip', 'rstrip', 'rfind', 'rsplit'):
                    self.client.on_none(self, node, f'argument of {name}')
        lb = a.lb | self.lbs(*args)
        aux = self.saux(a)
        if self.lin_holes and name in ('strip', 'lstrip', 'rstrip', 'split') and not kwargs and len(args) <= 1 and aux[1] is not None and hasattr(self.client, 'text_strip'):
            r = self.client.text_strip(self, a, name, args, node)
            if r is not None:
                return r
        if name in BOOLM:
            return V(T('bool', self.client.lab('bool', lb)))
        if name in INTM:
            lo = -1 if name in ('find', 'rfind') else 0
            if self.lin_holes and name in ('find', 'rfind', 'index', 'rindex') and len(args) == 1 and aux[1] is not None and single_const(args[0]) is not None:
                x = single_const(args[0]).v
                if isinstance(x, (str, bytes)):
                    k = RX.find_at(aux[1], x if isinstance(x, str) else x.decode('latin-1'), name[0] == 'r')
                    if k is not None and not (k is lin(-1) and 'index' in name):
                        return self.mk_int(lb, node, l=k)
            if self.lin_holes and name in ('find', 'rfind', 'index', 'rindex') and 1 <= len(args) <= 2 and aux[1] is not None:
                k = self.client.find_text(self, a, args, name[0] == 'r') if hasattr(self.client, 'find_text') else None
                if k is not None and not (k is lin(-1) and 'index' in name):
                    return self.mk_int(lb, node, l=k)
            r = self.mk_int(lb, node, name, lo=lo)
            if name == 'bit_length' and self.lin_holes and self.alin(a) is not None:
                l = self.int_lin(r)
                if len(l.terms) == 1:
                    self.rel[l.terms[0][0]] = ('bits', self.alin(a))
            if self.numeric and name in ('find', 'rfind', 'index', 'rindex') and aux[0] is not None:
                l = self.int_lin(r)
                self.add_fact(self.st, lin_sub(aux[0], l))
                if len(args) >= 2 and name in ('index',):
                    b = self.int_lin(args[1])
                    if b is not None and b.lo() >= 0:
                        self.add_fact(self.st, lin_sub(l, b))
            return r
        if name == 'encode':
            return self.mk('bytes', lb, a.aux if isinstance(a, Ta) else self.mk_saux(aux[0], aux[1]))
        if name == 'decode':
            return self.mk('str', lb, a.aux if isinstance(a, Ta) else self.mk_saux(aux[0], aux[1]))
        if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold'):
            return self.mk_str(a.tn, lb, node, name, ln=aux[0], rx=aux[1] if aux[1] is not None and aux[1].op == 'hole' else RX.ANY)
        if name == 'hex':
            return self.mk_str('str', lb, node, name, ln=lin_scale(aux[0], 2) if aux[0] is not None else None, rx=RX.rep('hex', 0, None))
        if name == 'to_bytes':
            n = self.int_lin(args[0]) if args else self.int_lin(kwargs.get('length', EMPTY)) if kwargs.get('length') else lin(1)
            rx = None
            if self.lin_holes and a.tn == 'int' and n is not None:
                o = single_const(args[1] if len(args) > 1 else kwargs.get('byteorder', V(K('big'))))
                l = self.alin(a)
                if l is not None:
                    self.check_fits(l, n, node)
                if o is not None and l is not None:
                    rx = RX.hole((l, 'be' if o.v == 'big' else 'le', n))
            return self.mk_str('bytes', self.lbs(V(a)), node, name, ln=n, rx=rx)
        if name in ('split', 'rsplit', 'splitlines'):
            if isinstance(a, Ka) and all(single_const(x) is not None for x in args) and not kwargs:
                try:
                    r = getattr(a.v, name)(*[single_const(x).v for x in args])
                    return {P(self.new_list(node, [V(K(x, lb)) for x in r], name))}
                except Exception:
                    return None
            e = self.mk_str(a.tn, lb, node, name, rx=RX.ANY)
            f = {0: e, -1: e} if (args and single_const(args[0]) is not None and single_const(args[0]).v is not None) else {}
            if name == 'splitlines':
                f = {}
            return {P(self.alloc(node, 'list', name, other=e, fields=f, must=frozenset(f), ln=lin_of(self.fresh(node, 'nsplit', 1 if f else 0)) if self.numeric else None))}
        if name in ('partition', 'rpartition'):
            e = self.mk_str(a.tn, lb, node, name, rx=RX.ANY)
            return {Tu([e, e, e])}
        if name == 'join':
            return self.join_method(a, args[0], node)
        if name == 'replace':
            return self.mk_str(a.tn, self.client.replace_label(self, a, args, lb, node) if hasattr(self.client, 'replace_label') else lb,
                               node, name, ln=None, rx=RX.ANY)
        if name in ('strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'):
            r = self.mk_str(a.tn, lb, node, name, rx=RX.ANY)
            if self.numeric and aux[0] is not None:
                l = self.saux(next(iter(r)))[0]
                self.add_fact(self.st, lin_sub(aux[0], l))
            return r
        if name in ('rjust', 'ljust', 'zfill', 'center', 'expandtabs', 'format', 'translate'):
            ln = None
            if name != 'format' and args and self.numeric:
                l = self.int_lin(args[0])
                if l is not None and aux[0] is not None and lin_sub(l, aux[0]).lo() >= 0:
                    ln = l
            for kv in kwargs.values():
                lb |= self.lbs(kv)
            rx = RX.ANY
            if self.lin_holes and isinstance(a, Ta) and aux[1] is not None and aux[1].op == 'hole' and isinstance(aux[1].args, tuple) and aux[1].args[1:] == ('',):
                w = single_const(args[0]) if args else None
                fill = single_const(args[1]) if len(args) > 1 else None
                if w is not None and (name == 'zfill' or name == 'rjust' and fill is not None and fill.v in ('0', b'0')):
                    rx = RX.hole((aux[1].args[0], f'0{w.v}'))
                    ln = lin(w.v)
            return self.mk_str(a.tn, lb, node, name, ln=ln, rx=rx)
        if name == 'fromhex':
            return self.mk_str('bytes', lb, node, name)
        if name == 'conjugate':
            return V(a)
        return V(U(lb))

    def join_method(self, sep, it, node):
        ex = self.exact_items(it)
        if ex is not None and ex and (len(ex) <= 64 or all(single_const(p) is not None for p in ex)):
            parts = []
            for i, v in enumerate(ex):
                if i:
                    parts.append(V(sep))
                parts.append(v)
            if all(single_const(p) is not None for p in parts):
                try:
                    s = sep.v.join(single_const(p).v for p in ex)
                    return V(self.mk_const(s, frozenset().union(*[single_const(p).lb for p in parts])))
                except Exception:
                    return None
            return self.concat_strs(parts, sep.tn, node)
        if ex is not None and not ex:
            return V(K('' if sep.tn == 'str' else b''))
        e = self.iter_elem(it, node)
        lb = sep.lb | self.lbs(e)
        rx = None
        if self.shapes and all(isinstance(x, (Ka, Ta)) for x in e) and e:
            r = RX.alt(*[self.saux(x)[1] or RX.ANY for x in e])
            s = self.saux(sep)[1] or RX.ANY
            rx = RX.alt(RX.EPS, RX.cat(r, RX.star(RX.cat(s, r))))
        return self.mk_str(sep.tn, lb, node, 'join', rx=rx)

    # ------------------------------------------------------------ container methods

    def heap_method(self, a, name, args, kwargs, node):
        if isinstance(a, Tua):
            if name == '_replace':
                c = self.classes.get(a.cls)
                nf = c.fieldnames()
                items = list(a.items)
                for k, v in kwargs.items():
                    if k not in nf:
                        self.client.on_bad(self, node, f'no field {k}')
                        raise Dead_()
                    items[nf.index(k)] = v
                return V(Tu(items, a.cls))
            if name == '_asdict':
                c = self.classes.get(a.cls)
                nf = c.fieldnames()
                return V(P(self.alloc(node, 'dict', 'asdict', fields=dict(zip(nf, a.items)), must=frozenset(nf))))
            if name in ('index', 'count'):
                return self.mk_int(NOLB, node, name, lo=0)
            return UNK
        if isinstance(a, Fna):
            return UNK
        o = self.get(a.loc)
        if o is None:
            raise Dead_()
        if o.kind == 'dict' or (o.kind == 'mixed' and hasattr(dict, name) and not hasattr(list, name)):
            m = getattr(self, 'dm_' + name, None)
            if m is not None:
                return m(a, o, args, kwargs, node)
            if hasattr(dict, name):
                raise AnalysisBroken(f'{where(node)}: unsupported method {name} of dict')
            self.client.on_bad(self, node, f'no method {name} on dict')
            raise Dead_()
        if o.kind == 'set':
            return self.set_method(a, o, name, args, node)
        if o.kind in ('list', 'mixed'):
            m = getattr(self, 'lm_' + name, None)
            if m is not None:
                return m(a, o, args, kwargs, node)
            if hasattr(list, name):
                raise AnalysisBroken(f'{where(node)}: unsupported method {name} of list')
            self.client.on_bad(self, node, f'no method {name} on list')
            raise Dead_()
        if o.kind == 'file':
            return self.file_method(a, o, name, args, kwargs, node)
        if o.kind == 'iter':
            if name in ('__next__', 'send'):
                return self.iter_elem(V(a), node) or UNK
            return UNK
        return UNK

    # dict
    def dict_get(self, a, o, key, node):
        """(Val of present entries, may be absent)."""
        kc = self.key_consts(key, o)
        if kc is not None:
            out, absent = set(), False
            for k in kc:
                v, p = self.read_key(a.loc, k, node)
                out |= v
                if not p:
                    absent = True
            return self.norm(frozenset(out), ('dg', node_id_(node))), absent
        r = self.read_key(a.loc, None, node)[0]
        if hasattr(self.client, 'read_unknown'):
            r = self.client.read_unknown(self, a.loc, o, key, r, node)
        return r, True

    def dm_get(self, a, o, args, kwargs, node):
        v, absent = self.dict_get(a, o, args[0], node)
        if absent or not v:
            v = self.join_vals(v, args[1] if len(args) > 1 else NONE)
        return v

    def dm_setdefault(self, a, o, args, kwargs, node):
        v, absent = self.dict_get(a, o, args[0], node)
        d = args[1] if len(args) > 1 else NONE
        if absent:
            kc = self.key_consts(args[0], o)
            self.note_key(a.loc, o, args[0])
            nv = self.join_vals(v, d)
            self.write_field(a.loc, kc[0] if kc and len(kc) == 1 else None, nv, node, 'setdefault')
            return nv
        return v

    def dm_pop(self, a, o, args, kwargs, node):
        v, absent = self.dict_get(a, o, args[0], node)
        kc = self.key_consts(args[0], o)
        self.del_field(a.loc, kc[0] if kc and len(kc) == 1 else None, node)
        if absent and len(args) > 1:
            v = self.join_vals(v, args[1])
        if not v:
            raise Dead_()
        return v

    def dm_popitem(self, a, o, args, kwargs, node):
        self.del_field(a.loc, None, node)
        return V(Tu([self.iter_elem(V(a), node) or UNK, o.elems() or UNK]))

    def dm_keys(self, a, o, args, kwargs, node):
        ex = self.exact_items(V(a))
        if ex is not None:
            return V(P(self.new_list(node, ex, 'keys', 'iter')))
        ok = self.iter_elem(V(a), node)
        return V(P(self.alloc(node, 'iter', 'keys', other=ok)))

    def dm_values(self, a, o, args, kwargs, node):
        ex = self.exact_items(V(a))
        if ex is not None:
            return V(P(self.new_list(node, [x for x in o.fields.values() if x], 'values', 'iter')))
        return V(P(self.alloc(node, 'iter', 'values', other=o.elems())))

    def dm_items(self, a, o, args, kwargs, node):
        ex = self.exact_items(V(a))
        if ex is not None:
            return V(P(self.new_list(node, [V(Tu([k, x])) for k, x in zip(ex, [x for x in o.fields.values() if x])], 'items', 'iter')))
        out = set()
        for k, v in o.fields.items():
            if v:
                out.add(Tu([V(key_atom(k)), v]))
        if o.other:
            out.add(Tu([o.okeys or UNK, o.other]))
        if len(out) > 32:
            ks = self.norm(self.iter_elem(V(a), node), ('di', node_id_(node)))
            out = {Tu([ks, o.elems()])}
        return V(P(self.alloc(node, 'iter', 'items', other=frozenset(out))))

    def dm_update(self, a, o, args, kwargs, node):
        for x in args:
            self.dict_update(a.loc, x, node)
        for k, v in kwargs.items():
            self.write_field(a.loc, k, v, node, 'update')
        return NONE

    def dm_copy(self, a, o, args, kwargs, node):
        return V(P(self.copy_obj(a.loc, node, 'dict', 'copy')))

    def dm_clear(self, a, o, args, kwargs, node):
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'clear')
        self.inval(a.loc)
        o = self.get(a.loc)
        if o.unique:
            self.st.heap[a.loc] = o.upd(fields={}, must=frozenset(), other=EMPTY, okeys=EMPTY)
        else:
            self.st.heap[a.loc] = o.upd(must=frozenset())
        return NONE

    def dm_fromkeys(self, a, o, args, kwargs, node):
        return V(P(self.alloc(node, 'dict', 'fromkeys', other=args[1] if len(args) > 1 else NONE, okeys=self.iter_elem(args[0], node))))

    # list
    def lm_append(self, a, o, args, kwargs, node):
        self.list_append(a.loc, args[0], node)
        return NONE

    def lm_insert(self, a, o, args, kwargs, node):
        self.list_insert(a.loc, args[0], args[1], node)
        return NONE

    def lm_extend(self, a, o, args, kwargs, node):
        self.list_extend(a.loc, args[0], node)
        return NONE

    def lm_pop(self, a, o, args, kwargs, node):
        key = args[0] if args else V(K(-1))
        kc = self.key_consts(key)
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'pop')
        self.inval(a.loc)
        o = self.get(a.loc)
        if o.exact is not None and o.unique and kc is not None and len(kc) == 1:
            ex = list(o.exact)
            try:
                v = ex.pop(kc[0])
            except IndexError:
                self.client.on_bad(self, node, 'pop from empty list')
                raise Dead_()
            self.st.heap[a.loc] = o.upd(exact=tuple(ex), ln=lin(len(ex)) if self.numeric else None)
            return v
        o = self.unexact(o)
        ln = lin_add(o.ln, lin(-1)) if o.ln is not None and o.unique else None
        if kc == [-1]:
            v, _ = self.read_key(a.loc, -1, node)
            f, must, other = {}, set(), o.other
            if o.unique:
                for k, x in o.fields.items():
                    if isinstance(k, int) and k < -1:
                        f[k + 1] = x
                        if k in o.must:
                            must.add(k + 1)
                    elif isinstance(k, int) and k >= 0:
                        f[k] = x
                        # certain only if the list is longer
            else:
                f = dict(o.fields)
            self.st.heap[a.loc] = o.upd(fields=f, must=frozenset(must), ln=ln)
        else:
            v = self.read_key(a.loc, kc[0] if kc and len(kc) == 1 else None, node)[0]
            f = {}
            must = set()
            if o.unique and kc == [0]:
                for k, x in o.fields.items():
                    if isinstance(k, int) and k > 0:
                        f[k - 1] = x
                        if k in o.must:
                            must.add(k - 1)
                if 0 in o.fields:
                    rest = set(o.other)
                    for k, x in o.fields.items():
                        if k != 0:
                            rest |= x
                    self.st.heap[a.loc] = o.upd(fields=f, must=frozenset(must), other=frozenset(rest), ln=ln)
                    return v or UNK
            self.st.heap[a.loc] = o.upd(fields=f, must=frozenset(must), other=o.elems(), ln=ln)
        if not v:
            raise Dead_()
        return v

    def lm_remove(self, a, o, args, kwargs, node):
        i = self.index_of(o, args[0]) if args else None
        if i is not None and i < 0:
            self.client.on_bad(self, node, 'remove of an element that is not in the list')
            raise Dead_()
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'remove')
        self.inval(a.loc)
        o = self.get(a.loc)
        if i is not None:
            ex = o.exact[:i] + o.exact[i + 1:]
            self.st.heap[a.loc] = o.upd(exact=ex, ln=lin(len(ex)) if self.numeric else None)
            return NONE
        o = self.unexact(o)
        self.st.heap[a.loc] = o.upd(fields={}, must=frozenset(), other=o.elems(), ln=lin_add(o.ln, lin(-1)) if o.ln is not None and o.unique else None)
        return NONE

    def lm_clear(self, a, o, args, kwargs, node):
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'clear')
        self.inval(a.loc)
        o = self.get(a.loc)
        if o.unique:
            self.st.heap[a.loc] = o.upd(fields={}, must=frozenset(), other=EMPTY, exact=(), ln=lin(0) if self.numeric else None)
        else:
            o = self.unexact(o)
            self.st.heap[a.loc] = o.upd(must=frozenset(), ln=None)
        return NONE

    def plain(self, v):
        """(value,) of a constant or tuple of constants, else None."""
        if v is None or len(v) != 1:
            return None
        a = next(iter(v))
        if isinstance(a, Ka):
            return (a.v,)
        if self.lin_holes and isinstance(a, Ta) and a.tn == 'int' and isinstance(a.aux, Lin):
            return (LinOrd(self, a.aux),)
        if isinstance(a, Tua):
            xs = [self.plain(x) for x in a.items]
            return None if any(x is None for x in xs) else (tuple(x[0] for x in xs),)
        return None

    def sort_keys(self, items, kwargs, node):
        """Sort keys of the items when all are constants, else None."""
        if not items or len(items) > 300:
            return None
        f = kwargs.get('key')
        if f is not None and not all(isinstance(x, Ka) and x.v is None for x in f):
            for x in items:
                self.push(x)
            base = len(self.st.temps) - len(items)
            ks = []
            for i in range(len(items)):
                ks.append(self.plain(self.call_key(f, self.st.temps[base + i], node)))
            items = self.st.temps[base:]
            del self.st.temps[base:]
        else:
            ks = [self.plain(x) for x in items]
        if any(k is None for k in ks):
            return None
        try:
            sorted(k[0] for k in ks)
            max(k[0] for k in ks)
            min(k[0] for k in ks)
        except TypeError:
            return None
        return [k[0] for k in ks]

    def sort_exact(self, items, kwargs, node):
        rv = single_const(kwargs['reverse']) if kwargs.get('reverse') else K(False)
        ks = self.sort_keys(items, kwargs, node) if rv is not None else None
        if ks is None:
            return None
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(rv.v))
        return [items[i] for i in order]

    def lm_sort(self, a, o, args, kwargs, node):
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'sort')
        if o.exact is not None and o.unique and len(o.exact) > 0:
            ex = self.sort_exact(list(o.exact), kwargs, node)
            if ex is not None:
                self.inval(a.loc)
                self.st.heap[a.loc] = self.get(a.loc).upd(exact=tuple(ex))
                return NONE
        self.inval(a.loc)
        o = self.unexact(self.get(a.loc))
        self.st.heap[a.loc] = o.upd(fields={}, must=frozenset(), other=o.elems())
        if kwargs.get('key'):
            self.call_key(kwargs['key'], o.elems(), node)
        return NONE

    def call_key(self, f, e, node):
        if e:
            if all(isinstance(x, Ka) and x.v is None for x in f):
                return EMPTY
            try:
                return self.call_value(f, [e], {}, node)
            except Exception as x:
                if type(x).__name__ == 'Dead':
                    return EMPTY
                raise
        return EMPTY

    def lm_reverse(self, a, o, args, kwargs, node):
        self.client.on_write(self, a.loc, o, None, EMPTY, node, 'reverse')
        self.inval(a.loc)
        o = self.get(a.loc)
        if o.exact is not None and o.unique:
            self.st.heap[a.loc] = o.upd(exact=tuple(reversed(o.exact)))
        else:
            o = self.unexact(o)
            self.st.heap[a.loc] = o.upd(fields={}, must=frozenset(), other=o.elems())
        return NONE

    def lm_copy(self, a, o, args, kwargs, node):
        return V(P(self.copy_obj(a.loc, node, 'list', 'copy')))

    def index_of(self, o, v):
        """Position of the first element equal to a value (-1: none), or None when not known."""
        if o is None or o.exact is None or not o.unique or len(v) != 1:
            return None
        b = next(iter(v))
        for i, x in enumerate(o.exact):
            if len(x) != 1:
                return None
            r = self.eq_atoms(next(iter(x)), b)
            if r is None:
                return None
            if r:
                return i
        return -1

    def known_pairs(self, v):
        """Pairs (constant key, value) of a list of pairs of known length, or None."""
        ex = self.exact_items(v) if len(v) == 1 else None
        if ex is None:
            return None
        out = []
        for p in ex:
            it = self.exact_items(p) if len(p) == 1 else None
            k = single_const(it[0]) if it is not None and len(it) == 2 else None
            if k is None or isinstance(k.v, slice):
                return None
            out.append((k.v, it[1]))
        return out

    def lm_index(self, a, o, args, kwargs, node):
        i = self.index_of(o, args[0]) if len(args) == 1 else None
        if i is not None:
            if i < 0:
                self.client.on_bad(self, node, 'index of an element that is not in the list')
                raise Dead_()
            return V(K(i))
        return self.mk_int(NOLB, node, 'index', lo=0)

    def lm_count(self, a, o, args, kwargs, node):
        return self.mk_int(NOLB, node, 'count', lo=0)

    def set_method(self, a, o, name, args, node):
        if name == 'add':
            self.set_add(a.loc, args[0], node)
            return NONE
        cur = self.sset(o)
        if name in ('update', 'union', 'symmetric_difference', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'difference_update', 'intersection_update') and cur is not None:
            xs = [self.const_items(x) for x in args]
            if all(x is not None for x in xs):
                r = getattr(set(cur), name)(*xs)
                if r is None:
                    self.client.on_write(self, a.loc, o, None, EMPTY, node, name)
                    self.inval(a.loc)
                    t = set(cur)
                    getattr(t, name)(*xs)
                    self.set_exact(a.loc, t)
                    return NONE
                return V(K(r)) if isinstance(r, bool) else self.new_set(node, name, r)
        if name in ('discard', 'remove', 'pop') and cur is not None:
            c = single_const(args[0]) if args else None
            if c is not None or name == 'pop':
                self.client.on_write(self, a.loc, o, None, EMPTY, node, name)
                self.inval(a.loc)
                t = set(cur)
                if name == 'pop':
                    if not t:
                        raise Dead_()
                    x = t.pop()
                    self.set_exact(a.loc, t)
                    return V(K(x))
                if name == 'remove' and c.v not in t:
                    raise Dead_()
                t.discard(c.v)
                self.set_exact(a.loc, t)
                return NONE
        if name == 'copy' and cur is not None:
            return self.new_set(node, 'copy', cur)
        if o.exact is not None:
            o = self.unexact(o)
            self.st.heap[a.loc] = o
        if name == 'update':
            for x in args:
                self.set_add(a.loc, self.iter_elem(x, node), node)
            return NONE
        if name in ('difference_update', 'intersection_update'):
            self.client.on_write(self, a.loc, o, None, EMPTY, node, name)
            self.inval(a.loc)
            self.st.heap[a.loc] = self.get(a.loc).upd(must=frozenset())
            return NONE
        if name in ('discard', 'remove', 'clear'):
            self.client.on_write(self, a.loc, o, None, EMPTY, node, name)
            self.inval(a.loc)
            o = self.get(a.loc)
            if name == 'clear' and o.unique and self.scenario:
                self.set_exact(a.loc, [])
                return NONE
            self.st.heap[a.loc] = o.upd(must=frozenset(), other=EMPTY if name == 'clear' and o.unique else o.other)
            return NONE
        if name == 'pop':
            self.client.on_write(self, a.loc, o, None, EMPTY, node, name)
            self.inval(a.loc)
            o = self.get(a.loc)
            self.st.heap[a.loc] = o.upd(must=frozenset())
            if not o.other:
                raise Dead_()
            return o.other
        if name == 'copy':
            return V(P(self.alloc(node, 'set', 'copy', other=o.other, must=o.must)))
        if name in ('union', 'symmetric_difference'):
            e = o.other
            for x in args:
                e = self.join_vals(e, self.iter_elem(x, node))
            return V(P(self.alloc(node, 'set', name, other=e)))
        if name in ('intersection', 'difference'):
            return V(P(self.alloc(node, 'set', name, other=o.other)))
        if name in ('issubset', 'issuperset', 'isdisjoint'):
            return BOOL
        if hasattr(set, name):
            raise AnalysisBroken(f'{where(node)}: unsupported method {name} of set')
        self.client.on_bad(self, node, f'no method {name} on set')
        raise Dead_()

    def file_method(self, a, o, name, args, kwargs, node):
        r = self.client.on_file(self, a, o, name, args, node) if hasattr(self.client, 'on_file') else None
        if r is not None:
            return r
        if name in ('read', 'readline', 'getvalue'):
            return self.mk_str('bytes', labels(o.other), node, name)
        if name in ('readlines',):
            return V(P(self.alloc(node, 'list', name, other=self.mk_str('bytes', labels(o.other), node, name))))
        if name in ('seek', 'tell', 'write', 'fileno'):
            return self.mk_int(NOLB, node, name, lo=0)
        if name in ('close', '__exit__'):
            self.close_file(a.loc, o)
            return NONE
        if name == '__enter__':
            return V(a)
        return NONE

    # ------------------------------------------------------------ types

    def call_type(self, ref, args, kwargs, node):
        r = self.client.on_ext(self, 'type:' + ref, args, kwargs, node)
        if r is not None:
            return r
        lb = self.lbs(*args) if args else NOLB
        for v in kwargs.values():
            lb |= self.lbs(v)
        if ref in ('int', 'float', 'complex', 'str', 'bytes', 'bool') and not kwargs:
            if not args:
                return V(K({'int': 0, 'float': 0.0, 'complex': 0j, 'str': '', 'bytes': b'', 'bool': False}[ref]))
            if not (ref == 'bytes' and any(isinstance(x, Ka) and isinstance(x.v, int) and x.v > BIG for x in args[0])):
                f = self.fold({'int': int, 'float': float, 'complex': complex, 'str': str, 'bytes': bytes, 'bool': bool}[ref], args)
                if f:
                    return f
            for x in args:
                for y in x:
                    if isinstance(y, Ka) and y.v is None and ref in ('int', 'float', 'complex', 'bytes'):
                        self.client.on_none(self, node, ref + '()')
                        if len(x) == 1:
                            raise Dead_()
        if ref == 'int':
            x = args[0]
            ls = self.int_lin(self.ints(x)) if self.numeric and len(args) == 1 else None
            if ls is not None and all(isinstance(y, (Ka, Ta)) and y.tn == 'int' for y in x):
                return V(*[y for y in x]) if len(x) == 1 else self.mk_int(lb, node, l=ls)
            if not self.numeric and len(args) == 1 and all(isinstance(y, (Ka, Ta)) and y.tn == 'int' for y in x):
                return x
            if self.lin_holes and len(args) == 1 and len(x) == 1 and hasattr(self.client, 'text_int'):
                l = self.client.text_int(self, next(iter(x)))
                if l is not None:
                    return self.mk_int(lb, node, l=l)
            self.may_exc = True
            sy = [y for y in x if isinstance(y, (Ka, Ta)) and y.tn == 'complex']
            return self.mk_int(lb, node, 'int()')
        if ref in ('float', 'complex'):
            return self.mk(ref, lb)
        if ref == 'bool':
            t, f = self.truthy(args[0]), self.falsy(args[0])
            return BOOL if t and f else (TRUE if t else FALSE)
        if ref == 'str':
            if len(args) == 1:
                return self.format_value(args[0], None, 115, node) if not all(isinstance(y, Ta) and y.tn == 'str' for y in args[0]) else args[0]
            return self.mk_str('str', lb, node, 'str()')
        if ref in ('bytes', 'bytearray'):
            a = args[0]
            if len(args) > 1 or kwargs:
                out = set()
                for x in a:
                    if isinstance(x, (Ka, Ta)) and x.tn == 'str':
                        ax = self.saux(x)
                        out |= self.mk('bytes', lb, self.mk_saux(ax[0], ax[1]))
                    else:
                        out |= self.mk_str('bytes', lb, node, 'bytes()')
                return frozenset(out)
            if all(isinstance(y, (Ka, Ta)) and y.tn == 'bytes' for y in a):
                return a
            ex = self.exact_items(a)
            if ex is not None and all(single_const(x) is not None for x in ex):
                try:
                    return V(self.mk_const(bytes([single_const(x).v for x in ex]), lb))
                except (TypeError, ValueError):
                    raise Dead_()
            ln = None
            if self.numeric:
                if len(a) == 1:
                    y = next(iter(a))
                    if isinstance(y, Pa) and self.get(y.loc) is not None:
                        ln = self.list_len(self.get(y.loc), node)
                    elif isinstance(y, (Ka, Ta)) and y.tn == 'int':
                        ln = self.alin(y)
            return self.mk_str('bytes', lb, node, 'bytes()', ln=ln)
        if ref == 'list':
            if not args:
                return V(P(self.new_list(node, [], 'list()')))
            for y in args[0]:
                if isinstance(y, Ka) and y.v is None:
                    self.client.on_none(self, node, 'list()')
            return V(P(self.to_list(args[0], node)))
        if ref == 'tuple':
            if not args:
                return V(Tu(()))
            ex = self.exact_items(args[0])
            if ex is not None:
                return V(Tu(ex))
            return V(P(self.to_list(args[0], node, 'list', 'tuple')))
        if ref in ('set', 'frozenset'):
            items = (self.const_items(args[0]) if args else []) if self.scenario else None
            e = self.iter_elem(args[0], node) if args and items is None else EMPTY
            return self.new_set(node, 'set()', items, e)
        if ref == 'dict':
            loc = self.alloc(node, 'dict', 'dict()')
            for x in args:
                cp = [y for y in x if isinstance(y, Pa) and self.get(y.loc) is not None and self.get(y.loc).kind == 'dict']
                if len(cp) == 1 and len(x) == 1:
                    o = self.get(cp[0].loc)
                    self.st.heap[loc] = self.get(loc).upd(fields=dict(o.fields), must=o.must, other=o.other, okeys=o.okeys)
                else:
                    pairs = self.known_pairs(x) if not self.in_rec() else None
                    if pairs is not None:
                        for k, v in pairs:
                            self.write_field(loc, k, v, node)
                    else:
                        self.dict_update(loc, x, node)
            for k, v in kwargs.items():
                if k != '**':
                    self.write_field(loc, k, v, node)
            return V(P(loc))
        if ref == 'object':
            return V(P(self.alloc(node, 'inst', 'object', cls='object')))
        if ref == 'type':
            if len(args) == 1:
                out = set()
                for a in args[0]:
                    t = self.atom_type(a)
                    if t == 'none':
                        out.add(Fn('type', 'NoneType'))
                    elif t in self.classes:
                        out.add(Fn('class', self.classes[t]))
                    elif t is None or t in ('mixed', 'function', 'iter'):
                        out.add(U())
                    else:
                        out.add(Fn('type', t))
                return frozenset(out)
            return UNK
        if ref == 'range':
            if all(single_const(x) is not None and isinstance(single_const(x).v, int) for x in args):
                r = range(*[single_const(x).v for x in args])
                if len(r) <= 512:
                    return V(P(self.new_list(node, [V(K(i)) for i in r], 'range', 'iter')))
            if len(args) == 1:
                b = [V(K(0)), args[0], V(K(1))]
            elif len(args) == 2:
                b = [args[0], args[1], V(K(1))]
            else:
                b = list(args)
            for x in b:
                for y in x:
                    if isinstance(y, Ka) and y.v is None:
                        self.client.on_none(self, node, 'range()')
                        if len(x) == 1:
                            raise Dead_()
            ln = None
            if self.numeric:
                l0, l1, l2 = map(self.int_lin, b)
                if l0 is not None and l1 is not None and l2 is not None and not l2.terms and l2.c == 1:
                    d = lin_sub(l1, l0)
                    if d.lo() >= 0 or self.entails2(d):
                        ln = d
            return V(P(self.alloc(node, 'iter', 'range', cls='range', other=self.mk('int', lb), okeys=V(Tu(b)), ln=ln)))
        if ref == 'enumerate':
            ex = self.exact_items(args[0])
            st = args[1] if len(args) > 1 else kwargs.get('start', V(K(0)))
            c = single_const(st)
            if ex is not None and c is not None and len(ex) <= 64:
                return V(P(self.new_list(node, [V(Tu([V(K(c.v + i)), x])) for i, x in enumerate(ex)], 'enum', 'iter')))
            e = self.iter_elem(args[0], node)
            if not e:
                return V(P(self.new_list(node, [], 'enum', 'iter')))
            return V(P(self.alloc(node, 'iter', 'enum', cls='enum' if self.numeric else None, other=V(Tu([self.mk_int(NOLB, node, 'enum', lo=0), e])))))
        if ref == 'zip':
            exs = [self.exact_items(x) for x in args]
            if all(e is not None for e in exs) and exs:
                n = min(len(e) for e in exs)
                return V(P(self.new_list(node, [V(Tu([e[i] for e in exs])) for i in range(n)], 'zip', 'iter')))
            es = [self.iter_elem(x, node) for x in args]
            if not all(es):
                return V(P(self.new_list(node, [], 'zip', 'iter')))
            return V(P(self.alloc(node, 'iter', 'zip', other=V(Tu(es)))))
        if ref in ('map', 'filter'):
            f, its = args[0], args[1:]
            exs = [self.exact_items(x) for x in its]
            if all(e is not None for e in exs) and exs and len(exs[0]) <= 16 and ref == 'map':
                base = len(self.st.temps)
                n = min(len(e) for e in exs)
                for i in range(n):
                    self.push(self.call_value(f, [e[i] for e in exs], {}, node))
                items = self.st.temps[base:]
                del self.st.temps[base:]
                return V(P(self.new_list(node, items, 'map', 'iter')))
            es = [self.iter_elem(x, node) for x in its]
            if not all(es):
                return V(P(self.new_list(node, [], ref, 'iter')))
            if all(isinstance(x, Ka) and x.v is None for x in f):
                return V(P(self.alloc(node, 'iter', ref, other=es[0])))
            r = self.call_value(f, es, {}, node)
            return V(P(self.alloc(node, 'iter', ref, other=r if ref == 'map' else es[0])))
        if ref == 'reversed':
            ex = self.exact_items(args[0])
            if ex is not None:
                return V(P(self.new_list(node, ex[::-1], 'rev', 'iter')))
            return V(P(self.alloc(node, 'iter', 'rev', other=self.iter_elem(args[0], node))))
        if ref == 'slice':
            cs = [single_const(x) for x in args]
            if args and all(c is not None for c in cs):
                return V(K(slice(*[c.v for c in cs])))
            return UNK
        return UNK

    # ------------------------------------------------------------ functions

    def call_builtin(self, ref, args, kwargs, node):
        r = self.client.on_ext(self, ref, args, kwargs, node)
        if r is not None:
            return r
        m = getattr(self, 'bf_' + ref, None)
        if m is not None:
            return m(args, kwargs, node)
        lb = self.lbs(*args) if args else NOLB
        if ref.startswith('exc:'):
            return V(U(lb))
        if ref in ('repr', 'ascii', 'format', 'bin', 'hex', 'oct', 'chr'):
            f = self.fold({'repr': repr, 'ascii': ascii, 'format': format, 'bin': bin, 'hex': hex, 'oct': oct, 'chr': chr}[ref], args)
            if f:
                return f
            ln = lin(1) if ref == 'chr' and self.numeric else None
            return self.mk_str('str', lb, node, ref, ln=ln, rx=RX.ANY)
        if ref == 'ord':
            f = self.fold(ord, args)
            return f if f else self.mk_int(lb, node, ref, lo=0)
        if ref == 'isinstance' and len(args) == 2:
            names = self.class_names(args[1])
            if names is not None:
                yes = any(self.inst_filter(a, names, True) is not None for a in args[0])
                no = any(self.inst_filter(a, names, False) is not None for a in args[0])
                return BOOL if yes and no else TRUE if yes else FALSE
            return BOOL
        if ref in ('isinstance', 'issubclass', 'hasattr', 'callable'):
            return BOOL
        if ref in ('any', 'all'):
            ex = self.exact_items(args[0]) if len(args) == 1 else None
            if ex is not None:
                sure = [(bool(self.truthy(x)), bool(self.falsy(x))) for x in ex]
                if ref == 'any':
                    return TRUE if any(t and not f for t, f in sure) else BOOL if any(t for t, f in sure) else FALSE
                return FALSE if any(f and not t for t, f in sure) else BOOL if any(f for t, f in sure) else TRUE
            e = self.iter_elem(args[0], node) if len(args) == 1 else EMPTY
            if e and not self.truthy(e) and ref == 'any':
                return FALSE
            if e and not self.falsy(e) and ref == 'all':
                return TRUE
            return BOOL
        if ref in ('abs', 'round', 'pow'):
            f = self.fold({'abs': abs, 'round': round, 'pow': pow}[ref], args)
            if f:
                return f
            if ref == 'round' and len(args) == 1:
                return self.mk_int(lb, node, ref)
            if all(isinstance(y, (Ka, Ta)) and y.tn in ('int', 'bool') for y in args[0]):
                return self.mk_int(lb, node, ref, lo=0 if ref == 'abs' else -INF)
            return self.mk('float', lb)
        if ref in ('hash', 'id'):
            return self.mk_int(lb, node, ref)
        if ref == 'iter':
            return args[0]
        if ref == 'next':
            v = self.iter_elem(args[0], node)
            if len(args) > 1:
                v = self.join_vals(v, args[1])
            if not v:
                raise Dead_()
            return v
        if ref == 'divmod':
            return V(Tu([self.mk_int(lb, node, 'q'), self.mk_int(lb, node, 'r')]))
        if ref == 'print':
            return NONE
        if '.' in ref:
            return self.type_method(ref, args, kwargs, node)
        return V(U(lb))

    def type_method(self, ref, args, kwargs, node):
        t, m = ref.split('.', 1)
        lb = self.lbs(*args) if args else NOLB
        if ref == 'bytes.fromhex':
            f = self.fold(bytes.fromhex, args)
            if f:
                return f
            ln = None
            if self.numeric and len(args[0]) == 1:
                l = self.saux(next(iter(args[0])))[0]
                if l is not None and all(k % 2 == 0 for _, k in l.terms) and l.c % 2 == 0:
                    ln = lin(l.c // 2, [(s, k // 2) for s, k in l.terms])
            return self.mk_str('bytes', lb, node, ref, ln=ln)
        if ref == 'int.from_bytes':
            if self.lin_holes and len(args[0]) == 1 and hasattr(self.client, 'text_bytes_int'):
                o = single_const(args[1] if len(args) > 1 else kwargs.get('byteorder', V(K('big'))))
                l = self.client.text_bytes_int(self, next(iter(args[0])), o.v if o is not None else None)
                if l is not None:
                    return self.mk_int(lb, node, l=l)
            return self.mk_int(lb, node, ref, lo=0)
        if ref in ('str.join', 'bytes.join'):
            return self.scalar_method(args[0], m, args[1:], kwargs, node)
        if t in SCALARS and args:
            return self.scalar_method(args[0], m, args[1:], kwargs, node)
        if t == 'dict' and m == 'fromkeys':
            return V(P(self.alloc(node, 'dict', 'fromkeys', other=args[1] if len(args) > 1 else NONE, okeys=self.iter_elem(args[0], node))))
        if t == 'str' and m == 'maketrans':
            return UNK
        if t in ('list', 'dict', 'set') and args:
            return self.call_value(self.getattr_(args[0], m, node), args[1:], kwargs, node)
        return V(U(lb))

    def bf_len(self, args, kwargs, node):
        out = set()
        for a in args[0]:
            if isinstance(a, Tua):
                m = self.class_lookup(a.cls, '__len__') if a.cls else None
                if m:
                    out |= self.alt_call(m, a, [], node, len(args[0]) == 1)
                else:
                    out.add(K(len(a.items)))
            elif isinstance(a, Ka):
                if a.v is None:
                    self.client.on_none(self, node, 'len()')
                elif isinstance(a.v, (str, bytes)):
                    out.add(K(len(a.v)))
                else:
                    self.client.on_bad(self, node, f'len of {a.tn}')
            elif isinstance(a, Ta):
                if a.tn not in ('str', 'bytes'):
                    self.client.on_bad(self, node, f'len of {a.tn}')
                    continue
                l = self.saux(a)[0]
                out |= self.mk_int(a.lb if getattr(self.client, 'len_keeps', False) else NOLB, node, 'len', l=l, lo=0)
            elif isinstance(a, Pa):
                o = self.get(a.loc)
                if o is None:
                    out |= INT
                    continue
                if o.kind == 'inst':
                    m = self.class_lookup(o.cls, '__len__')
                    if m:
                        out |= self.alt_call(m, a, [], node, len(args[0]) == 1)
                        continue
                    self.client.on_bad(self, node, f'len of {o.cls}')
                    continue
                if o.exact is not None and (o.kind in ('list', 'iter') or self.sset(o) is not None):
                    out.add(K(len(o.exact)))
                    continue
                ex = self.exact_items(V(a)) if o.kind == 'dict' else None
                if ex is not None:
                    out.add(K(len(ex)))
                    continue
                out |= self.mk_int(NOLB, node, ('len', a.loc if self.numeric else 0), l=o.ln, lo=1 if o.must else 0)
            elif isinstance(a, Ua):
                out |= self.mk_int(a.lb, node, 'len', lo=0)
        if not out:
            raise Dead_()
        return self.norm(frozenset(out), ('len', node_id_(node), self.fi.ctx))

    def bf_min(self, args, kwargs, node):
        return self.minmax(min, args, kwargs, node)

    def bf_max(self, args, kwargs, node):
        return self.minmax(max, args, kwargs, node)

    def byte_len(self, r, la, k):
        """r = la // k: the number of bytes of x when la is its number of bits plus 7."""
        lr = self.int_lin(r)
        if k == 8 and la.c == 7 and len(la.terms) == 1 and la.terms[0][1] == 1 and lr is not None and len(lr.terms) == 1:
            b = self.rel.get(la.terms[0][0])
            if b is not None and b[0] == 'bits':
                self.rel[lr.terms[0][0]] = ('bytes', b[1])

    def check_fits(self, l, n, node):
        """Does the value l surely fit into n bytes?"""
        if not n.terms:
            if l.hi() >= 256 ** max(n.c, 0):
                self.overflow.append((where(node), f'a value that can reach {"any size" if l.hi() == INF else l.hi()} is put into {n.c} bytes'))
            return
        b = self.rel.get(n.terms[0][0]) if len(n.terms) == 1 and n.terms[0][1] == 1 else None
        if b is None or b[0] != 'bytes' or n.c < 0:
            return
        x = b[1]
        if self.covers(x, l):
            return
        if not self.composed(x):
            return
        self.overflow.append((where(node), 'a value is put into a field whose width has been calculated without it'))

    def composed(self, x, d=0):
        """Is the value made of known parts only?"""
        for s, _ in x.terms:
            r = self.rel.get(s)
            if r is not None and r[0] == 'max':
                if d > 200 or not all(self.composed(y, d + 1) for y in r[1]):
                    return False
            elif not plain_sym(s):
                return False
        return True

    def covers(self, x, l, d=0):
        if x is l or lin_sub(x, l).lo() >= 0:
            return True
        if len(x.terms) == 1 and x.terms[0][1] == 1 and d < 200:
            r = self.rel.get(x.terms[0][0])
            if r is not None and r[0] == 'max':
                rest = lin_sub(l, lin(x.c))
                return any(self.covers(y, rest, d + 1) for y in r[1])
        return self.entails2(lin_sub(x, l))

    def minmax(self, f, args, kwargs, node):
        if len(args) == 1:
            ex = self.exact_items(args[0])
            e = self.iter_elem(args[0], node)
            if kwargs.get('key'):
                self.call_key(kwargs['key'], e, node)
            if kwargs.get('default'):
                e = self.join_vals(e, kwargs['default'])
            if ex and kwargs.get('key'):
                ks = self.sort_keys(ex, kwargs, node)
                if ks is not None:
                    return ex[f(range(len(ks)), key=lambda i: ks[i])]
            if ex is not None and not kwargs and ex:
                args = ex
            else:
                if not e:
                    raise Dead_()
                if not self.numeric:
                    return e
                return e if not all(isinstance(x, (Ka, Ta)) and x.tn == 'int' for x in e) else self.mk_int(labels(e), node, 'mm', lo=min([self.alin(x).lo() if self.alin(x) is not None else -INF for x in e]))
        c = self.fold(lambda *xs: f(xs), args)
        if c:
            return c
        for x in args:
            for y in x:
                if isinstance(y, Ka) and y.v is None:
                    self.client.on_none(self, node, 'min/max')
        u = frozenset().union(*args)
        if self.numeric and all(isinstance(x, (Ka, Ta)) and x.tn == 'int' for x in u):
            ls = [self.int_lin(x) for x in args]
            if all(l is not None for l in ls):
                if len(ls) == 2:
                    d = lin_sub(ls[0], ls[1])
                    if d.lo() >= 0 or self.entails2(d):
                        return self.mk_int(labels(u), node, l=ls[0] if f is max else ls[1])
                    if d.hi() <= 0 or self.entails2(lin_scale(d, -1)):
                        return self.mk_int(labels(u), node, l=ls[1] if f is max else ls[0])
                lo = (max if f is max else min)(l.lo() for l in ls)
                hi = (max if f is max else min)(l.hi() for l in ls)
                r = self.mk_int(labels(u), node, 'mm', lo=lo, hi=hi)
                lr = self.int_lin(r)
                if f is max and self.lin_holes and len(lr.terms) == 1:
                    self.rel[lr.terms[0][0]] = ('max', ls)
                for l in ls:
                    self.add_fact(self.st, lin_sub(lr, l) if f is max else lin_sub(l, lr))
                return r
        return self.norm(u, ('mm', node_id_(node)))

    def bf_sum(self, args, kwargs, node):
        e = self.iter_elem(args[0], node)
        ex = self.exact_items(args[0])
        if ex is not None and len(args) == 1:
            cur = V(K(0))
            for x in ex:
                cur = self.binop(ast.Add(), cur, x, node)
                if not cur:
                    raise Dead_()
            return cur
        tn = {x.tn for x in e if isinstance(x, (Ka, Ta))}
        if tn <= {'int', 'bool'}:
            lo = 0 if self.numeric and all(self.alin(x) is not None and self.alin(x).lo() >= 0 for x in e if isinstance(x, (Ka, Ta))) else -INF
            return self.mk_int(labels(e), node, 'sum', lo=lo)
        return self.mk('float', labels(e))

    def bf_sorted(self, args, kwargs, node):
        e = self.iter_elem(args[0], node)
        if kwargs.get('key'):
            self.call_key(kwargs['key'], e, node)
        ln = None
        if self.numeric and len(args[0]) == 1:
            a = next(iter(args[0]))
            if isinstance(a, Pa) and self.get(a.loc) is not None:
                ln = self.list_len(self.get(a.loc), node)
        ex = self.exact_items(args[0])
        if ex is not None and len(ex) <= 300:
            r = self.sort_exact(ex, kwargs, node) if ex else []
            if r is not None:
                return V(P(self.new_list(node, r, 'sorted')))
        return V(P(self.alloc(node, 'list', 'sorted', other=e, ln=ln)))

    def bf_getattr(self, args, kwargs, node):
        c = single_const(args[1])
        if c is not None:
            ok = []
            miss = False
            for a in args[0]:
                if isinstance(a, Tua) and a.cls and (c.v in (self.classes[a.cls].fieldnames() or []) or self.class_lookup(a.cls, c.v)):
                    ok.append(a)
                elif isinstance(a, Pa) and self.obj_type(a.loc) in self.classes and (c.v in self.get(a.loc).fields or self.class_lookup(self.obj_type(a.loc), c.v)):
                    ok.append(a)
                elif isinstance(a, Fna) or isinstance(a, Ua):
                    ok.append(a)
                else:
                    miss = True
            r = self.getattr_(frozenset(ok), c.v, node) if ok else EMPTY
            if len(args) > 2 and (miss or not ok):
                r = self.join_vals(r, args[2])
            if not r:
                raise Dead_()
            return r
        return UNK

    def bf_setattr(self, args, kwargs, node):
        c = single_const(args[1])
        self.store_attr(args[0], c.v if c is not None else None, args[2], node)
        return NONE

    def bf_open(self, args, kwargs, node):
        mode = args[1] if len(args) > 1 else kwargs.get('mode', V(K('r')))
        key = f'file:{where(node)}'
        self.st.ghost[key] = TRUE
        return V(P(self.alloc(node, 'file', 'open', fields={'closed': FALSE, 'mode': mode, 'key': V(K(key))}, other=V(T('bytes', frozenset(getattr(self.client, 'file_labels', ())))))))

    # ------------------------------------------------------------ library

    def call_ext(self, name, args, kwargs, node):
        r = self.client.on_ext(self, name, args, kwargs, node)
        if r is not None:
            return r
        self.may_exc = True
        lb = self.lbs(*args) if args else NOLB
        for v in kwargs.values():
            lb |= self.lbs(v)
        if name in ('collections.namedtuple',):
            return self.make_namedtuple(args, kwargs, node)
        if name in ('copy.deepcopy',):
            return self.deepcopy(args[0], node)
        if name in ('copy.copy',):
            out = set()
            for a in args[0]:
                if isinstance(a, Pa):
                    o = self.get(a.loc)
                    out.add(P(self.alloc(node, o.kind, 'copy', cls=o.cls, fields=dict(o.fields), must=o.must, other=o.other, okeys=o.okeys, exact=o.exact, ln=o.ln)))
                else:
                    out.add(a)
            return frozenset(out)
        if name in ('functools.partial',):
            f = args[0]
            return frozenset(Fn('partial', None, (a, tuple(args[1:]), tuple(sorted(kwargs.items())))) for a in f)
        if name in ('functools.reduce',):
            e = self.iter_elem(args[1], node)
            acc = args[2] if len(args) > 2 else e
            for _ in range(3):
                acc = self.join_vals(acc, self.call_value(args[0], [acc, e], {}, node))
            return acc
        if name in ('zlib.decompress', 'zlib.compress', 'base64.a85decode', 'base64.a85encode', 'binascii.unhexlify', 'binascii.hexlify',
                    'base64.b64encode', 'base64.b64decode', 'binascii.a2b_hex', 'binascii.b2a_hex', 'base64.b16encode', 'base64.b16decode', 'base64.b85encode'):
            return self.mk_str('bytes', lb, node, name)
        if name in ('html.escape', 'html.unescape', 'os.path.basename', 'os.path.join', 'os.path.dirname', 'os.path.abspath', 'os.getcwd'):
            return self.mk_str('str', lb, node, name, rx=RX.ANY)
        if name in ('os.path.exists', 'os.path.isfile', 'os.path.isdir'):
            return BOOL
        if name.startswith('math.'):
            fn = name[5:]
            import math
            f = self.fold(getattr(math, fn), args) if hasattr(math, fn) else None
            if f:
                return f
            if fn in ('floor', 'ceil', 'trunc', 'gcd', 'factorial', 'isqrt'):
                return self.mk_int(lb, node, fn)
            return self.mk('float', lb)
        if name in ('sys.exit', 'os._exit'):
            raise Dead_()
        if name in ('io.BytesIO',):
            return V(P(self.alloc(node, 'file', 'bytesio', fields={'closed': FALSE}, other=V(T('bytes', lb)))))
        if name in ('dataclasses.dataclass',):
            return args[0] if args else UNK
        if name in ('itertools.chain',):
            return V(P(self.alloc(node, 'iter', 'chain', other=frozenset().union(*[self.iter_elem(x, node) for x in args]) if args else EMPTY)))
        if name in ('re.compile', 're.sub', 're.match', 're.search', 're.split', 're.findall'):
            if name == 're.sub':
                return self.mk_str('str', lb, node, name)
            return V(U(lb))
        if name.startswith('typing.'):
            return UNK
        if name.startswith(('argparse', 'sys.')):
            return V(U(lb))
        self.client.on_unknown_call(self, Fn('ext', name), args, node)
        return V(U(lb))

    def make_namedtuple(self, args, kwargs, node):
        nm = single_const(args[0])
        flds = []
        c = single_const(args[1])
        if c is not None:
            flds = c.v.replace(',', ' ').split()
        else:
            ex = self.exact_items(args[1]) or []
            flds = [single_const(x).v for x in ex]
        co = ClassObj(nm.v, self.fi.module)
        co.nt_fields = flds
        d = kwargs.get('defaults')
        if d is not None:
            ex = self.exact_items(d) or []
            for n, v in zip(flds[len(flds) - len(ex):], ex):
                co.dc_defaults[n] = v
        self.classes[nm.v] = co
        return V(Fn('class', co))

    def deepcopy(self, v, node):
        mp = {}
        order = []
        rec = self.in_rec()

        def find(v):
            for a in v:
                if isinstance(a, Pa):
                    if a.loc not in mp and self.get(a.loc) is not None:
                        so = self.get(a.loc)
                        if not so.unique or rec or dc_depth(a.loc) > (60 if self.scenario else 1):
                            # one summary per kind of source
                            site = (node_id_(node), ('dc', so.cls), so.kind)
                        else:
                            site = (node_id_(node), ('dc', a.loc), so.kind)
                        mp[a.loc] = ('A', site, self.fi.ctx)
                        order.append(a.loc)
                        for x in self.get(a.loc).values():
                            find(x)
                elif isinstance(a, Tua):
                    for i in a.items:
                        find(i)
        find(v)

        def tr(v):
            out = []
            for a in v:
                if isinstance(a, Pa) and a.loc in mp:
                    out.append(P(mp[a.loc]))
                elif isinstance(a, Tua):
                    out.append(Tu([tr(i) for i in a.items], a.cls))
                else:
                    out.append(a)
            return frozenset(out)
        src = {l: self.get(l) for l in order}
        new = {}
        for l in order:
            o = src[l]
            c = Obj(o.kind, o.cls, {k: tr(x) for k, x in o.fields.items()}, o.must, tr(o.other), tr(o.okeys),
                    tuple(tr(x) for x in o.exact) if o.exact is not None else None, o.ln, o.unique and not rec,
                    frozenset(), mp[l][1])
            d = mp[l]
            if d in new:
                new[d] = self.join_objs(self.unexact(new[d]), self.unexact(c), ('dc', d)).upd(unique=False)
            elif not c.unique:
                new[d] = self.unexact(c)
            else:
                new[d] = c
        r = tr(v)
        h = self.st.heap
        clash = [l for l in new if l in h]
        for l in clash:
            if self.in_rec():
                new[l] = self.join_objs(self.unexact(h[l]), self.unexact(new[l]), ('dc', l)).upd(unique=False)
        if clash and not self.in_rec():
            self.rename_all({l: (l, '*') for l in clash})
        self.st.heap.update(new)
        return r


def dc_depth(loc):
    n = 0
    while isinstance(loc, tuple) and len(loc) == 3 and loc[0] == 'A' and isinstance(loc[1][1], tuple) and loc[1][1][0] == 'dc' and isinstance(loc[1][1][1], tuple):
        n += 1
        loc = loc[1][1][1]
    return n


def node_id_(node):
    m = getattr(node, '_mod', None)
    return (m.name.split('.')[-1] if m else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), getattr(node, 'end_col_offset', 0))


def Dead_():
    from .interp import Dead
    return Dead()


OPS = {
    'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
    'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b, 'BitOr': lambda a, b: a | b,
    'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b, 'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b,
    'MatMult': lambda a, b: a @ b,
}
