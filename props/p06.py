"""P06: nothing of the file reaches the HTML view without escaping."""

from sa.roots import *
from sa.run import analyse

# Labels: the characters that still have to be escaped; E for escaped text, X for text escaped twice
RAW = 'raw&<>'
DONE = 'esc'
TWICE = 'twice'
SPECIAL = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}


def escaped(lb, ch=None):
    """Labels after escaping every special character (or one)."""
    out = set()
    for l in lb:
        if l.startswith('raw'):
            rest = l[3:]
            if ch is None:
                out.add(DONE if rest == '&<>' else TWICE if '&' in rest else DONE)
            elif ch in rest:
                if ch == '&' and rest != '&<>':
                    out.add(TWICE)          # damages the entities made before
                else:
                    rest = rest.replace(ch, '')
                    out.add('raw' + rest if rest else DONE)
            else:
                out.add(TWICE if ch == '&' else l)
        elif l == DONE:
            out.add(TWICE if ch in (None, '&') else l)
        else:
            out.add(l)
    return frozenset(out)


class Markup(SumClient):
    file_labels = frozenset([RAW])
    typed_keys = True

    def __init__(self):
        SumClient.__init__(self)
        self.seen = set()
        self.formatted = set()

    def lab(self, tn, lb):
        return lb if tn in ('str', 'bytes', 'bytearray') else frozenset()

    def replace_label(self, I, a, args, lb, node):
        o, n = single_const(args[0]), single_const(args[1])
        if o is not None and n is not None:
            for k, v in SPECIAL.items():
                if o.v in (k, k.encode()):
                    new = n.v.decode('latin-1') if isinstance(n.v, bytes) else n.v
                    if not any(c in new for c in '<>') and (k != '&' or new == v):
                        return escaped(lb, k)
        return lb

    def on_ext(self, I, name, args, kwargs, node):
        if name in ('html.escape', 'xml.sax.saxutils.escape', 'cgi.escape'):
            self.count('escapes')
            self.seen.add(where(node))
            lb = escaped(I.lbs(args[0]))
            return V(T('str', lb)) if lb else None
        if name in ('binascii.hexlify', 'base64.b64encode'):
            return BYTES
        if name in ('html.unescape', 'xml.sax.saxutils.unescape'):
            return V(T('str', self.file_labels))
        if name == 'print' and not I.base_alloc:
            for a in args:
                self.sink(I, a, node, 'printed')
        return None

    def fmt_label(self, I, lb, spec, node):
        if not I.base_alloc and any(l.startswith('raw') for l in lb):
            self.formatted.add(f'{where(node)} in {func_of(node)}')
        return lb

    def on_method(self, I, recv, name, args, kwargs, node):
        if name == 'hex':
            return STR
        if name == 'isoformat':
            return STR
        return None

    def on_return(self, I, fn, val, node):
        if fn.module.name.endswith('.display') and not I.base_alloc and any(isinstance(a, (Ta, Ka)) and a.tn == 'str' and any(l.startswith('raw') for l in a.lb) for a in val):
            self.first.setdefault(f'{fn.name} (from {" > ".join(I.path()[-3:])})', 1)
        if fn.name == 'build_html' and not I.base_alloc:
            self.sink(I, val, node, 'returned by build_html')

    def sink(self, I, v, node, how):
        self.count('outputs')
        lb = I.lbs(v)
        for l in sorted(lb):
            if l.startswith('raw'):
                self.violation(f'{func_of(node)}:raw', f'{where(node)} in {func_of(node)}: text of the file is {how} with {" ".join(l[3:])} not escaped; {self.origin(I)}')
            elif l == TWICE:
                self.violation(f'{func_of(node)}:twice', f'{where(node)} in {func_of(node)}: text of the file is {how} escaped twice')
        if any(isinstance(a, Ua) for a in v):
            self.notes.append(f'{where(node)}: part of the output is unknown')

    def origin(self, I):
        if self.first:
            return 'it is first found in the result of ' + '; then of '.join(list(self.first)[:4]) + '; formatted at ' + ', '.join(sorted(self.formatted)[:8])
        return ''

    first = None


def s_index(I, args, kw, node):
    """Any index: positions and numbers of objects are numbers in any file that can be opened (they are computed with, or used as list indexes)."""
    d = region.make_doc(I, 'map', 'opened', Markup.file_labels)
    return next(iter(d)).items[0]


def job(root):
    p = Program()
    c = Markup()
    c.first = {}

    def setup(I):
        return [V(T('str', c.file_labels))], {}
    I, v = run_root(p, c, root, setup=setup, summaries=dict(summary.OPEN, build_index_from_xref_sequence=s_index))
    if v is None:
        c.notes.append(f'{root.name}: no path returns')
    c.count('roots')
    c.count('statements', I.stats['stmts'])
    c.lists['functions'] = sorted(str(x) for x in I.stats['functions'])
    c.lists['escape_sites'] = sorted(c.seen)
    return c.result()


def check(ctx):
    analyse(ctx, job, [R('cli.browse', 's')])
    if not ctx.cov.get('outputs'):
        raise AnalysisBroken('no output of the browse command was found')
    ctx.explain('Label flow over the browse command on an arbitrary file: every text that stems from the file or its name carries a label until it goes through '
                'an escaping function (or replacements of & < and >, in that order), or a conversion to a number or to hexadecimal; the printed page must carry none.')
