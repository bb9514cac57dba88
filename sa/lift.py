"""Abstract values for partly known inputs: constants and structure known, the rest labelled or unknown."""

from .values import *


class Unknown(object):
    """Any value of a scalar type, with a label and an optional refinement."""

    def __init__(self, tn, label=None, aux=None):
        self.tn, self.label, self.aux = tn, label, aux


_n = [0]


def lift(I, x, node=None):
    """Val of a partly known Python value; containers are allocated on the analysis heap."""
    node = node if node is not None else I.fi.node
    if isinstance(x, frozenset):
        return x
    if isinstance(x, Unknown):
        lb = frozenset([x.label]) if x.label else NOLB
        return V(T(x.tn, lb, x.aux))
    if isinstance(x, tuple):
        return V(Tu([lift(I, y, node) for y in x]))
    _n[0] += 1
    sub = f'lift{_n[0]}'
    if isinstance(x, set):
        return I.new_set(node, sub, x)
    if isinstance(x, list):
        return V(P(I.new_list(node, [lift(I, y, node) for y in x], sub)))
    if isinstance(x, dict):
        f = {k: lift(I, v, node) for k, v in x.items()}
        return V(P(I.alloc(node, 'dict', sub, fields=f, must=frozenset(f))))
    return V(K(x))
