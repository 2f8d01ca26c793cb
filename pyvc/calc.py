"""Mechanical differentiation of terms (used to state first-order propagation and 'rates are derivatives')."""
from . import terms as T
from .terms import Poly, Unsupported


def diff(p, v):
    """d p / d v for a term p and a variable/application term v (an atom)"""
    p = T.lift(p)
    a0 = T.the_atom(v) if isinstance(v, Poly) else v
    r = T.ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            da = diff_atom(a, a0)
            if da.is_const() and da.const() == 0:
                continue
            rest = T.pconst(c * e)
            for j, (b, f) in enumerate(m):
                ex = f - 1 if j == k else f
                if ex:
                    rest = rest * T.pa(b, ex)
            r = r + rest * da
    return r


def diff_atom(a, v):
    if a is v:
        return T.ONE
    if v not in T.atoms_of(T.pa(a)):
        return T.ZERO
    k, g = a.kind, a.args
    if k == "sqrt":
        return diff(g[0], v) / (2 * T.pa(a))
    if k == "den":
        return diff(g[0], v)
    if k == "cos":
        return -T.cis(g[0])[1] * diff(g[0], v)
    if k == "sin":
        return T.cis(g[0])[0] * diff(g[0], v)
    if k == "arg":
        x, y = g
        return (x * diff(y, v) - y * diff(x, v)) / (x * x + y * y)
    if k == "exp":
        return T.pa(a) * diff(g[0], v)
    if k in ("floor", "trunc", "par"):
        return T.ZERO      # piecewise constant: the derivative off the jumps
    if k == "sum":
        if v in T.atoms_of(g[0]):
            raise Unsupported("derivative of a sum's length")
        i = T.fresh("i", "I", True)
        return T.sum_over(g[0], diff(T.instantiate(g[1], g[2], i), v), T.the_atom(i))
    raise Unsupported(f"derivative of {k}")
