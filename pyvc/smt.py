"""Translation of terms to SMT and the decision procedures used: z3 (in process), cvc5 (cross-check/fallback)."""
from __future__ import annotations

import time

import z3

from . import terms as T
from .terms import B, Poly

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "by": {}}


class Tr:
    """Terms -> z3.  Atoms become constants; algebraic atoms bring their defining facts along.
    linear=True: a non-linear monomial becomes an opaque constant."""

    def __init__(self, linear=False, depth=3):
        self.linear = linear
        self.consts = {}
        self.facts = []
        self.depth = depth
        self.mon = {}
        self._level = 0

    def real(self, p):
        if p is T.NAN:
            return z3.Real("NaN!")
        terms = []
        for m, c in p.t.items():
            cf = z3.RealVal(str(c))
            if not m:
                terms.append(cf)
                continue
            if self.linear and not (len(m) == 1 and m[0][1] == 1):
                v = self.monomial(m)
            else:
                v = None
                for a, e in m:
                    av = self.atom(a)
                    if e < 0:
                        av = self.inv(a, av)
                        e = -e
                    for _ in range(e):
                        v = av if v is None else v * av
            terms.append(cf * v)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def monomial(self, m):
        v = self.mon.get(m)
        if v is None:
            v = self.mon[m] = z3.Real(f"m!{len(self.mon)}")
            for a, e in m:
                self.atom(a)
            if all(e % 2 == 0 or a.nonneg for a, e in m):
                self.facts.append(v >= 0)
        return v

    def inv(self, a, av):
        k = ("inv", a)
        v = self.consts.get(k)
        if v is None:
            v = self.consts[k] = z3.Real(f"inv!{len(self.consts)}")
            self.facts.append(z3.Implies(av != 0, v * av == 1))
            if a.nonneg:
                self.facts.append(v >= 0)
        return v

    def atom(self, a):
        v = self.consts.get(a)
        if v is not None:
            return v
        isint = a.sort == "I"
        nm = f"{a.kind}!{a.id}"
        v = z3.Int(nm) if isint else z3.Real(nm)
        if isint:
            v = z3.ToReal(v)
        self.consts[a] = v
        self._level += 1
        try:
            self.axioms(a, v)
        finally:
            self._level -= 1
        return v

    def axioms(self, a, v):
        F = self.facts
        k, g = a.kind, a.args
        if a.nonneg:
            F.append(v >= 0)
        if k == "pi":
            F.append(v > z3.RealVal("3.14159265358"))
            F.append(v < z3.RealVal("3.14159265359"))
            return
        if self._level > self.depth:
            return
        if k in ("floor", "trunc"):
            x = self.real(g[0])
            if k == "floor":
                F.append(v <= x)
                F.append(x < v + 1)
            else:
                F.append(z3.If(x >= 0, z3.And(v <= x, x < v + 1), z3.And(v >= x, x > v - 1)))
        elif k == "abs":
            x = self.real(g[0])
            F.append(v == z3.If(x >= 0, x, -x))
        elif k == "sqrt":
            if not self.linear:
                x = self.real(g[0])
                F.append(z3.Implies(x >= 0, v * v == x))
        elif k in ("cos", "sin"):
            F.append(v <= 1)
            F.append(v >= -1)
            if not self.linear:
                o = T.atom("sin" if k == "cos" else "cos", g)
                ov = self.atom(o)
                if k == "cos":
                    F.append(v * v + ov * ov == 1)
        elif k == "arg":
            pi = self.atom(T._PI_ATOM)
            F.append(v <= pi)
            F.append(v > -pi)
        elif k == "ite":
            F.append(v == z3.If(self.bool(g[0]), self.real(g[1]), self.real(g[2])))
        elif k == "den":
            F.append(v == self.real(g[0]))
        elif k == "par":
            F.append(z3.Or(v == 1, v == -1))
        elif k == "exp":
            F.append(v > 0)
            x = self.real(g[0])
            F.append(z3.Implies(x <= 0, v <= 1))
            F.append(z3.Implies(x >= 0, v >= 1))
        elif k == "app":
            n = g[0]
            if n == "cnt":
                F.append(v <= self.real(g[2]))
            elif n == "sel":
                F.append(v < self.real(g[2]))
            elif n == "rank":
                pass
            elif n == "fn:tanh":
                F.append(v < 1)
                F.append(v > -1)
                x = self.real(g[1])
                F.append(z3.Implies(x >= 0, z3.And(v >= 0, v <= x)))
                F.append(z3.Implies(x <= 0, v <= 0))
            elif n.startswith("tab:"):
                from . import arrays
                tab = arrays._TABLES.get(n[4:])
                if tab is not None and tab.dtype.kind in "if" and not (tab != tab).any():
                    F.append(v <= z3.RealVal(str(T.to_frac(tab.max()))))
                    F.append(v >= z3.RealVal(str(T.to_frac(tab.min()))))
            f = AXIOMS.get(n)
            if f is not None:
                for b in f(*g[1:]):
                    F.append(self.bool(b))

    def bool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        k, a = b.k, b.a
        if k == "lt0":
            return self.real(a[0]) < 0
        if k == "le0":
            return self.real(a[0]) <= 0
        if k == "eq0":
            return self.real(a[0]) == 0
        if k == "not":
            return z3.Not(self.bool(a[0]))
        if k == "and":
            return z3.And(*[self.bool(x) for x in a])
        if k == "or":
            return z3.Or(*[self.bool(x) for x in a])
        c = self.consts.get(b)
        if c is None:
            c = self.consts[b] = z3.Bool(f"B!{len(self.consts)}")
        return c


def pair_facts(tr):
    """monotonicity of exp, and of tanh(x)/x and sin(x)/x, between the terms that occur"""
    groups = {}
    for a in list(tr.consts):
        if isinstance(a, T.Atom):
            if a.kind in ("exp", "sin"):
                groups.setdefault(a.kind, []).append((a, a.args[0]))
            elif a.kind == "app" and a.args[0] == "fn:tanh":
                groups.setdefault("tanh", []).append((a, a.args[1]))
    for kind, items in groups.items():
        if len(items) > 6:
            continue
        items = [(tr.consts[a], tr.real(x)) for a, x in items]
        pi = tr.atom(T._PI_ATOM) if kind == "sin" else None
        for va, x in items:
            if kind == "sin":
                tr.facts.append(z3.Implies(z3.And(x >= 0, x <= pi), z3.And(va >= 0, va <= x)))
        for i, (va, x) in enumerate(items):
            for j, (vb, y) in enumerate(items):
                if i == j:
                    continue
                if kind == "exp":
                    tr.facts.append(z3.Implies(x <= y, va <= vb))
                elif kind == "tanh":
                    tr.facts.append(z3.Implies(z3.And(0 < x, x <= y), z3.And(vb * x <= va * y, vb / y <= va / x)))
                else:
                    tr.facts.append(z3.Implies(z3.And(0 < x, x <= y, y <= pi), z3.And(vb * x <= va * y, vb / y <= va / x)))


def sort_facts(tr, xs):
    """numpy.argsort: a permutation of the indices that puts the values in non-decreasing order"""
    sorts = {}
    for x in xs:
        for a in T.atoms_of(x):
            if a.kind == "app" and a.args[0] == "argsort" and not T._atom_bvs(a):
                sorts.setdefault(a.args[1], set()).add(a)
    for key, items in sorts.items():
        n = key[1][0]
        if isinstance(key[2], tuple) or len(items) > 4:
            continue
        items = sorted(items, key=lambda a: a.id)
        at = {a: tr.atom(a) for a in items}
        pos = {a: tr.real(a.args[2]) for a in items}
        N = tr.real(n)
        val = {a: tr.real(T.instantiate(key[2], -1, T.pa(a))) for a in items}
        inside = {a: z3.And(pos[a] >= 0, pos[a] < N) for a in items}
        for a in items:
            tr.facts.append(z3.Implies(inside[a], at[a] < N))
            for b in items:
                if a is not b:
                    tr.facts.append(z3.Implies(z3.And(inside[a], inside[b], pos[a] <= pos[b]), val[a] <= val[b]))
                    tr.facts.append(z3.Implies(z3.And(inside[a], inside[b], at[a] == at[b]), pos[a] == pos[b]))


AXIOMS: dict = {}


def check(facts, goal, timeout=2000, linear=False, want_model=False):
    """'unsat' (facts imply goal), 'sat', or 'unknown'."""
    tr = Tr(linear=linear)
    zs = [tr.bool(f) for f in facts]
    g = tr.bool(goal)
    sort_facts(tr, list(facts) + [goal])
    if not linear:
        pair_facts(tr)
    s = z3.Solver()
    s.set("timeout", timeout)
    for z in zs:
        s.add(z)
    s.add(z3.Not(g))
    for f in tr.facts:
        s.add(f)
    t = time.time()
    r = str(s.check())
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    if want_model:
        return r, s, tr
    return r


def cvc5_check(smt2, timeout=5):
    """decide an SMT-LIB problem with the cvc5 binary"""
    import subprocess
    t = time.time()
    try:
        p = subprocess.run(["cvc5", f"--tlimit={int(timeout * 1000)}", "-"], input=smt2, text=True, capture_output=True,
                           timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    STATS["cvc5_calls"] += 1
    STATS["cvc5_time"] += time.time() - t
    return out
