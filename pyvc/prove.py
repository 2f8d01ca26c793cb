"""Obligations: named verification conditions, how they are discharged, and what happens when they are not.

  proved     the condition follows from the path facts: equal normal forms, or every case of a finite case split
             closes, or z3 (then cvc5) shows the negation unsatisfiable
  refuted    a valuation of the symbolic inputs satisfies every path fact and makes the two sides differ
             numerically, and (when the unit has a replay) the real function run on that valuation disagrees with
             the contract too
  undecided  everything else (unsupported construct, time limit, no proof and no counterexample)
"""
from __future__ import annotations

import cmath
import contextlib
import os
import re
import time
import traceback

import numpy as np

from . import arrays as A
from . import interp as I
from . import smt
from . import terms as T
from .arrays import SArr
from .interp import ENGINE, Cut, ProgExc, explore, using
from .numeric import EvalError, Valuation
from .objs import SName
from .slist import SList
from .terms import B, Cx, Poly, Unsupported

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


EVALUATED = {"median", "var", "std", "nunique", "unique", "argsort", "interp", "inv", "pinv", "lstsq", "lombscargle", "min", "max", "svd", "eigvals", "eigvalsh",
             "cholesky"}


class Outcome:
    def __init__(self, status, how="", detail="", val=None):
        self.status, self.how, self.detail, self.val = status, how, detail, val


def _ites(x):
    """conditions of ite atoms with no bound variables, innermost first; (cond, [atoms])"""
    d = {}
    for a in T.atoms_of(x):
        if a.kind == "ite" and all(v < 0 for v in T.free_bvs(a.args[0])):      # bound below 0: inside the mask of a selection
            d.setdefault(a.args[0], []).append(a)
    return d


def _abses(x):
    return [a for a in T.atoms_of(x) if a.kind == "abs" and not T._atom_bvs(a)]


def _csize(c):
    return len(T.atoms_of(c)), repr(c)


def replace_ite(x, cond, val):
    mp = {a: (a.args[1] if val else a.args[2]) for a in T.atoms_of(x) if a.kind == "ite" and a.args[0] == cond}
    return T.subst(x, mp)


def case_facts(c, v):
    """facts of the case c = v of a split: the known facts with that choice made; None if it cannot occur"""
    out = [c if v else T.not_(c)]
    for f in ENGINE.facts:
        if isinstance(f, B) and any(a.kind == "ite" and a.args[0] == c for a in T.atoms_of(f)):
            g = replace_ite(f, c, v)
            if g is False:
                return None
            if g is not True:
                out.append(g)
    return out


def pinned(d, facts):
    """An integer variable that the facts leave a single value (lo <= v <= lo, or v = e), as a substitution; None if there is none."""
    zeros, les = [], {}
    for f in facts:
        if isinstance(f, B) and f.k in ("le0", "eq0") and isinstance(f.a[0], Poly) and T.is_int(f.a[0]):
            p = f.a[0]
            if f.k == "eq0":
                zeros.append(p)
            else:
                if -p in les:
                    zeros.append(p)
                les[p] = True
    inside = None
    for p in zeros:
        for m, c in sorted(p.t.items(), key=lambda mc: str(mc[0]), reverse=True):
            if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].kind == "var":
                a = m[0][0]
                rest = (T.pa(a) - p) if c == 1 else (T.pa(a) + p)
                if a in set(T.atoms_of(rest)):
                    continue
                if inside is None:
                    inside = set(T.atoms_of(d))
                if a in inside:
                    return {a: rest}
    return None


def selranks(x):
    """sel[mask, rank[mask, i]] = i where the mask holds at i"""
    for _ in range(20):
        if isinstance(x, (bool, np.bool_, int, float, str)) or x is None:
            return x
        mp = {}
        for a in T.atoms_of(x):
            if a.kind == "app" and a.args[0] == "sel" and isinstance(a.args[3], Poly) and len(a.args[3].t) == 1:
                (m, c), = a.args[3].t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].args[0] == "rank" \
                        and m[0][0].args[1] == a.args[1] and m[0][0].args[2] == a.args[2]:
                    i = m[0][0].args[3]
                    b = T.subst(a.args[1], {T.the_atom(T.bv(-1)): i})
                    if b is True or (not isinstance(b, (bool, np.bool_)) and not T.free_bvs(b) and ENGINE.resolve(b) is True):
                        mp[a] = i
        if not mp:
            return x
        x = T.subst(x, mp)
    return x


def selection_facts(x):
    """the mask holds at sel[mask, n, k], for every k below the number of selected elements"""
    out = []
    for a in T.atoms_of(x):
        if a.kind != "app" or a.args[0] != "sel" or T._atom_bvs(a) - {-1}:
            continue
        mask, n, k = a.args[1:4]
        if not isinstance(mask, B) or any(v >= 0 for v in T.free_bvs(k)) or -1 in T.free_bvs(k):
            continue
        if ENGINE.resolve(T.cmp_("lt", k, T.lift(A.sel_count(mask, n)))) is not True:
            continue
        f = T.subst(mask, {T.the_atom(T.bv(-1)): T.pa(a)})
        if isinstance(f, B):
            out.extend(f.a if f.k == "and" else [f])
    return out


def range_ites(x, depth=0):
    """resolve, inside sums, the conditions decided by the range of the summation index"""
    if not isinstance(x, (Poly, Cx, B)) or depth > 4:
        return x
    mp = {}
    for a in T.atoms_of(x):
        if a.kind != "sum" or T._atom_bvs(a):
            continue
        n, body, lvl = a.args
        if not any(y.kind == "ite" and T.free_bvs(y.args[0]) for y in T.atoms_of(body)):
            continue
        i = T.fresh("r", "I", True)
        b = T.subst(body, {T.the_atom(T.bv(lvl)): i})
        rng = T.cmp_("lt", i, n)
        with using([] if isinstance(rng, bool) else [rng]):
            b2 = range_ites(b, depth + 1)
            for _ in range(20):
                ch = False
                for c in sorted(_ites(b2), key=_csize):
                    if T.free_bvs(c):
                        continue
                    r = ENGINE.resolve(c)
                    if r is not None:
                        b2 = replace_ite(b2, c, r)
                        ch = True
                        break
                if not ch:
                    break
        if b2 is not b and not (isinstance(b2, Poly) and b2.same(b)):
            mp[a] = T.sum_over(n, b2, T.the_atom(i))
    return T.subst(x, mp) if mp else x


def simplify(x):
    """resolve the ite conditions decided by the current facts"""
    x = range_ites(selranks(x))
    for _ in range(60):
        x = selranks(x)
        if isinstance(x, (bool, np.bool_, int, float, str)) or x is None:
            return x
        ch = False
        for c in sorted(_ites(x), key=_csize):
            r = ENGINE.resolve(c)
            if r is not None:
                x = replace_ite(x, c, r)
                ch = True
                break
        if not ch:
            return x
    return x


def clear_denominators(d):
    """d times a product of the (non-zero) denominators occurring in it, with no negative exponents left"""
    for _ in range(12):
        low = {}
        for m in d.t:
            for a, e in m:
                if e < 0:
                    low[a] = min(low.get(a, 0), e)
        if not low:
            dens = {a: a.args[0] for m in d.t for a, e in m if a.kind == "den"}
            if not dens:
                return d
            d = T.subst(d, dens)
            continue
        # one denominator at a time, expanded immediately
        a = min(low, key=lambda x: (len(T.atoms_of(T.pa(x))), x.id))
        k = -low[a]
        d = T.pmul(d, T.pa(a, k))
        if a.kind == "den":
            tot = T.ZERO
            base = a.args[0]
            for m, c in d.t.items():
                e = dict(m).get(a, 0)
                rest = Poly({tuple(x for x in m if x[0] is not a): c})
                tot = tot + (rest if e == 0 else T.pmul(rest, T.ppow_int(base, e) if e > 0 else T.pa(a, e)))
            d = tot
    return d


def _sizes(f):
    """the polynomials over integer atoms in a fact that compare a size with a large constant"""
    if not isinstance(f, T.B):
        return []
    if f.k in ("lt0", "le0", "eq0"):
        p = f.a[0]
        c = p.t.get((), 0)
        return [p] if abs(c) >= 40 and len(p.t) > 1 and T.is_int(p) else []
    if f.k in ("not", "and", "or"):
        return [p for g in f.a for p in _sizes(g)]
    return []


def _constants(x, acc, seen):
    if isinstance(x, T.Poly):
        if x in seen:
            return
        seen.add(x)
        for m, c in x.t.items():
            acc.add(abs(c))
            for a, _ in m:
                for g in a.args:
                    _constants(g, acc, seen)
    elif isinstance(x, T.Cx):
        _constants(x.re, acc, seen)
        _constants(x.im, acc, seen)
    elif isinstance(x, T.B):
        for g in x.a:
            _constants(g, acc, seen)
    elif isinstance(x, tuple):
        for g in x:
            _constants(g, acc, seen)
    elif isinstance(x, (int, float, T.Fraction)) and not isinstance(x, bool):
        acc.add(abs(x))


def scaled_sizes(facts, goal):
    """the facts with large constants that sizes are compared with replaced by small ones (in the same order), or None: only
    if those constants occur nowhere else, so that nothing but the threshold depends on them"""
    polys = list(dict.fromkeys(p for f in facts for p in _sizes(f)))
    cs = sorted({abs(p.t[()]) for p in polys})
    if not cs or len(cs) > 4:
        return None, None
    new, last, out = {}, None, 7
    for c in cs:
        if last is not None:
            out += 1 if c - last <= 1 else 5
        new[c], last = out, c
    used = set()
    for f in facts:
        if not _sizes(f):
            _constants(f, used, set())
    _constants(goal, used, set())
    if any(abs(u - c) <= 1 for u in used for c in cs):
        return None, None

    def go(f):
        if f.k in ("lt0", "le0", "eq0"):
            p = f.a[0]
            if p not in polys:
                return f
            c = p.t[()]
            return T.B(f.k, (p - T.lift(c) + T.lift(new[abs(c)] * (1 if c > 0 else -1)),))
        if f.k in ("not", "and", "or"):
            return T.B(f.k, tuple(go(g) for g in f.a))
        return f
    return [go(f) if isinstance(f, T.B) else f for f in facts], ", ".join(str(c) for c in cs)


class Prover:
    def __init__(self, deadline=None, leaf_timeout=4000, splits=400):
        self.deadline = deadline
        self.leaf_timeout = leaf_timeout
        self.splits = splits
        self.count = 0
        self.how = {}
        self.samplers = {}
        self.impl = {}
        self.tol = 1e-9
        self.exact = False      # normal forms only (cut points)

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time limit of the unit reached")

    # ---- scalar facts
    def zero(self, d, depth=0):
        self.tick()
        if isinstance(d, Cx):
            o = self.zero(d.re, depth)
            return o if o.status != PROVED else self.zero(d.im, depth)
        if isinstance(d, B):
            d = T.lift(d)
        d = selranks(d)
        if depth == 0:
            d = range_ites(d)
            if isinstance(d, Cx):
                return self.zero(d)
        if not d.is_const():
            mp = pinned(d, ENGINE.facts)
            if mp is not None:
                fs = [T.subst(f, mp) for f in ENGINE.facts]
                if False not in [f for f in fs if isinstance(f, bool)]:
                    old = list(ENGINE.facts)
                    ENGINE.set_facts([f for f in fs if not isinstance(f, bool)])
                    try:
                        return self.zero(T.subst(d, mp), depth)
                    finally:
                        ENGINE.set_facts(old)
        if d.is_const():
            if d.const() == 0:
                return Outcome(PROVED, "normal form")
            return self.leaf(T.eq_(d, T.ZERO), d)
        ites = _ites(d)
        if ites:
            c = min(ites, key=_csize)
            r = ENGINE.resolve(c)
            if r is None:
                fs = selection_facts(c)
                if fs:
                    with using(fs):
                        r = ENGINE.resolve(c)
            if r is not None:
                cf = case_facts(c, r)
                with using((cf or [])[1:]):
                    return self.zero(replace_ite(d, c, r), depth)
            self.count += 1
            if self.count > self.splits:
                return Outcome(UNDECIDED, detail="too many case splits")
            for v in (True, False):
                cf = case_facts(c, v)
                if cf is None:
                    continue
                with using(cf):
                    o = self.zero(replace_ite(d, c, v), depth + 1)
                if o.status != PROVED:
                    return o
            return Outcome(PROVED, "case split")
        for a in _abses(d):
            x = a.args[0]
            pos = ENGINE.resolve(T.cmp_("le", 0, x)) if isinstance(x, Poly) else None
            if pos is None and isinstance(x, Poly):
                self.count += 1
                if self.count > self.splits:
                    continue
                o = None
                for v in (True, False):
                    cnd = T.cmp_("le", 0, x) if v else T.cmp_("lt", x, 0)
                    with using([cnd]):
                        o = self.zero(T.subst(d, {a: x if v else -x}), depth + 1)
                    if o.status != PROVED:
                        return o
                return Outcome(PROVED, "case split")
            if pos is not None:
                return self.zero(T.subst(d, {a: x if pos else -x}), depth + 1)
        try:
            if any(e < 0 for m in d.t for _, e in m):
                dd = clear_denominators(d)
                if dd.is_const() and dd.const() == 0:
                    return Outcome(PROVED, "rational normal form")
        except Unsupported:
            pass
        return self.leaf(T.eq_(d, T.ZERO), d)

    def holds(self, b, depth=0):
        self.tick()
        b = selranks(b)
        if depth == 0:
            b = range_ites(b)
        if isinstance(b, (bool, np.bool_)):
            if b:
                return Outcome(PROVED, "normal form")
            return self.leaf(False, None)
        if ENGINE.resolve(b) is True:
            return Outcome(PROVED, "z3")
        ites = _ites(b)
        if ites:
            c = min(ites, key=_csize)
            r = ENGINE.resolve(c)
            if r is not None:
                cf = case_facts(c, r)
                with using((cf or [])[1:]):
                    return self.holds(replace_ite(b, c, r), depth)
            self.count += 1
            if self.count > self.splits:
                return Outcome(UNDECIDED, detail="too many case splits")
            for v in (True, False):
                cf = case_facts(c, v)
                if cf is None:
                    continue
                with using(cf):
                    o = self.holds(replace_ite(b, c, v), depth + 1)
                if o.status != PROVED:
                    return o
            return Outcome(PROVED, "case split")
        if b.k == "and":
            for x in b.a:
                o = self.holds(x, depth)
                if o.status != PROVED:
                    return o
            return Outcome(PROVED, "conjunction")
        return self.leaf(b, None)

    def leaf(self, goal, d):
        facts = list(ENGINE.facts)
        if goal is False or isinstance(goal, bool):
            goal = bool(goal)
        self.tick()
        if self.exact:
            return Outcome(UNDECIDED, detail="not an identity")
        ref = self.refute(facts, goal, d)
        if ref is not None:
            # infeasible path?  a sampled valuation satisfies all facts, so it is feasible
            return ref
        for lin in (True, False):
            r = smt.check(facts, goal, self.leaf_timeout, linear=lin)
            if r == "unsat":
                return Outcome(PROVED, "z3")
        r, s, tr = smt.check(facts, goal, 10, linear=False, want_model=True)
        try:
            out = smt.cvc5_check("(set-logic ALL)\n" + s.to_smt2(), 6)
        except Exception:
            out = "unknown"
        if out == "unsat":
            return Outcome(PROVED, "cvc5")
        if d is not None or goal is False:
            # conditions on large sizes (n > 5000): look for the same violation with the size read as a small one
            sf, what = scaled_sizes(facts, d if d is not None else goal)
            if sf is not None:
                ref = self.refute(sf, goal, d)
                if ref is not None:
                    ref.detail += f" (the sizes {what} in the conditions read as small ones)"
                    return ref
        return Outcome(UNDECIDED, detail=f"not proved: {str(d if d is not None else goal)[:int(os.environ.get("PYVC_W", 300))]}")

    def refute(self, facts, goal, d, tries=600):
        cand = self.search(facts, goal, d, tries, 60, 8)
        if cand is None:
            t0 = time.time()
            for bound in bounds(d if d is not None else goal)[:12]:
                if time.time() - t0 > 4:
                    break
                cand = self.search(facts, goal, d, 40, 6, 2, bound)
                if cand is not None:
                    break
        if cand is None:
            return None
        v, x = cand
        opaque = self.opaque_names(d if d is not None else goal, facts)
        det = (f"the two sides differ by {x:.6g}" if x is not None else f"{str(goal)[:160]} is false") \
            + f" for {self.describe(v)}"
        o = Outcome(REFUTED, detail=det, val=v)
        o.opaque = opaque
        return o

    def search(self, facts, goal, d, tries, wanted, seconds, bound=None):
        hits = 0
        t0 = time.time()
        for seed in range(tries):
            if time.time() - t0 > seconds or hits >= wanted:
                break
            v = Valuation(seed, samplers=self.samplers, impl=self.impl)
            v.deadline = t0 + seconds + 12
            try:
                if bound is not None:
                    v.put_on_bound(*bound)
                if not all(v.ev(f) for f in facts):
                    continue
                hits += 1
                if d is not None:
                    x = v.ev(d)
                    mag = self.magnitude(v, d)
                    bad = abs(x) > self.tol * mag or x != x
                else:
                    bad = not v.ev(goal)
                    x = None
            except (EvalError, OverflowError, ZeroDivisionError, ValueError, KeyError):
                continue
            if bad and x is not None and x == x and not self.stable(seed, d, x, bound):
                continue
            if bad:
                return v, x
        return None

    def stable(self, seed, d, x, bound=None):
        """the difference is not rounding noise: it stays what it is when the values are perturbed by some 1e-13 of themselves"""
        for k in (1, 2, 3):
            v = Valuation(seed, samplers=self.samplers, impl=self.impl, jitter=k)
            v.deadline = time.time() + 10
            try:
                if bound is not None:
                    v.put_on_bound(*bound)
                y = v.ev(d)
            except (EvalError, OverflowError, ZeroDivisionError, ValueError, KeyError):
                return True
            if not abs(y - x) <= 0.05 * abs(x):
                return False
        return True

    def magnitude(self, v, d):
        tot = 1e-300
        for m, c in d.t.items():
            x = float(c)
            try:
                for a, e in m:
                    x *= v._atom(a) ** e
            except Exception:
                return 1.0
            tot = max(tot, abs(x))
        return tot

    def describe(self, v):
        items = [f"{k[0]}{tuple(k[1]) if k[1] else ''}={w:.4g}" if isinstance(w, float) else f"{k[0]}{tuple(k[1]) if k[1] else ''}={w}"
                 for k, w in list(v.log.items())[:12]]
        return ", ".join(items)

    @staticmethod
    def opaque_names(x, facts):
        """applications of whole arrays that have no evaluation (their identity depends on the normal form)"""
        return sorted({a.args[0] for a in T.atoms_of(x) if a.kind == "app" and any(isinstance(g, tuple) for g in a.args)
                       and a.args[0].split(".")[0] not in EVALUATED and not a.args[0].startswith("searchsorted")})


def bounds(x):
    """(p, variable, coefficient): comparisons p < 0, p <= 0, p = 0 in a term that a real variable can be made to meet exactly"""
    out, seen = [], set()

    def walk(y):
        if isinstance(y, T.Poly):
            for a in T.poly_atoms(y) if hasattr(T, "poly_atoms") else {a for m in y.t for a, _ in m}:
                if a not in seen:
                    seen.add(a)
                    for g in a.args:
                        walk(g)
        elif isinstance(y, T.Cx):
            walk(y.re)
            walk(y.im)
        elif isinstance(y, T.B):
            if y in seen:
                return
            seen.add(y)
            if y.k in ("lt0", "le0", "eq0") and isinstance(y.a[0], T.Poly):
                p = y.a[0]
                for m, c in p.t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].kind in ("var", "app") and m[0][0].sort == "R" \
                            and (m[0][0].kind == "var" or not any(isinstance(g, tuple) or g in ("rint",) for g in m[0][0].args)):
                        out.append((p, m[0][0], c))
            for g in y.a:
                walk(g)
        elif isinstance(y, tuple):
            for g in y:
                walk(g)
    walk(x)
    out.sort(key=lambda b: b[1].kind != "var")
    return out


_LEAN = {}


def lean_theorems():
    """name -> 'ok' for the theorems Lean accepts without any axiom but its three standard ones"""
    if _LEAN:
        return _LEAN
    import subprocess
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", "Lemmas.lean")
    try:
        p = subprocess.run(["lean", f], capture_output=True, text=True, timeout=240)
        for line in p.stdout.replace("\n  ", " ").splitlines():
            m = re.match(r"'(\w+)' (depends on axioms: \[(.*)\]|does not depend on any axioms)", line)
            if m:
                bad = set(x.strip() for x in (m.group(3) or "").split(",") if x.strip()) - {"propext", "Classical.choice", "Quot.sound"}
                _LEAN[m.group(1)] = "ok" if p.returncode == 0 and not bad else f"axioms {sorted(bad)}, exit status {p.returncode}"
        if p.returncode:
            _LEAN.setdefault("error", p.stdout[-300:])
    except Exception as e:
        _LEAN["error"] = str(e)
    return _LEAN


# --------------------------------------------------------------------------- a property's suite
class Suite:
    def __init__(self, pid, tier="quick", seed=1, seconds=300):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.end = self.t0 + seconds
        self.obl = []
        self.undec = []
        self.functions = set()
        self.trusted = set()
        self.assumptions = []
        self.vacuity = {"sanity_obligations_rejected": 0, "paths": 0, "paths_with_witness": 0}
        self.fidelity = {"runs": 0, "mismatches": 0}
        self.timeouts = {"quick": 30, "thorough": 120}[tier]
        self.name = "?"
        self.known = None
        self.replay = None
        self.prover = None

    @contextlib.contextmanager
    def finding(self, key):
        self.known = key
        try:
            yield
        finally:
            self.known = None

    # ---- units
    @contextlib.contextmanager
    def unit(self, name, seconds=None, samplers=None, impl=None, replay=None):
        self.name = name
        self.replay = replay
        n0 = len(self.obl)
        nu = len(self.undec)
        self.searched = None
        dl = min(time.time() + (seconds or self.timeouts), self.end)
        self.prover = Prover(dl)
        self.prover.samplers = samplers or {}
        self.prover.impl = impl or {}
        ENGINE.set_facts([])
        ENGINE.stack.clear()
        ENGINE.deadline = dl
        ENGINE.nonzero = set()
        A.CTX.loop = None
        try:
            yield self      # past self.end the deadline stops the first step of the unit
            if len(self.obl) == n0:
                self.undec.append(f"{name}: no obligation was generated")
        except Unsupported as e:
            self.undec.append(f"{name}: outside the verifier's reach: {str(e)[:200]}")
        except ProgExc as e:
            self.undec.append(f"{name}: exception outside a path exploration: {e}"[:300])
        except Cut:
            self.undec.append(f"{name}: contradictory precondition")
        except RecursionError:
            self.undec.append(f"{name}: recursion limit")
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc(limit=-60)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undec.append(f"{name}: engine error {type(e).__name__}: {str(e)[:160]} at {tb.filename.split('/')[-1]}:{tb.lineno}")
            if __import__("os").environ.get("PYVC_DEBUG"):
                traceback.print_exc()
        finally:
            ENGINE.stack.clear()
            ENGINE.set_facts([])
            ENGINE.deadline = None
            if len(self.undec) > nu:
                r = self.replay_search()
                if isinstance(r, str):
                    self.obl.append({"name": f"{name}: concrete contract (verifier could not finish: {self.undec[-1][-120:]})",
                                     "status": REFUTED, "detail": r, "by": "replay", "replayed": True})

    def lemma(self, *names):
        """mathematical facts the contracts rest on: theorems of lean/Lemmas.lean, checked by Lean's kernel on every run"""
        ok = lean_theorems()
        for n in names:
            self.name = "lemma"
            self.replay = None
            st = ok.get(n)
            self.record(n, Outcome(PROVED if st == "ok" else UNDECIDED, "Lean", "" if st == "ok" else f"Lean did not accept it: {st}"))

    def done(self, unit):
        """the verifier got through this unit"""
        return not any(u.startswith(unit + ":") for u in self.undec)

    def record(self, name, o, facts=None):
        full = f"{self.name}: {name}"
        d = {"name": full, "status": o.status, "detail": o.detail, "by": o.how}
        if self.known:
            d["known"] = self.known      # key of the finding in known-findings.txt this obligation runs into
        if o.status == REFUTED:
            if self.replay is not None:
                try:
                    r = self.replay(o.val)
                except Exception as e:
                    r = ("error", f"{type(e).__name__}: {e}")
                # r: None -> the real function agrees with the contract on this valuation
                if r is None:
                    d["status"] = UNDECIDED
                    d["detail"] = "engine mismatch (the real function satisfies the contract on the valuation): " + o.detail
                elif isinstance(r, tuple) and r[0] == "error":
                    d["status"] = UNDECIDED
                    d["detail"] = f"the concrete contract could not be run ({r[1]}): " + o.detail
                elif isinstance(r, tuple) and getattr(o, "opaque", None):
                    d["status"] = UNDECIDED
                    d["detail"] = f"possibly refuted, but through opaque terms {','.join(o.opaque[:3])}, and no failing input found: " + o.detail
                elif isinstance(r, tuple):
                    d["detail"] += f" (replay {r})"
                else:
                    d["replayed"] = True
                    d["detail"] = str(r) + "; " + d["detail"]
            elif getattr(o, "opaque", None):
                d["status"] = UNDECIDED
                d["detail"] = "possibly refuted, but through opaque terms " + ",".join(o.opaque[:3]) + ": " + o.detail
        elif o.status == UNDECIDED and self.replay is not None:
            r = self.replay_search()
            if isinstance(r, str):
                d.update(status=REFUTED, replayed=True, detail=r + "; " + d["detail"])
        self.obl.append(d)
        return d["status"] == PROVED

    def replay_search(self):
        """the unit's concrete contract on its own sampled inputs (once per unit): a failing input or None"""
        if self.replay is None:
            return None
        if self.searched is None:
            try:
                self.searched = (self.replay(None),)
            except Exception as e:
                self.searched = (("error", f"{type(e).__name__}: {e}"),)
        return self.searched[0]

    def note(self, name, ok, detail="", how="structural"):
        """an obligation decided structurally"""
        return self.record(name, Outcome(PROVED if ok else UNDECIDED, how, detail))

    # ---- obligations
    def true(self, name, b):
        self.prover.count = 0
        return self.record(name, self._true(b))

    def _true(self, b):
        if isinstance(b, SArr):
            raise Unsupported("array where a truth value is expected")
        return self.prover.holds(b)

    def eq(self, name, a, b):
        self.prover.count = 0
        return self.record(name, self._eq(a, b))

    def integer(self, name, x):
        """x is a whole number"""
        x = simplify(T.lift(x))
        if not isinstance(x, Cx) and T.is_int(x):
            return self.record(name, Outcome(PROVED, "normal form"))
        hits = 0
        for seed in range(600):
            if hits >= 30:
                break
            v = Valuation(seed, samplers=self.prover.samplers, impl=self.prover.impl)
            try:
                if not all(v.ev(f) for f in ENGINE.facts):
                    continue
                y = v.ev(x)
                hits += 1
                if abs(y - round(y)) > 1e-6:
                    return self.record(name, Outcome(REFUTED, detail=f"value {y} is not whole for {self.prover.describe(v)}", val=v))
            except (EvalError, OverflowError, ZeroDivisionError, ValueError, KeyError):
                continue
        return self.record(name, Outcome(UNDECIDED, detail=f"not shown to be whole: {x}"[:300]))

    def _eq(self, a, b):
        if isinstance(a, SList):
            a = a.arr
        if isinstance(b, SList):
            b = b.arr
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return Outcome(REFUTED, detail=f"{len(a)} items instead of {len(b)}", val=None)
            for x, y in zip(a, b):
                o = self._eq(x, y)
                if o.status != PROVED:
                    return o
            return Outcome(PROVED, "normal form")
        if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)):
            if (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
                try:
                    same = a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))
                except TypeError:
                    same = a.shape == b.shape and bool(np.array_equal(a, b))
                return Outcome(PROVED if same else REFUTED, "evaluation", "" if same else f"{a} instead of {b}"[:300])
            a, b = A.as_sarr(a), A.as_sarr(b)
            return self._eq_arr(a, b)
        if isinstance(a, SName) or isinstance(b, SName):
            r = a == b
            return self.prover.holds(r)
        la, lb = T.lift_or_none(a), T.lift_or_none(b)
        if isinstance(a, B) or isinstance(b, B) or isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
            return self.prover.holds(T.or_(T.and_(a, b), T.and_(T.not_(a), T.not_(b))))
        if la is None or lb is None:
            try:
                same = bool(a == b)
            except Exception:
                same = a is b
            return Outcome(PROVED if same else REFUTED, "evaluation", "" if same else f"{a!r} instead of {b!r}"[:300])
        if la is T.NAN or lb is T.NAN:
            return Outcome(PROVED if la is lb else REFUTED, "evaluation", "" if la is lb else f"{a!r} instead of {b!r}"[:200])
        return self.prover.zero(la - lb)

    def _eq_arr(self, a, b):
        if a.ndim != b.ndim:
            return Outcome(REFUTED, detail=f"{a.ndim} dimensions instead of {b.ndim}", val=None)
        for m, n in zip(a.shape, b.shape):
            if not A.same_dim(m, n):
                o = self.prover.zero(T.lift(m) - T.lift(n))
                if o.status != PROVED:
                    o.detail = f"dimension {m} instead of {n}: {o.detail}"
                    return o
        small = 1
        for m in b.shape:
            small = small * m if isinstance(m, int) else 10 ** 9
        if small <= 64:
            import itertools
            for idx in itertools.product(*[range(m) for m in b.shape]):
                o = self._eq(A.elem(a, idx), A.elem(b, idx))
                if o.status != PROVED:
                    o.detail = f"element {idx}: {o.detail}"
                    return o
            return Outcome(PROVED, "normal form")
        idx = []
        facts = []
        for m in b.shape:
            i = T.fresh("k", "I", True)
            facts.append(T.cmp_("lt", i, m))
            idx.append(i)
        facts = [f for f in facts if not isinstance(f, bool)]
        with using(facts):
            o = self._eq(A.elem(a, tuple(idx)), A.elem(b, tuple(idx)))
        if o.status != PROVED:
            o.detail = "generic element: " + o.detail
        elif o.how == "normal form":
            o.how = "normal form (generic index)"
        return o

    # ---- paths
    def paths(self, fn, base=None):
        """explore fn; every path with its facts; keeps the vacuity statistics"""
        out = explore(fn, base)
        self.vacuity["paths"] += len(out)
        if not out:
            self.undec.append(f"{self.name}: no feasible path")
        for facts, r in out:
            if self.feasible(list(base or []) + list(facts)):
                self.vacuity["paths_with_witness"] += 1
        return out

    def feasible(self, facts):
        if not facts:
            return True
        return smt.check(facts, False, 500) == "sat"

    def sanity(self):
        """an obligation that must fail: contradictory facts would let it pass"""
        o = Prover(time.time() + 5).holds(T.eq_(T.var("sanity"), T.pconst(1)))
        if o.status == PROVED:
            self.undec.append(f"{self.name}: VACUOUS: the sanity obligation was proved")
            self.obl = [x for x in self.obl if not x["name"].startswith(self.name + ":")]
        else:
            self.vacuity["sanity_obligations_rejected"] += 1

    def used(self, interp):
        self.functions |= set(interp.used)
        self.trusted |= set(interp.trusted) | {"contract of " + c for c in interp.used_contracts}

    def result(self):
        by = {}
        for o in self.obl:
            if o["status"] == PROVED:
                by[o["by"] or "?"] = by.get(o["by"] or "?", 0) + 1
        return {"obligations": self.obl, "undecided_units": self.undec, "functions": sorted(self.functions),
                "trusted": sorted(self.trusted), "assumptions": list(dict.fromkeys(self.assumptions)),
                "backends": by, "solver_seconds": round(smt.STATS["z3_time"] + smt.STATS["cvc5_time"], 2),
                "solver": dict(smt.STATS), "vacuity": self.vacuity, "fidelity": self.fidelity,
                "seconds": round(time.time() - self.t0, 2)}
