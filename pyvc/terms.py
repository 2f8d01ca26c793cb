"""Scalar term language of the verifier: exact rational Laurent polynomials over hash-consed atoms.

Every real (or integer) scalar the verified code computes is a `Poly`; complex scalars are pairs (`Cx`);
truth values that are not decided are `B`.  Arithmetic is *mathematical* (exact rationals; a float literal
denotes the decimal number its shortest repr spells; np.pi is the symbol PI).
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for: the unit is undecided, never 'violated'."""


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("kind", "args", "sort", "nonneg", "id", "_bv", "__weakref__")

    def __repr__(self):
        return _atom_str(self)

    def __lt__(self, o):
        return self.id < o.id


_ATOMS: dict = {}


def atom(kind, args, sort="R", nonneg=False):
    key = (kind, args, sort)
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.sort, a.nonneg = kind, args, sort, nonneg
        a.id = len(_ATOMS)
        a._bv = None
        _ATOMS[key] = a
    elif nonneg and not a.nonneg:
        a.nonneg = True
    return a


def _atom_str(a):
    k, g = a.kind, a.args
    if k == "var":
        return g[0]
    if k == "pi":
        return "pi"
    if k == "nan":
        return "NaN"
    if k == "bv":
        return f"#{g[0]}"
    if k == "app":
        return f"{g[0]}[{','.join(map(str, g[1:]))}]"
    if k == "den":
        return f"({g[0]})"
    if k == "sum":
        return f"SUM(#{g[2]}<{g[0]}: {g[1]})"
    return f"{k}({', '.join(map(str, g))})"


# --------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "_h", "_bvs")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._bvs = None

    # -- structure
    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def same(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), Fraction(0))

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: [(a.id, e) for a, e in kv[0]]):
            s = "*".join(f"{a}" if e == 1 else f"{a}^{e}" for a, e in m)
            if not m:
                out.append(_fr(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append(f"{_fr(c)}*{s}")
        return " + ".join(out)

    # -- equality used by dict keys: structural.  Python-level == on terms goes through `eq`.
    def __eq__(self, o):
        if isinstance(o, Poly):
            return self.t == o.t
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
            return self.is_const() and self.const() == to_frac(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    # -- arithmetic
    def __add__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, ZERO) + o
        return padd(self, o)

    __radd__ = __add__

    def __neg__(self):
        if self is NAN:
            return NAN
        return Poly({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, ZERO) - o
        return padd(self, -o)

    def __rsub__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(pmul(self, o.re), pmul(self, o.im))
        return pmul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Cx):
            return Cx(self, ZERO) / o
        return pmul(self, pinv(o))

    def __rtruediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, e):
        return ppow(self, e)

    def __rpow__(self, b):
        return ppow(lift(b), self)

    def __mod__(self, o):
        return pmod(self, lift(o))

    def __rmod__(self, o):
        return pmod(lift(o), self)

    def __floordiv__(self, o):
        return floor_(self / lift(o))

    def __rfloordiv__(self, o):
        return floor_(lift(o) / self)

    def __abs__(self):
        return abs_(self)

    # comparisons
    def __lt__(self, o):
        return cmp_("lt", self, o)

    def __le__(self, o):
        return cmp_("le", self, o)

    def __gt__(self, o):
        return cmp_("lt", o, self)

    def __ge__(self, o):
        return cmp_("le", o, self)

    def __bool__(self):
        if self.is_const():
            return bool(self.const())
        return HOOK.decide(not_(eq_(self, ZERO)))

    def __float__(self):
        v = closed_value(self)
        if v is None:
            raise Unsupported(f"float() of symbolic value {self}")
        return float(v)

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported(f"int() of symbolic value {self}")

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported(f"symbolic value {self} used as a concrete index")

    def __round__(self, n=None):
        return HOOK.round_(self)

    # numpy scalar API
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def conj(self):
        return self

    conjugate = conj

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def astype(self, dt, **kw):
        return HOOK.astype(self, dt)


def _fr(c):
    if c.denominator == 1:
        return str(c.numerator)
    f = float(c)
    return repr(f) if Fraction(repr(f)) == c else f"{c.numerator}/{c.denominator}"


def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


ZERO = pconst(0)
ONE = pconst(1)
_PI_ATOM = atom("pi", (), nonneg=True)
PI = Poly({((_PI_ATOM, 1),): Fraction(1)})
_NAN_ATOM = atom("nan", ())
NAN = Poly({((_NAN_ATOM, 1),): Fraction(1)})
_MONO1 = Fraction(1)


def pa(a, e=1):
    return Poly({((a, e),): _MONO1})


def var(name, sort="R", nonneg=False):
    return pa(atom("var", (name,), sort, nonneg))


def app(fname, *args, sort="R", nonneg=False):
    return pa(atom("app", (fname,) + tuple(args), sort, nonneg))


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


_FLOATS = {}


def float_term(x):
    """the exact number a double stands for: a simple rational multiple of pi or 1/pi when it is the double nearest
    to one, or a simple fraction (and is no short decimal itself), else the decimal its shortest repr spells"""
    r = _FLOATS.get(x)
    if r is None:
        r = None
        if len(repr(abs(x)).replace(".", "").strip("0").split("e")[0]) >= 14:
            for e, q in ((0, x), (1, x / math.pi), (-1, x * math.pi)):
                f = Fraction(q).limit_denominator(2000)
                if f and abs(f.numerator) <= 10 ** 6 and abs(float(f) - q) <= 4e-16 * abs(q):
                    r = Poly({((_PI_ATOM, e),): f}) if e else pconst(f)
                    break
        if r is None:
            r = pconst(to_frac(x))
        _FLOATS[x] = r
    return r


def lift_or_none(x):
    if isinstance(x, (Poly, Cx)):
        return x
    if isinstance(x, B):
        return ite(x, ONE, ZERO)
    if isinstance(x, (bool, int, Fraction, np.integer, np.bool_)):
        return pconst(to_frac(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return app("inf") if x > 0 else -app("inf")
        return float_term(x)
    if isinstance(x, (complex, np.complexfloating)):
        return Cx(lift_or_none(x.real), lift_or_none(x.imag))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift_or_none(x.item())
    return None


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise Unsupported(f"cannot use {type(x).__name__} value {x!r} as a number")
    return r


def is_sym(x):
    return isinstance(x, (Poly, Cx, B))


def padd(a, b):
    if a is NAN or b is NAN:
        return NAN
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m)
        if s is None:
            t[m] = c
        else:
            s = s + c
            if s:
                t[m] = s
            else:
                del t[m]
    return Poly(t)


def _mono_mul(m1, m2):
    """Merge two sorted monomials. Returns (mono, fix) with fix True when some atom needs reduction."""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    i = j = 0
    out = []
    fix = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            s = e + f
            if s:
                out.append((a, s))
                k = a.kind
                if (k in ("sqrt", "abs", "sin", "par") and (s >= 2 or s <= -2)) or (k == "den" and s > 0):
                    fix = True
            i += 1
            j += 1
        elif a.id < b.id:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), fix


MAXTERMS = 60000


def pmul(a, b):
    if a is NAN or b is NAN:
        return NAN
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXTERMS:
        raise Unsupported(f"polynomial blow-up ({len(a.t)} x {len(b.t)} terms)")
    t = {}
    extra = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, fix = _mono_mul(m1, m2)
            c = c1 * c2
            if fix:
                extra.append((m, c))
                continue
            s = t.get(m)
            if s is None:
                t[m] = c
            else:
                s = s + c
                if s:
                    t[m] = s
                else:
                    del t[m]
    r = Poly(t)
    for m, c in extra:
        r = padd(r, _reduce_mono(m, c))
    return r


def _reduce_mono(m, c):
    r = Poly({(): c})
    for a, e in m:
        r = pmul(r, atom_pow(a, e))
    return r


def atom_pow(a, e):
    """a**e for integer e, with the algebraic relations of the atom applied."""
    if e == 0:
        return ONE
    k = a.kind
    if k == "sqrt":
        q, r = divmod(e, 2)  # a^e = base^q * a^r, r in {0,1}
        if r and q < 0:      # keep a^-1 rather than base^-1 * a
            q, r = q + 1, -1
        out = ppow_int(a.args[0], q) if q else ONE
        return pmul_mono(out, a, r) if r else out
    if k == "abs":
        q, r = divmod(e, 2)
        if r and q < 0:
            q, r = q + 1, -1
        out = ppow_int(a.args[0], 2 * q) if q else ONE
        return pmul_mono(out, a, r) if r else out
    if k == "par":
        return pa(a) if e % 2 else ONE
    if k == "sin" and e >= 2:
        q, r = divmod(e, 2)
        c = pa(atom("cos", a.args))
        out = ppow_int(ONE - pmul(c, c), q)
        return pmul(out, pa(a)) if r else out
    if k == "den" and e > 0:
        return ppow_int(a.args[0], e)
    return pa(a, e)


def pmul_mono(p, a, e):
    return pmul(p, pa(a, e)) if p is not ONE else pa(a, e)


def ppow_int(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow_int(pinv(p), -n)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(a.kind not in ("sqrt", "abs", "sin", "par", "den", "nan") for a, e in m):
            return Poly({tuple((a, e * n) for a, e in m): c ** n})
    r = None
    b = p
    while n:
        if n & 1:
            r = b if r is None else pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


def content(p):
    """p = c * m * q with c>0 rational, m monomial, q primitive with no common monomial."""
    from math import gcd

    num = 0
    den = 1
    for c in p.t.values():
        num = gcd(num, c.numerator)
        den = den * c.denominator // gcd(den, c.denominator)
    c = Fraction(num, den)
    exps = None
    for m in p.t:
        d = dict(m)
        if exps is None:
            exps = d
            continue
        for a, e in d.items():
            if a not in exps:
                exps[a] = min(0, e)
        for a in exps:
            exps[a] = min(exps[a], d.get(a, 0))
    exps = {a: e for a, e in (exps or {}).items() if e}
    m = tuple(sorted(exps.items(), key=lambda ae: ae[0].id))
    inv = tuple((a, -e) for a, e in m)
    t = {}
    for mm, cc in p.t.items():
        nm, fix = _mono_mul(mm, inv)
        t[nm] = cc / c
    return c, m, renorm(Poly(t))


def renorm(p):
    """apply the algebraic relations of the atoms (needed after multiplying by a bare monomial)"""
    for m in p.t:
        for a, e in m:
            k = a.kind
            if (k in ("sqrt", "abs", "sin", "par") and (e >= 2 or e <= -2) and not (k == "sin" and e < 0)) or (k == "den" and e > 0):
                r = ZERO
                for mm, c in p.t.items():
                    r = padd(r, _reduce_mono(mm, c))
                return r
    return p


def lead_sign(p):
    if not p.t:
        return 1
    m = min(p.t, key=lambda mm: [(a.id, -e) for a, e in mm] or [(-1, 0)])
    return 1 if p.t[m] > 0 else -1


def pinv(p):
    if p is NAN:
        return NAN
    if not p.t:
        HOOK.div_zero()
        return app("inf")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({(): 1 / c})
        for a, e in m:
            r = pmul(r, atom_pow(a, -e))
        return r
    c, m, q = content(p)
    if lead_sign(q) < 0:
        q, c = -q, -c
    r = pmul(Poly({(): 1 / c}), pa(atom("den", (q,), nonneg=nonneg(q)), -1))
    for a, e in m:
        r = pmul(r, atom_pow(a, -e))
    return r


def nonneg(p):
    """Cheap syntactic sufficient condition for p >= 0."""
    if p is NAN:
        return False
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not a.nonneg:
                return False
    return True


def is_int(p):
    if p is NAN:
        return False
    return all(c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m) for m, c in p.t.items())


# --------------------------------------------------------------------------- elementary functions
def _sqrt_frac(c):
    n, d = c.numerator, c.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def sqrt_(p):
    if isinstance(p, Cx):
        raise Unsupported("complex sqrt")
    if p is NAN:
        return NAN
    if not p.t:
        return ZERO
    c, m, q = content(p)
    out = ONE
    inner = []
    for a, e in m:
        h, r = divmod(e, 2)
        if h:
            base = pa(a, 1)
            ab = base if a.nonneg else abs_(base)
            out = pmul(out, ppow_int(ab, h))
        if r:
            inner.append((a, 1))
    s = _sqrt_frac(c)
    if s is not None:
        out = pmul(out, pconst(s))
        c = Fraction(1)
    elif q.is_const():
        # sqrt(n/d) = sqrt(n*d)/d with the largest square factor (up to 1e6) removed
        nd = c.numerator * c.denominator
        out = pmul(out, pconst(Fraction(1, c.denominator)))
        k = 1
        f = 2
        while f * f <= nd and f < 2000:
            while nd % (f * f) == 0:
                nd //= f * f
                k *= f
            f += 1
        out = pmul(out, pconst(k))
        c = Fraction(nd)
        if c != 1:
            out = pmul(out, pa(atom("sqrt", (pconst(c),), nonneg=True)))
            c = Fraction(1)
    else:
        out = pmul(out, sqrt_(pconst(c)))
        c = Fraction(1)
    core = pmul(q, Poly({tuple(inner): Fraction(1)})) if inner else q
    if core.is_const() and core.const() == 1:
        return out
    if core.is_const() and core.const() < 0:
        return NAN
    if LAZY_SQRT:
        return pmul(out, pa(atom("app", ("fn:sqrt", core), nonneg=True)))   # its powers are not expanded
    return pmul(out, pa(atom("sqrt", (core,), nonneg=True)))


LAZY_SQRT = False


def abs_(p):
    if isinstance(p, Cx):
        return sqrt_(p.re * p.re + p.im * p.im)
    if p is NAN:
        return NAN
    if p.is_const():
        return pconst(abs(p.const()))
    if nonneg(p):
        return p
    if nonneg(-p):
        return -p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = pconst(abs(c))
        for a, e in m:
            if a.nonneg or e % 2 == 0:
                out = pmul(out, pa(a, e))
            elif a.kind == "par":
                pass
            else:
                b = pa(atom("abs", (pa(a),), nonneg=True), 1 if e > 0 else -1)
                out = pmul(out, ppow_int(b, abs(e)))
        return out
    sg = HOOK.sign_hint(p)
    if sg == 1:
        return p
    if sg == -1:
        return -p
    if lead_sign(p) < 0:
        p = -p
    return pa(atom("abs", (p,), nonneg=True))


def floor_(p):
    if p is NAN:
        return NAN
    if is_int(p):
        return p
    # pull out the integer-valued part
    ip, rest = {}, {}
    for m, c in p.t.items():
        if all(a.sort == "I" and e > 0 for a, e in m):
            k = c.numerator // c.denominator
            if k:
                ip[m] = Fraction(k)
            if c - k:
                rest[m] = c - k
        else:
            rest[m] = c
    r = Poly(rest)
    if r.is_const():
        return padd(Poly(ip), pconst(math.floor(r.const())))
    return padd(Poly(ip), pa(atom("floor", (r,), "I")))


def trunc_(p):
    if p is NAN:
        return NAN
    if is_int(p):
        return p
    if p.is_const():
        return pconst(math.trunc(p.const()))
    return pa(atom("trunc", (p,), "I"))


def pmod(x, m):
    if x is NAN or m is NAN:
        return NAN
    return x - m * floor_(x / m)


def fmod_(x, m):
    if x is NAN or m is NAN:
        return NAN
    return x - m * trunc_(x / m)


def ppow(b, e):
    if isinstance(b, B):
        b = lift(b)
    e = lift(e)
    if isinstance(e, Cx):
        raise Unsupported("complex exponent")
    if b is NAN or e is NAN:
        return NAN
    if e.is_const():
        c = e.const()
        if c.denominator == 1:
            n = int(c)
            if isinstance(b, Cx):
                return cpow_int(b, n)
            return ppow_int(b, n)
        if c.denominator == 2:
            return ppow_int(sqrt_(lift(b)), c.numerator)
    if isinstance(b, Cx):
        raise Unsupported("complex base with non-integer exponent")
    if b.is_const() and b.const() == 1:
        return ONE
    return pa(atom("pow", (b, e), nonneg=nonneg(b)))


def exp_(x):
    x = lift(x)
    if isinstance(x, Cx):
        c, s = cis(x.im)
        if x.re.t:
            r = exp_(x.re)
            return Cx(r * c, r * s)
        return Cx(c, s)
    if not x.t:
        return ONE
    return pa(atom("exp", (x,), nonneg=True))


_CIS: dict = {}


def cis(th):
    """(cos th, sin th) in canonical form."""
    if th is NAN:
        return NAN, NAN
    r = _CIS.get(th)
    if r is None:
        r = _CIS[th] = _cis(th)
    return r


def _cis(th):
    rest = {}
    par = ZERO
    rots = []
    quarter = Fraction(0)
    for m, c in th.t.items():
        d = dict(m)
        if d.get(_PI_ATOM) == 1:
            others = [(a, e) for a, e in m if a is not _PI_ATOM]
            if all(a.sort == "I" and e > 0 for a, e in others):
                if others:
                    k = c.numerator // c.denominator
                    fr = c - k  # in [0,1)
                    if k % 2:
                        par = par + Poly({tuple(others): Fraction(1)})
                    if fr:
                        rest[m] = fr
                    continue
                quarter = c % 2
                continue
        if len(m) == 1 and m[0][0].kind == "arg" and m[0][1] == 1:
            n = c.numerator // c.denominator if c > 0 else -((-c.numerator) // c.denominator)
            if n:
                rots.append((m[0][0], n))
            if c - n:
                rest[m] = c - n
            continue
        rest[m] = c
    q4 = quarter * 2
    n4 = q4.numerator // q4.denominator
    fr = quarter - Fraction(n4, 2)
    if fr:
        rest[((_PI_ATOM, 1),)] = fr
    p = Poly(rest)
    if not p.t:
        c, s = ONE, ZERO
    else:
        sg = lead_sign(p)
        q = p if sg > 0 else -p
        only = q.t.get(((_PI_ATOM, 1),)) if len(q.t) == 1 else None
        if only is not None and Fraction(1, 4) < only < Fraction(1, 2):       # one name for the sine of a constant angle
            q = pconst(Fraction(1, 2) - only) * pa(_PI_ATOM)
            c, s = pa(atom("sin", (q,))), pa(atom("cos", (q,))) * sg
        else:
            c, s = pa(atom("cos", (q,))), pa(atom("sin", (q,))) * sg
    out = Cx(c, s)
    if n4 % 4:
        out = out * [None, Cx(ZERO, ONE), Cx(-ONE, ZERO), Cx(ZERO, -ONE)][n4 % 4]
    if par.t:
        f = parity(par)
        out = Cx(out.re * f, out.im * f)
    for a, n in rots:
        x, y = a.args
        r = sqrt_(x * x + y * y)
        HOOK.assume_nonzero(x * x + y * y)
        u = Cx(x / r, y / r)
        if n < 0:
            u, n = u.conj(), -n
        out = out * cpow_int(u, n)
    return out.re, out.im


def parity(k):
    """(-1)**k for an integer-valued polynomial k"""
    out = ONE
    for m, c in k.t.items():
        if c.numerator % 2 == 0:
            continue
        if not m:
            out = -out
        else:
            # parity of a monomial: exponents are irrelevant mod 2
            mm = tuple((a, 1) for a, e in m)
            out = out * pa(atom("par", (Poly({mm: Fraction(1)}),)))
    return out


def arg_(z):
    """numpy.angle: atan2(im, re) in (-pi, pi]"""
    z = lift(z)
    if isinstance(z, Poly):
        z = Cx(z, ZERO)
    x, y = z.re, z.im
    if x is NAN or y is NAN:
        return NAN
    if not y.t:
        if not x.t or nonneg(x):
            return ZERO
        if nonneg(-x):
            return PI
    if not x.t and y.is_const():
        return PI / 2 if y.const() > 0 else -PI / 2
    # normalise a positive common factor away
    if x.t and y.t:
        both = {}
        cx, mx, qx = content(x)
        cy, my, qy = content(y)
        dx, dy = dict(mx), dict(my)
        common = {a: min(e, dy[a]) if e > 0 else max(e, dy[a]) for a, e in dx.items()
                  if a in dy and (e > 0) == (dy[a] > 0)}
        common = {a: (e if a.nonneg else e - e % 2) for a, e in common.items()}
        mono = tuple(sorted(((a, -e) for a, e in common.items() if e), key=lambda t: t[0].id))
        from math import gcd
        c = Fraction(gcd(cx.numerator * cy.denominator, cy.numerator * cx.denominator), cx.denominator * cy.denominator)
        f = Poly({mono: 1 / c})
        x, y = renorm(x * f), renorm(y * f)
    else:
        w = x if x.t else y
        c, m, q = content(w)
        mono = tuple((a, -(e if a.nonneg else e - e % 2)) for a, e in m)
        mono = tuple((a, e) for a, e in mono if e)
        f = Poly({mono: 1 / c})
        x, y = renorm(x * f), renorm(y * f)
    return pa(atom("arg", (x, y)))


def fun1(name):
    def f(x):
        x = lift(x)
        if x is NAN:
            return NAN
        return pa(atom("app", ("fn:" + name, x)))
    return f


def min_(a, b):
    a, b = lift(a), lift(b)
    c = cmp_("le", a, b)
    if isinstance(c, bool):
        return a if c else b
    if cmp_("le", b, a) is True:
        return b
    return ite(c, a, b)


def max_(a, b):
    a, b = lift(a), lift(b)
    c = cmp_("le", a, b)
    if isinstance(c, bool):
        return b if c else a
    if cmp_("le", b, a) is True:
        return a
    return ite(c, b, a)


# --------------------------------------------------------------------------- complex
class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __hash__(self):
        return hash((self.re, self.im))

    def __eq__(self, o):
        if isinstance(o, Cx):
            return self.re == o.re and self.im == o.im
        return NotImplemented

    def __repr__(self):
        return f"({self.re}) + i*({self.im})"

    @staticmethod
    def of(o):
        o = lift_or_none(o)
        if o is None:
            return None
        return o if isinstance(o, Cx) else Cx(o, ZERO)

    def __add__(self, o):
        o = Cx.of(o)
        return NotImplemented if o is None else Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = Cx.of(o)
        return NotImplemented if o is None else Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = Cx.of(o)
        return NotImplemented if o is None else Cx(o.re - self.re, o.im - self.im)

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Poly):
            return Cx(self.re * o, self.im * o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Poly):
            return Cx(self.re / o, self.im / o)
        d = o.re * o.re + o.im * o.im
        n = self * o.conj()
        return Cx(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return Cx.of(o) / self

    def __pow__(self, e):
        return ppow(self, e)

    def __abs__(self):
        return abs_(self)

    def conj(self):
        return Cx(self.re, -self.im)

    conjugate = conj

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self

    def __bool__(self):
        return HOOK.decide(or_(not_(eq_(self.re, ZERO)), not_(eq_(self.im, ZERO))))


def cpow_int(z, n):
    if n < 0:
        return Cx(ONE, ZERO) / cpow_int(z, -n)
    r = Cx(ONE, ZERO)
    for _ in range(n):
        r = r * z
    return r


def re_(x):
    return x.re if isinstance(x, Cx) else x


def im_(x):
    return x.im if isinstance(x, Cx) else ZERO


# --------------------------------------------------------------------------- booleans
class B:
    __slots__ = ("k", "a", "_h")

    def __init__(self, k, a):
        self.k, self.a = k, a
        self._h = hash((k, a))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, B) and self.k == o.k and self.a == o.a

    def __repr__(self):
        k, a = self.k, self.a
        if k == "lt0":
            return f"({a[0]} < 0)"
        if k == "le0":
            return f"({a[0]} <= 0)"
        if k == "eq0":
            return f"({a[0]} == 0)"
        if k == "not":
            return f"!{a[0]}"
        if k == "and":
            return "(" + " & ".join(map(str, a)) + ")"
        if k == "or":
            return "(" + " | ".join(map(str, a)) + ")"
        return f"{a[0]}({','.join(map(str, a[1:]))})"

    def __bool__(self):
        return HOOK.decide(self)

    def __invert__(self):
        return not_(self)

    def __and__(self, o):
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, o)

    __ror__ = __or__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return lift(o) - lift(self)

    def __truediv__(self, o):
        return lift(self) / o

    def any(self):
        return self

    def all(self):
        return self

    def astype(self, dt, **kw):
        return HOOK.astype(self, dt)

    shape = ()
    ndim = 0


def bapp(name, *args):
    if HOOK.false_preds and name in HOOK.false_preds:
        return False
    if HOOK.true_preds and name in HOOK.true_preds:
        return True
    return B("app", (name,) + tuple(args))


def cmp_(op, a, b):
    if hasattr(a, "_sarr") or hasattr(b, "_sarr"):
        return NotImplemented
    a, b = lift_or_none(a), lift_or_none(b)
    if a is None or b is None:
        return NotImplemented
    if isinstance(a, Cx) or isinstance(b, Cx):
        raise Unsupported("ordering of complex values")
    if a is NAN or b is NAN:
        return False
    if _inf_sign(a) or _inf_sign(b):
        r = _cmp_inf(op, a, b)
        if r is not None:
            return r
    if op in ("gt", "ge"):
        return cmp0("lt" if op == "gt" else "le", b - a)
    assert op in ("lt", "le"), op
    return cmp0(op, a - b)


def _scale_pos(p):
    c, m, q = content(p)
    # drop the (positive) rational content and strictly positive monomial factors are kept
    mm = Poly({m: Fraction(1)})
    return pmul(q, mm) if m else q


UPPER = {}        # name of an uninterpreted function -> upper bound of its value (an integer term), or None


def _at_upper(d):
    """d with its bounded terms of positive coefficient replaced by their upper bounds; None when there are none"""
    out, hit = ZERO, False
    for m, c in d.t.items():
        if len(m) == 1 and m[0][1] == 1 and c > 0 and m[0][0].kind == "app":
            a = m[0][0]
            while a.kind == "app" and a.args[0] == "rint" and len(a.args[1].t) == 1:      # rounding keeps integer bounds
                (m2, c2), = a.args[1].t.items()
                if c2 != 1 or len(m2) != 1 or m2[0][1] != 1:
                    break
                a = m2[0][0]
            u = UPPER[a.args[0]](a.args) if a.kind == "app" and a.args[0] in UPPER else None
            if u is not None:
                out, hit = out + pconst(c) * u, True
                continue
        out = out + Poly({m: c})
    return out if hit else None


def cmp0(op, d):
    if d.is_const():
        c = d.const()
        return c < 0 if op == "lt" else c <= 0
    d = _scale_pos(d)
    if op == "lt" and nonneg(d):
        return False
    if op == "le" and nonneg(-d):
        return True
    if op == "lt" and is_int(d):
        return cmp0("le", d + 1)
    if UPPER:
        e = _at_upper(d)
        if e is not None and nonneg(-e):
            return True if op == "le" or nonneg(-e - 1) else B("lt0", (d,))
    return B("lt0" if op == "lt" else "le0", (d,))


def eq_(a, b):
    a, b = lift(a), lift(b)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return and_(eq_(a.re, b.re), eq_(a.im, b.im))
    if a is NAN or b is NAN:
        return False
    if _inf_sign(a) or _inf_sign(b):
        r = _cmp_inf("eq", a, b)
        if r is not None:
            return r
    d = a - b
    if d.is_const():
        return and_(d.const() == 0, not_(SPECIAL[0](a))) if SPECIAL and d.const() == 0 else d.const() == 0
    d = _scale_pos(d)
    if lead_sign(d) < 0:
        d = -d
    return B("eq0", (d,))


SPECIAL = []      # [is it NaN?, is it +inf?, is it -inf?]: set by npmodel, for values a contract makes possibly missing


def _inf_sign(x):
    """1 / -1 for plus / minus infinity, 0 for any other term"""
    if len(x.t) != 1:
        return 0
    (m, c), = x.t.items()
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
        return 0
    a = m[0][0]
    return int(c) if a.kind == "app" and a.args == ("inf",) else 0


def _cmp_inf(op, a, b):
    """comparisons with an infinite value; None when one side is neither infinite nor known to be a number or a possibly missing input"""
    sa, sb = _inf_sign(a), _inf_sign(b)
    if sa and sb:
        return {"eq": sa == sb, "lt": sa < sb, "le": sa <= sb, "gt": sa > sb, "ge": sa >= sb}[op]
    if sa:
        return _cmp_inf({"eq": "eq", "lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}[op], b, a)
    if any(x.kind == "app" and x.args == ("inf",) for x in atoms_of(a)):
        return None
    nan, pinf, ninf = (f(a) for f in SPECIAL) if SPECIAL else (False, False, False)
    same, other = (pinf, ninf) if sb > 0 else (ninf, pinf)
    if same is None:
        return None
    if op == "eq":
        return same
    if op in (("le", "ge")[sb < 0],):        # x <= inf, x >= -inf
        return not_(nan)
    if op in (("lt", "gt")[sb < 0],):
        return not_(or_(nan, same))
    return same if op == ("ge", "le")[sb < 0] else False


def not_(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.k == "not":
        return b.a[0]
    if b.k == "lt0":
        return cmp0("le", -b.a[0])
    if b.k == "le0":
        return cmp0("lt", -b.a[0])
    if b.k == "and":
        return or_(*[not_(x) for x in b.a])
    if b.k == "or":
        return and_(*[not_(x) for x in b.a])
    return B("not", (b,))


def _flat(k, xs):
    out = []
    for x in xs:
        if isinstance(x, B) and x.k == k:
            out.extend(x.a)
        else:
            out.append(x)
    return out


def and_(*xs):
    out = []
    for x in _flat("and", xs):
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        if x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return B("and", tuple(sorted(out, key=_bkey)))


def or_(*xs):
    out = []
    for x in _flat("or", xs):
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        if x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return B("or", tuple(sorted(out, key=_bkey)))


def _bkey(b):
    return repr(b)


def ite(c, a, b):
    c = relevant(c)
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
        return or_(and_(c, a), and_(not_(c), b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    la, lb = lift_or_none(a), lift_or_none(b)
    if la is None or lb is None:
        if a is b:
            return a
        from .objs import ite_obj
        return ite_obj(c, a, b)
    a, b = la, lb
    if a == b:
        return a
    if c.k == "not":
        c, a, b = c.a[0], b, a
    srt = "I" if is_int(a) and is_int(b) else "R"
    return pa(atom("ite", (c, a, b), srt, nonneg(a) and nonneg(b)))


# --------------------------------------------------------------------------- traversal
def _leaves(b, out):
    if b.k in ("and", "or"):
        for x in b.a:
            _leaves(x, out)
    elif b.k == "not":
        _leaves(b.a[0], out)
    elif b not in out and not_(b) not in out:
        out.append(b)


def _assign(b, x, v):
    if isinstance(b, (bool, np.bool_)):
        return b
    if b == x:
        return v
    if b == not_(x):
        return not v
    if b.k == "and":
        return and_(*[_assign(y, x, v) for y in b.a])
    if b.k == "or":
        return or_(*[_assign(y, x, v) for y in b.a])
    if b.k == "not":
        return not_(_assign(b.a[0], x, v))
    return b


def _table(b, ls):
    if isinstance(b, (bool, np.bool_)):
        return (bool(b),) * (1 << len(ls))
    return _table(_assign(b, ls[0], False), ls[1:]) + _table(_assign(b, ls[0], True), ls[1:])


def relevant(b):
    """an equivalent formula without the atomic conditions it does not depend on"""
    if not isinstance(b, B) or b.k not in ("and", "or", "not"):
        return b
    if all(x.k not in ("and", "or") for x in b.a) and b.k != "not":
        return b
    r = _RELEVANT.get(b)
    if r is None:
        r = _RELEVANT[b] = _relevant(b)
    return r


_RELEVANT = {}


def _relevant(b):
    ls = []
    _leaves(b, ls)
    if len(ls) > 7:
        return b
    for x in list(ls):
        rest = [y for y in ls if y is not x]
        lo, hi = _assign(b, x, False), _assign(b, x, True)
        if _table(lo, rest) == _table(hi, rest):
            b, ls = lo, rest
            if not isinstance(b, B):
                return b
    if len(ls) > 6:
        return b
    t = _table(b, ls)
    for val, join, inv in ((True, and_, False), (False, or_, True)):
        if t.count(val) == 1:            # a conjunction (disjunction) of literals
            k = t.index(val)
            bits = [bool(k >> (len(ls) - 1 - j) & 1) for j in range(len(ls))]
            return join(*[x if bit != inv else not_(x) for x, bit in zip(ls, bits)])
    return b


def subst(x, mp, memo=None):
    """Replace atoms by polynomials/values throughout (mp: Atom -> Poly)."""
    if memo is None:
        memo = {}
    return _subst(x, mp, memo)


def _subst(x, mp, memo):
    if isinstance(x, Poly):
        if x.is_const():
            return x
        k = x
        r = memo.get(k)
        if r is not None:
            return r
        r = ZERO
        changed = False
        parts = []
        for m, c in x.t.items():
            fs = []
            for a, e in m:
                na = _subst_atom(a, mp, memo)
                if na is not None:
                    changed = True
                fs.append((a, e, na))
            parts.append((c, fs))
        if not changed:
            r = x
        else:
            acc = ZERO
            for c, fs in parts:
                term = pconst(c)
                for a, e, na in fs:
                    if na is None:
                        term = pmul(term, pa(a, e))
                    else:
                        term = pmul(term, ppow_int(na, e))
                acc = padd(acc, term)
            r = acc
        memo[k] = r
        return r
    if isinstance(x, Cx):
        return Cx(_subst(x.re, mp, memo), _subst(x.im, mp, memo))
    if isinstance(x, B):
        if x.k in ("lt0", "le0", "eq0"):
            p = _subst(x.a[0], mp, memo)
            if p is x.a[0]:
                return x
            if x.k == "eq0":
                return eq_(p, ZERO)
            return cmp0("lt" if x.k == "lt0" else "le", p)
        if x.k == "not":
            return not_(_subst(x.a[0], mp, memo))
        if x.k == "and":
            return and_(*[_subst(y, mp, memo) for y in x.a])
        if x.k == "or":
            return or_(*[_subst(y, mp, memo) for y in x.a])
        return bapp(x.a[0], *[_subst(y, mp, memo) for y in x.a[1:]])
    if isinstance(x, tuple):
        return tuple(_subst(y, mp, memo) for y in x)
    return x


def _subst_atom(a, mp, memo):
    """None if unchanged, else the new Poly."""
    r = mp.get(a)
    if r is not None:
        return r
    k = a.kind
    if k in ("var", "pi", "nan", "bv"):
        return None
    key = ("atom", a)
    if key in memo:
        return memo[key]
    nargs = tuple(_subst(g, mp, memo) for g in a.args)
    if all(n is g or n == g for n, g in zip(nargs, a.args)):
        memo[key] = None
        return None
    r = rebuild(a, nargs)
    memo[key] = r
    return r


def rebuild(a, g):
    k = a.kind
    if k == "sqrt":
        return sqrt_(g[0])
    if k == "abs":
        return abs_(g[0])
    if k == "floor":
        return floor_(g[0])
    if k == "trunc":
        return trunc_(g[0])
    if k == "cos":
        return cis(g[0])[0]
    if k == "sin":
        return cis(g[0])[1]
    if k == "arg":
        return arg_(Cx(g[0], g[1]))
    if k == "den":
        return g[0]
    if k == "ite":
        return ite(g[0], g[1], g[2])
    if k == "sum":
        return sum_closed(g[0], g[1], g[2])
    if k == "par":
        return parity(g[0])
    if k == "exp":
        return exp_(g[0])
    if k == "pow":
        return ppow(g[0], g[1])
    if k == "app":
        f = REWRITE.get(g[0])
        if f is not None:
            r = f(*g[1:])
            if r is not None:
                return r
    return pa(atom(k, g, a.sort, a.nonneg))


REWRITE: dict = {}


def atoms_of(x, acc=None):
    """All atoms occurring anywhere in x."""
    if acc is None:
        acc = set()
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                if a not in acc:
                    acc.add(a)
                    for g in a.args:
                        atoms_of(g, acc)
    elif isinstance(x, Cx):
        atoms_of(x.re, acc)
        atoms_of(x.im, acc)
    elif isinstance(x, B):
        for g in x.a:
            atoms_of(g, acc)
    elif isinstance(x, tuple):
        for g in x:
            atoms_of(g, acc)
    return acc


def free_bvs(x):
    """Set of bound-variable levels occurring free in x."""
    if isinstance(x, Poly):
        if x._bvs is None:
            s = set()
            for m in x.t:
                for a, _ in m:
                    s |= _atom_bvs(a)
            x._bvs = frozenset(s)
        return x._bvs
    if isinstance(x, (Cx,)):
        return free_bvs(x.re) | free_bvs(x.im)
    if isinstance(x, B):
        s = frozenset()
        for g in x.a:
            s = s | free_bvs(g)
        return s
    return frozenset()


def _atom_bvs(a):
    if a._bv is None:
        if a.kind == "bv":
            a._bv = frozenset([a.args[0]])
        elif a.kind == "sum":
            a._bv = (free_bvs(a.args[1]) - {a.args[2]}) | free_bvs(a.args[0])
        else:
            s = frozenset()
            for g in a.args:
                s = s | free_bvs(g)
            a._bv = s
    return a._bv


def sum_height(x):
    """Greatest bound-variable level used inside x (0 if none)."""
    h = 0
    for a in atoms_of(x):
        if a.kind == "sum":
            h = max(h, a.args[2])
        elif a.kind == "bv":
            h = max(h, a.args[0])
    return h


_fresh_ctr = [0]


def fresh(prefix, sort="R", nonneg=False):
    _fresh_ctr[0] += 1
    return var(f"{prefix}!{_fresh_ctr[0]}", sort, nonneg)


def the_atom(p):
    (m, c), = p.t.items()
    assert c == 1 and len(m) == 1 and m[0][1] == 1
    return m[0][0]


def bv(level):
    return pa(atom("bv", (level,), "I", True))


def sum_(n, f):
    """sum_{i=0}^{n-1} f(i); n int or Poly."""
    n = lift(n)
    if n.is_const() and n.const() <= 64:
        r = ZERO
        for i in range(int(n.const())):
            r = r + f(pconst(i))
        return r
    i = fresh("i", "I", True)
    body = f(i)
    return sum_over(n, body, the_atom(i))


def sum_over(n, body, ia):
    if isinstance(body, Cx):
        return Cx(sum_over(n, body.re, ia), sum_over(n, body.im, ia))
    if isinstance(body, B):
        body = lift(body)
    body = lift(body)
    if body is NAN:
        return NAN
    r = _sum_selected(n, body, ia)
    if r is not None:
        return r
    if any(a.kind == "den" for m in body.t for a, _ in m):
        body = cancel_dens(body)
    # linear, with factors not depending on the index moved outside
    groups = {}
    for m, c in body.t.items():
        inn, out = [], []
        for a, e in m:
            (inn if ia in atoms_of(pa(a)) else out).append((a, e))
        k = tuple(inn)
        groups.setdefault(k, []).append((tuple(out), c))
    res = ZERO
    for inn, outs in groups.items():
        coef = Poly({})
        for o, c in outs:
            coef = padd(coef, Poly({o: c}))
        if not inn:
            s = n
        else:
            lvl = 1 + max([sum_height(pa(a)) for a, _ in inn] + [0])
            b = Poly({inn: Fraction(1)})
            b2 = subst(b, {ia: bv(lvl)})
            s = _mk_sum(n, b2, lvl)
        res = padd(res, pmul(coef, s))
    return res


def _mdiv(m, lm):
    """monomial quotient m / lm when lm divides m, else None"""
    d = dict(m)
    for a, e in lm:
        f = d.get(a, 0)
        if f < e:
            return None
        if f == e:
            del d[a]
        else:
            d[a] = f - e
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def _grlex(m):
    return sum(e for _, e in m), [(-a.id, e) for a, e in m]


def cancel_dens(p):
    """normal form with respect to each denominator: numerators reduced modulo the denominator's polynomial"""
    for _ in range(40):
        dens = {}
        for m in p.t:
            for a, e in m:
                if a.kind == "den" and e < 0:
                    dens[a] = min(dens.get(a, 0), e)
        work = None
        for d in sorted(dens, key=lambda a: a.id):
            base = d.args[0]
            lm = max(base.t, key=_grlex)
            if not lm or any(e < 0 for _, e in lm):
                continue
            lc = base.t[lm]
            rest = Poly({m: c for m, c in base.t.items() if m != lm})
            for m, c in p.t.items():
                e = dict(m).get(d, 0)
                if e >= 0:
                    continue
                q = _mdiv(m, lm)
                if q is not None:
                    work = work or (d, lm, lc, rest)
                    break
            if work:
                break
        if work is None:
            return p
        d, lm, lc, rest = work
        one = pa(d, 1)
        out, add = {}, ZERO
        for m, c in p.t.items():
            q = _mdiv(m, lm) if dict(m).get(d, 0) < 0 else None
            if q is None:
                out[m] = c
                continue
            # lm = (base - rest)/lc
            qp = Poly({q: c / lc})
            up = {}
            for mm, cc in qp.t.items():
                dd = dict(mm)
                dd[d] += 1
                if dd[d] == 0:
                    del dd[d]
                up[tuple(sorted(dd.items(), key=lambda ae: ae[0].id))] = cc
            add = padd(add, padd(Poly(up), -pmul(qp, rest)))
        p = padd(Poly(out), add)
    return p


def _sum_selected(n, body, ia):
    """sum over the selected entries of a mask = sum over all entries, times the indicator of the mask"""
    if len(n.t) != 1:
        return None
    (m, c), = n.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    a = m[0][0]
    if a.kind != "app" or a.args[0] != "cnt":
        return None
    ats = atoms_of(body)
    if ia not in ats:
        return None
    mB, N = a.args[1], a.args[2]
    sel = None
    for x in ats:
        if x.kind == "app" and x.args[0] == "sel" and x.args[1] == mB and x.args[2] == N and x.args[3] == pa(ia):
            sel = x
    if sel is None:
        return None
    k = fresh("i", "I", True)
    b = subst(body, {sel: k})
    if ia in atoms_of(b):
        return None
    return sum_over(N, pmul(lift(subst(mB, {the_atom(bv(-1)): k})), b), the_atom(k))


def _mk_sum(n, body, lvl):
    """body over bv(lvl); re-linearise when substitution turned the monomial into a polynomial."""
    if len(body.t) == 1:
        (m, c), = body.t.items()
        if c == 1 and all(lvl in _atom_bvs(a) for a, _ in m):
            return pa(atom("sum", (n, body, lvl), nonneg=nonneg(body)))
    res = ZERO
    for m, c in body.t.items():
        inn = tuple((a, e) for a, e in m if lvl in _atom_bvs(a))
        out = tuple((a, e) for a, e in m if lvl not in _atom_bvs(a))
        b = Poly({inn: Fraction(1)})
        v = pa(atom("sum", (n, b, lvl), nonneg=nonneg(b))) if inn else n
        res = padd(res, pmul(Poly({out: c}), v))
    return res


def sum_closed(n, body, lvl):
    i = fresh("i", "I", True)
    b = subst(body, {the_atom(bv(lvl)): i})
    if n.is_const() and n.const() <= 64:
        r = ZERO
        for k in range(int(n.const())):
            r = r + subst(b, {the_atom(i): pconst(k)})
        return r
    return sum_over(n, b, the_atom(i))


def instantiate(body, lvl, value):
    return subst(body, {the_atom(bv(lvl)): value})


def closed_value(x):
    """Numeric value of a term with no free symbols, else None."""
    if isinstance(x, Poly):
        if x.is_const():
            return x.const()
        from .numeric import try_closed
        return try_closed(x)
    if isinstance(x, Cx):
        a, b = closed_value(x.re), closed_value(x.im)
        return None if a is None or b is None else complex(a, b)
    return None


# --------------------------------------------------------------------------- hooks into the executor
class _Hook:
    false_preds = ()
    true_preds = ()

    def decide(self, b):
        raise Unsupported(f"undecided truth value {b}")

    def div_zero(self):
        raise Unsupported("division by a term that is identically zero")

    def assume_nonzero(self, p):
        pass

    def sign_hint(self, p):
        return 0

    def astype(self, x, dt):
        raise Unsupported("astype on scalar")

    def round_(self, x):
        raise Unsupported("round")


HOOK = _Hook()
