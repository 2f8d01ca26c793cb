"""Numeric evaluation of terms (floats).  Used only to refute obligations and to guard the normaliser:
a valuation assigns every variable / uninterpreted application a number."""
import hashlib
import math
import time

import numpy as np

from . import terms as T


class EvalError(Exception):
    pass


_OUTER = {}


def _outer(x):
    """levels of sums free in a term, looking inside arrays too"""
    if isinstance(x, T.Atom):
        k = x
        r = _OUTER.get(k)
        if r is None:
            if x.kind == "bv":
                r = frozenset([x.args[0]]) if x.args[0] >= 0 else frozenset()
            elif x.kind == "sum":
                r = (_outer(x.args[1]) - {x.args[2]}) | _outer(x.args[0])
            else:
                r = frozenset().union(*[_outer(g) for g in x.args])
            _OUTER[k] = r
        return r
    if isinstance(x, T.Poly):
        r = _OUTER.get(x)
        if r is None:
            r = _OUTER[x] = frozenset().union(*[_outer(a) for m in x.t for a, _ in m])
        return r
    if isinstance(x, T.Cx):
        return _outer(x.re) | _outer(x.im)
    if isinstance(x, T.B):
        return frozenset().union(*[_outer(g) for g in x.a])
    if isinstance(x, tuple):
        return frozenset().union(*[_outer(g) for g in x])
    return frozenset()


class Valuation:
    """Random-but-consistent valuation.  `samplers` maps a variable / function name to a callable
    (args tuple of evaluated numbers, rng) -> number."""

    def __init__(self, seed=0, samplers=None, bounds=None, impl=None, jitter=0):
        self.seed = seed
        # some valuations are of another order of magnitude altogether (thresholds in the code are conditions too)
        self.scale = 1.0
        if seed % 5 == 4:
            self.scale = 10.0 ** -(4 + seed // 10 % 5) if seed % 10 == 4 else 10.0 ** (2 + seed // 10 % 4)
        self.eqtol = 0.0          # boundary valuations: values this close to a bound are on it
        self.jitter = jitter      # relative perturbation of the real values, to tell a difference from rounding noise
        self.samplers = samplers or {}
        self.impl = impl or {}
        self.memo = {}
        self.steps = 0
        self.deadline = None
        self.bvs = {}
        self.log = {}

    def _rng(self, key):
        h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    def leaf(self, name, args, sort):
        base = name.split("!")[0]
        f = self.impl.get(name) or self.impl.get(base)
        if f is not None:
            return f(*args)
        key = (name, tuple(round(a, 9) if isinstance(a, float) else a for a in args))
        if key in self.log:
            return self.log[key]
        rng = self._rng(key)
        s = self.samplers.get(name) or self.samplers.get(base)
        if s is not None:
            v = s(args, rng)
        elif sort == "I":
            v = int(rng.integers(0, 4)) if "!" in name else int(rng.integers(1, 8))
        else:
            v = float(rng.normal()) * 2.0 ** rng.integers(-1, 3)
            if abs(v) < 0.05:
                v += 0.1
            v *= self.scale
        if self.jitter and sort != "I" and isinstance(v, float):
            v *= 1 + 1e-13 * float(self._rng((key, "jitter", self.jitter)).normal())
        self.log[key] = v
        return v

    def put_on_bound(self, p, atom, coef):
        """give the real variable `atom`, which occurs in p with this coefficient, the value that makes p zero"""
        free = T.free_bvs(p)
        old = dict(self.bvs)
        for l in free:
            self.bvs[l] = 0
        try:
            val = self.ev(p)
            x = self._atom(atom)
            key = (atom.args[0], tuple(self.arg(g) for g in atom.args[1:]))
        finally:
            self.bvs = old
        key = (key[0], tuple(round(a, 9) if isinstance(a, float) else a for a in key[1]))
        new = float(x - val / float(coef))
        if atom.nonneg and new < 0:
            raise EvalError("bound outside the range of the variable")
        self.memo = {}
        self.log[key] = new
        self.jitter = 0
        self.eqtol = 1e-10

    # -- whole arrays, and functions of whole arrays with their real meaning
    def arg(self, x):
        if isinstance(x, (T.Poly, T.B, T.Cx)):
            return self.ev(x)
        if isinstance(x, tuple) and x and x[0] == "arr":
            return ("arr", np.round(self.array(x), 9).tolist().__repr__())
        return x

    def elt(self, v):
        if isinstance(v, tuple):
            if v[0] == "name":
                return self.ev(v[1])
            return complex(self.ev(v[0]), self.ev(v[1]))
        return self.ev(v)

    def array(self, key):
        # its own placeholders are the negative levels: only outer (sum) levels can matter
        outer = tuple((l, self.bvs[l]) for l in sorted(_outer(key)) if l in self.bvs)
        mk = ("array", key, outer)
        hit = self.memo.get(mk)
        if hit is not None:
            return hit
        shape = tuple(int(round(self.ev(d))) for d in key[1])
        if any(d < 0 for d in shape) or int(np.prod(shape)) > 4000:
            raise EvalError("array size")
        c = key[2]
        if all(d.is_const() for d in key[1]) and isinstance(c, tuple) and len(c) == int(np.prod(shape)) \
                and not (len(c) == 2 and not isinstance(c[0], (tuple, T.B)) and c[0] == "name"):
            out = np.array([self.elt(v) for v in c]).reshape(shape)
        else:
            old = {l: self.bvs.get(l) for l in range(-len(shape), 0)}
            vals = []
            for pos in np.ndindex(*shape):
                for d, i in enumerate(pos):
                    self.bvs[-1 - d] = i
                vals.append(self.elt(c))
            for l, w in old.items():
                if w is None:
                    self.bvs.pop(l, None)
                else:
                    self.bvs[l] = w
            out = np.array(vals).reshape(shape) if vals else np.zeros(shape)
        self.memo[mk] = out
        return out

    def positions(self, mask, n):
        n = int(round(self.ev(n)))
        if n > 4000:
            raise EvalError("array size")
        old = self.bvs.get(-1)
        out = []
        for i in range(n):
            self.bvs[-1] = i
            if self.ev(mask):
                out.append(i)
        if old is None:
            self.bvs.pop(-1, None)
        else:
            self.bvs[-1] = old
        return out

    def special(self, name, g):
        if name == "rint":
            return (float(np.rint(self.ev(g[0]))),)
        if name == "spacing":
            return (float(np.spacing(float(self.ev(g[0])))),)
        if name == "cnt":
            return (len(self.positions(g[0], g[1])),)
        if name == "sel":
            ps = self.positions(g[0], g[1])
            i = int(round(self.ev(g[2])))
            if not 0 <= i < len(ps):
                raise EvalError("index beyond the selection")
            return (ps[i],)
        if name == "rank":
            ps = self.positions(g[0], g[1])
            i = int(round(self.ev(g[2])))
            return (sum(q < i for q in ps),)
        if name.startswith("tab:"):
            from . import arrays
            tab = arrays._TABLES.get(name[4:])
            ix = tuple(int(round(self.ev(x))) for x in g)
            if any(not 0 <= i < m for i, m in zip(ix, tab.shape)):
                raise EvalError("index beyond a table")
            return (tab[ix].item(),)
        if not (g and isinstance(g[0], tuple) and g[0] and g[0][0] == "arr") and name != "interp":
            return None
        try:
            base, _, part = name.partition(".")
            if base in ("median", "var", "std") and part in ("", "re", "im"):
                v = getattr(np, base)(self.array(g[0]))
                return (float(np.real(v) if part != "im" else np.imag(v)),)
            if name in ("min", "max"):
                return (float(getattr(np, name)(self.array(g[0]))),)
            if name == "nunique":
                return (len(np.unique(self.array(g[0]))),)
            if name == "unique":
                return (float(np.unique(self.array(g[0]))[int(round(self.ev(g[1])))]),)
            if name == "argsort":
                return (int(np.argsort(self.array(g[0]))[int(round(self.ev(g[1])))]),)
            if name.startswith("searchsorted:"):
                return (int(np.searchsorted(self.array(g[0]), self.ev(g[1]), side=name[13:])),)
            if name == "interp":
                return (float(np.interp(self.ev(g[0]), self.array(g[1]), self.array(g[2]))),)
            if name == "lombscargle":
                from scipy.signal import lombscargle
                return (float(np.ravel(lombscargle(self.array(g[0]), self.array(g[1]), np.array([self.ev(g[2])])))[0]),)
            if base in ("svd", "eigvals", "eigvalsh", "cholesky"):
                mk = ("mat", base, g[0], tuple((l, self.bvs[l]) for l in sorted(_outer(g[0])) if l in self.bvs))
                m = self.memo.get(mk)
                if m is None:
                    m = self.memo[mk] = getattr(np.linalg, base)(self.array(g[0]))
                if base == "svd":
                    part, _, sub = part.partition(".")
                    m = m["USV".index(part)]
                    part = sub
                v = m[tuple(int(round(self.ev(z))) for z in g[1:])]
                return (float(np.imag(v) if part == "im" else np.real(v)),)
            if base in ("inv", "pinv"):
                m = getattr(np.linalg, base)(self.array(g[0]))
                v = m[int(round(self.ev(g[1]))), int(round(self.ev(g[2])))]
                return (float(np.imag(v) if part == "im" else np.real(v)),)
            if base == "lstsq" and part.split(".")[0] == "x":
                m = np.linalg.lstsq(self.array(g[0]), self.array(g[1]), rcond=None)[0]
                v = m[int(round(self.ev(g[2])))]
                return (float(np.imag(v) if part.endswith(".im") else np.real(v)),)
            if name in ("lstsq.sv", "lstsq.rank", "lstsq.res", "lstsq.nres"):
                m = np.linalg.lstsq(self.array(g[0]), self.array(g[1]) if len(g) > 2 or name in ("lstsq.rank", "lstsq.nres") else np.zeros(len(self.array(g[0]))), rcond=None)
                if name == "lstsq.rank":
                    return (int(m[2]),)
                if name == "lstsq.nres":
                    return (len(m[1]),)
                return (float(np.real(m[3 if name == "lstsq.sv" else 1][int(round(self.ev(g[-1])))])),)
        except (IndexError, ValueError, np.linalg.LinAlgError) as e:
            raise EvalError(str(e))
        return None

    # -- evaluation
    def ev(self, x):
        if isinstance(x, T.Poly):
            if not self.bvs or not T.free_bvs(x):
                r = self.memo.get(x)
                if r is None:
                    r = self.memo[x] = self._poly(x)
                return r
            return self._poly(x)
        if isinstance(x, T.Cx):
            return complex(self.ev(x.re), self.ev(x.im))
        if isinstance(x, T.B):
            return self._bool(x)
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, (int, float, complex, np.number)):
            return x
        raise EvalError(f"cannot evaluate {type(x)}")

    def _poly(self, p):
        if p is T.NAN:
            return math.nan
        tot = 0
        for m, c in p.t.items():
            v = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                av = self._atom(a)
                if e < 0 and av == 0:
                    raise EvalError("division by zero")
                v = v * (av ** e if e > 0 else 1.0 / av ** -e)
            tot = tot + v
        return tot

    def _atom(self, a):
        if a.kind == "bv":
            return self.bvs[a.args[0]]
        if not self.bvs or not T._atom_bvs(a):
            r = self.memo.get(a)
            if r is None:
                r = self.memo[a] = self._atom1(a)
            return r
        if a.kind == "sum":
            # inner sums and matrix elements recur inside outer sums
            mk = (a, tuple((l, self.bvs[l]) for l in sorted(_outer(a)) if l in self.bvs),
                  tuple((l, self.bvs[l]) for l in sorted(T._atom_bvs(a)) if l < 0 and l in self.bvs))
            r = self.memo.get(mk)
            if r is None:
                r = self.memo[mk] = self._atom1(a)
            return r
        self.steps += 1
        if self.steps % 4096 == 0 and self.deadline is not None and time.time() > self.deadline:
            raise EvalError("time limit")
        return self._atom1(a)

    def _atom1(self, a):
        k, g = a.kind, a.args
        if k == "var":
            v = self.leaf(g[0], (), a.sort)
            if a.nonneg and v < 0:
                v = -v
            return v
        if k == "pi":
            return math.pi
        if k == "nan":
            return math.nan
        if k == "app":
            if g[0] == "rint":
                return round(self.ev(g[1]))
            if g[0].startswith("fn:"):
                return float(getattr(np, g[0][3:])(self.ev(g[1])))
            sp = self.special(g[0], g[1:])
            if sp is not None:
                return sp[0]
            args = tuple(self.arg(x) for x in g[1:])
            v = self.leaf(g[0], args, a.sort)
            if a.nonneg and v < 0:
                v = -v
            return v
        if k == "sqrt":
            v = self.ev(g[0])
            if v < 0:
                if v > -1e-9:
                    return 0.0
                raise EvalError("sqrt of negative")
            return math.sqrt(v)
        if k == "abs":
            return abs(self.ev(g[0]))
        if k == "den":
            return self.ev(g[0])
        if k == "floor":
            return math.floor(self.ev(g[0]))
        if k == "trunc":
            return math.trunc(self.ev(g[0]))
        if k == "cos":
            return math.cos(self.ev(g[0]))
        if k == "sin":
            return math.sin(self.ev(g[0]))
        if k == "arg":
            return math.atan2(self.ev(g[1]), self.ev(g[0]))
        if k == "exp":
            return math.exp(self.ev(g[0]))
        if k == "pow":
            b, e = self.ev(g[0]), self.ev(g[1])
            try:
                v = b ** e
            except Exception as err:
                raise EvalError(str(err))
            if isinstance(v, complex):
                raise EvalError("complex pow")
            return v
        if k == "par":
            return 1 if int(round(self.ev(g[0]))) % 2 == 0 else -1
        if k == "ite":
            return self.ev(g[1]) if self.ev(g[0]) else self.ev(g[2])
        if k == "sum":
            n = self.ev(g[0])
            n = int(round(n))
            if n > 2000:
                raise EvalError("sum too long")
            lvl = g[2]
            old = self.bvs.get(lvl)
            tot = 0
            for i in range(max(n, 0)):
                self.bvs[lvl] = i
                tot = tot + self.ev(g[1])
            if old is None:
                self.bvs.pop(lvl, None)
            else:
                self.bvs[lvl] = old
            return tot
        raise EvalError(f"no numeric meaning for {k}")

    def _bool(self, b):
        k, a = b.k, b.a
        if k == "lt0":
            return self.ev(a[0]) < -self.eqtol
        if k == "le0":
            return self.ev(a[0]) <= self.eqtol
        if k == "eq0":
            v = self.ev(a[0])
            if self.eqtol:
                return abs(v) < self.eqtol
            return abs(v) < 1e-12 * min(1.0, self.scale ** 2)
        if k == "not":
            return not self.ev(a[0])
        if k == "app" and a[0] == "posdef":
            m = self.array(a[1])
            return bool(np.linalg.eigvalsh((m + m.conj().T) / 2).min() > 0)
        if k == "and":
            return all(self.ev(x) for x in a)
        if k == "or":
            return any(self.ev(x) for x in a)
        name = a[0]
        if name == "member":
            return bool(np.any(self.array(a[1]) == round(self.ev(a[2]))))
        if name == "any" and isinstance(a[1], tuple):
            return bool(np.any(self.array(a[1])))
        if name.startswith("tab:"):
            from . import arrays
            return bool(arrays._TABLES[name[4:]][tuple(int(round(self.ev(x))) for x in a[1:])])
        args = tuple(self.arg(x) for x in a[1:])
        f = self.impl.get(name)
        if f is not None:
            return bool(f(*args))
        key = ("?" + name, tuple(round(v, 9) if isinstance(v, float) else v for v in args))
        if key not in self.log:
            s = self.samplers.get(name)
            self.log[key] = bool(s(args, self._rng(key))) if s else bool(self._rng(key).random() < 0.5)
        return self.log[key]


_CLOSED = Valuation(0)


def try_closed(x):
    for a in T.atoms_of(x):
        if a.kind in ("var", "bv", "nan") or (a.kind == "app" and not a.args[0].startswith("fn:")):
            return None
    try:
        return _CLOSED.ev(x)
    except EvalError:
        return None
