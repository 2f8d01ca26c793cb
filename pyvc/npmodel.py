"""Semantics (contracts) of the numpy/scipy/builtin operations the package uses, on symbolic values.

Elementwise and structural operations are defined by their mathematical meaning; numerical-linear-algebra and
statistics kernels (lstsq, svd, inv, fft, median, ...) are *opaque* functions of their whole argument: the only
thing known about them is that equal arguments give equal results (plus the axioms a contract states)."""
from __future__ import annotations

import ast
import builtins
import collections
import math
import warnings

import numpy as np
import scipy.signal

from . import arrays as A
from . import terms as T
from .arrays import SArr
from .interp import ENGINE, ProgExc, SortedSeq, SymSet, deep_symbolic, symbolic
from .objs import SName
from .slist import SIter, SList
from .terms import B, Cx, Poly, Unsupported

OWNED = {}       # id -> ndarray created by interpreted code (natively), so writable
MODELS = {}


class NullCtx:
    pass


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj

    def __call__(self, interp, *a, **k):
        return self.f(interp, self.obj, *a, **k)


def model(*fns):
    def deco(f):
        for g in fns:
            if g is not None:
                MODELS[id(g)] = (g, f)
        return f
    return deco


def lookup(fn):
    m = MODELS.get(id(fn))
    if m is not None:
        return m[1]
    if isinstance(fn, type) and fn in TYPE_MODELS:
        return TYPE_MODELS[fn]
    # bound methods of numpy arrays are handled by nd_getattr
    return None


TYPE_MODELS = {}

NATIVE_MODULES = ("numpy", "scipy", "builtins", "datetime", "math", "collections", "pandas", "warnings", "itertools",
                  "functools", "re", "operator", "copy", "types")


def native_call(interp, fn, args, kwargs):
    """external pure function on concrete values: executed"""
    mod = getattr(fn, "__module__", None) or type(fn).__module__ or ""
    root = str(mod).split(".")[0]
    if fn is print:
        return None
    if root not in NATIVE_MODULES and not isinstance(fn, (type, np.ufunc)) and not hasattr(fn, "__self__"):
        raise Unsupported(f"external function {fn}")
    name = getattr(fn, "__qualname__", getattr(fn, "__name__", str(fn)))
    interp.native.add(f"{mod}.{name}")
    if "random" in str(mod):
        raise Unsupported("random numbers")
    try:
        r = fn(*args, **kwargs)
    except (ProgExc, Unsupported):
        raise
    except Exception as e:
        raise ProgExc(e, name)
    if isinstance(r, np.ndarray):
        OWNED[id(r)] = r
    return r


def native_allowed(fn):
    """container operations that only store or move values"""
    self = getattr(fn, "__self__", None)
    if isinstance(self, (list, dict)) and getattr(fn, "__name__", "") in (
            "append", "extend", "update", "setdefault", "get", "items", "values", "keys", "copy", "pop", "insert", "clear",
            "reverse", "index"):
        return True
    if fn in (id, type, isinstance, getattr, hasattr, setattr, iter, callable, repr, dict, OrderedDict_):
        return True
    if isinstance(fn, type) and issubclass(fn, (dict, Exception)):
        return True
    return False


OrderedDict_ = collections.OrderedDict


def arr(x):
    """to SArr/ndarray"""
    if isinstance(x, SList):
        return x.arr
    if isinstance(x, (SArr, np.ndarray)):
        return x
    return A.as_sarr(x)


def isarr(x):
    return isinstance(x, (SArr, SList, list, tuple)) or (isinstance(x, np.ndarray) and x.ndim > 0)


def own(x, copyof=None):
    """fresh mutable array"""
    if isinstance(x, np.ndarray):
        x = A.as_sarr(np.array(x, copy=True) if not isinstance(x, np.ma.MaskedArray) else x.copy())
    return x


def snapshot_copy(a, is_ma=None):
    a = arr(a)
    if isinstance(a, np.ndarray):
        return own(a)
    ma = a.is_ma if is_ma is None else is_ma
    r = SArr(a.shape, a.snap(), a.dt, is_ma=ma, mask=a.msnap() if ma else None, pieces=dict(a.pieces), sel=a.sel)
    if getattr(a, "sel_mask", None) is not None:
        r.sel_mask = a.sel_mask
    return r


# --------------------------------------------------------------------------- elementwise
def ewm(name, f, native, dt=None):
    def m(interp, x, *rest, out=None, dtype=None, **kw):
        if kw:
            raise Unsupported(f"{name} with {list(kw)}")
        args = (x,) + rest
        if len(rest) > 0 and out is None and len(args) > _nin(native):
            out = args[-1]
            args = args[:-1]
        if not any(deep_symbolic(q) for q in args) and out is None:
            if name in ("sin", "cos", "tan") and isinstance(x, (float, np.floating)):
                t = T.float_term(float(x)) if x == x and abs(x) < 1e9 else None
                if t is not None and not t.is_const():
                    return f(t)        # a rational multiple of pi: kept exact
            try:
                r = native(*args)
            except Exception as e:
                raise ProgExc(e, name)
            return r
        if any(isinstance(q, tuple) for q in args):
            args = tuple(list(q) if isinstance(q, tuple) else q for q in args)
        for q in args:
            if q is None:
                raise ProgExc(TypeError(f"{name} of None"), name)
        try:
            r = A.ew(f, *args, dt=dt)
        except A.ShapeMismatch as e:
            raise ProgExc(e, name)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if not isinstance(out, SArr):
                raise Unsupported("out= of a concrete array")
            A.assign(out, None, r)
            return out
        return r
    if native is not None:
        MODELS[id(native)] = (native, m)
    return m


def _nin(f):
    return getattr(f, "nin", 1)


def _real(x):
    x = T.lift(x)
    if isinstance(x, Cx):
        raise Unsupported("real function of a complex value")
    return x


def _cos(x):
    return T.cis(_real(x))[0]


def _sin(x):
    return T.cis(_real(x))[1]


def _rint(x):
    x = _real(x)
    if T.is_int(x):
        return x
    if x.is_const():
        return T.pconst(round(x.const()))
    return T.app("rint", x, sort="I", nonneg=T.nonneg(x))


def _sign(x):
    x = _real(x)
    return T.ite(T.cmp_("lt", 0, x), T.ONE, T.ite(T.cmp_("lt", x, 0), -T.ONE, T.ZERO))


def _sqrt(x):
    x = T.lift(x)
    if isinstance(x, Cx):
        if x.im == T.ZERO:
            return Cx(T.sqrt_(x.re), T.ZERO)
        raise Unsupported("complex sqrt")
    return T.sqrt_(x)


def _conj(x):
    x = T.lift(x)
    return Cx(x.re, -x.im) if isinstance(x, Cx) else x


def _isnan(x):
    x = T.lift(x)
    if isinstance(x, Cx):
        return T.or_(_isnan(x.re), _isnan(x.im))
    if x is T.NAN:
        return True
    return NANPRED(x)


def NANPRED(x):
    """value terms are finite numbers unless a contract makes them possibly-missing inputs"""
    ps = []
    for a in T.atoms_of(x):
        if a.kind == "app" and a.args[0] in MISSING:
            ps.append(T.and_(T.bapp("bad:" + a.args[0], *a.args[1:]), T.bapp("nan:" + a.args[0], *a.args[1:])))
    return T.or_(*ps) if ps else False


def _infinite(sign):
    """whether a possibly missing value is +inf (-inf); a missing value is NaN, +inf or -inf"""
    def f(x):
        x = T.lift(x)
        if not MISSING or not any(a.kind == "app" and a.args[0] in MISSING for a in T.atoms_of(x)):
            return False
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                sg = sign if c > 0 else -sign
                if a.kind == "abs":
                    return T.or_(f(a.args[0]), _infinite(-sign)(a.args[0])) if sg > 0 else False
                if a.kind == "app" and a.args[0] in MISSING:
                    bad, nan, pos = (T.bapp(k + a.args[0], *a.args[1:]) for k in ("bad:", "nan:", "positive infinite:"))
                    return T.and_(bad, T.not_(nan), pos if sg > 0 else T.not_(pos))
        return None
    return f


T.SPECIAL[:] = [lambda x: NANPRED(T.lift(x)), _infinite(1), _infinite(-1)]


def _isfinite(x):
    x = T.lift(x)
    if isinstance(x, Cx):
        return T.and_(_isfinite(x.re), _isfinite(x.im))
    if x is T.NAN:
        return False
    ps = []
    for a in T.atoms_of(x):
        if a.kind == "app" and a.args[0] in MISSING:
            ps.append(T.bapp("bad:" + a.args[0], *a.args[1:]))
        if a.kind == "app" and a.args[0] == "inf":
            return False
    return T.not_(T.or_(*ps)) if ps else True


MISSING = set()   # names of input functions whose values may be NaN or infinite


def _truthy(x):
    if isinstance(x, (B, bool, np.bool_)):
        return x
    return T.not_(T.eq_(T.lift(x), 0))


def _logical(f):
    return lambda *a: f(*[_truthy(x) for x in a])


def _arctan2(y, x):
    return T.arg_(Cx(_real(x), _real(y)))


def _fn(n):
    f = T.fun1(n)
    return lambda x: f(_real(x))


ELEMENTWISE = [
    ("cos", _cos, np.cos), ("sin", _sin, np.sin), ("exp", T.exp_, np.exp), ("sqrt", _sqrt, np.sqrt), ("abs", T.abs_, np.abs),
    ("conj", _conj, np.conj), ("real_if", None, None),
    ("fmod", lambda a, b: T.fmod_(_real(a), _real(b)), np.fmod), ("mod", lambda a, b: T.pmod(_real(a), _real(b)), np.mod),
    ("floor", lambda x: T.floor_(_real(x)), np.floor), ("ceil", lambda x: -T.floor_(-_real(x)), np.ceil),
    ("trunc", lambda x: T.trunc_(_real(x)), np.trunc), ("rint", _rint, np.rint),
    ("minimum", lambda a, b: T.min_(a, b), np.minimum), ("maximum", lambda a, b: T.max_(a, b), np.maximum),
    ("arctan2", _arctan2, np.arctan2), ("tanh", _fn("tanh"), np.tanh), ("log", _fn("log"), np.log),
    ("deg2rad", lambda x: _real(x) * T.PI / 180, np.deg2rad), ("radians", lambda x: _real(x) * T.PI / 180, np.radians),
    ("rad2deg", lambda x: _real(x) * 180 / T.PI, np.rad2deg), ("degrees", lambda x: _real(x) * 180 / T.PI, np.degrees),
    ("multiply", A.OPS["*"], np.multiply), ("add", A.OPS["+"], np.add), ("subtract", A.OPS["-"], np.subtract),
    ("divide", A.OPS["/"], np.divide), ("power", A.OPS["**"], np.power), ("square", lambda x: T.lift(x) * T.lift(x), np.square),
    ("negative", lambda x: -T.lift(x), np.negative), ("sign", _sign, np.sign), ("hypot", lambda a, b: T.sqrt_(a * a + b * b), np.hypot),
    ("spacing", None, None), ("reciprocal", lambda x: T.ONE / T.lift(x), np.reciprocal), ("tan", lambda x: _sin(x) / _cos(x), np.tan),
]
for _n, _f, _native in ELEMENTWISE:
    if _f is not None:
        ewm(_n, _f, _native)
def _eqinf(x, v):
    r = T.eq_(x, v)
    if isinstance(r, T.B) and r.k == "eq0":
        raise Unsupported("comparison with an infinite value")
    return r


for _n, _f, _native in [("logical_and", _logical(T.and_), np.logical_and), ("logical_or", _logical(T.or_), np.logical_or),
                        ("logical_not", _logical(lambda x: T.not_(x)), np.logical_not), ("isnan", _isnan, np.isnan),
                        ("isfinite", _isfinite, np.isfinite), ("less", A.OPS["<"], np.less), ("greater", A.OPS[">"], np.greater),
                        ("less_equal", A.OPS["<="], np.less_equal), ("greater_equal", A.OPS[">="], np.greater_equal),
                        ("equal", A.OPS["=="], np.equal), ("not_equal", A.OPS["!="], np.not_equal),
                        ("isposinf", lambda x: _eqinf(x, math.inf), np.isposinf), ("isneginf", lambda x: _eqinf(x, -math.inf), np.isneginf),
                        ("isinf", lambda x: T.not_(T.or_(_isnan(x), _isfinite(x))), np.isinf)]:
    ewm(_n, _f, _native, dt="b")


@model(np.spacing)
def m_spacing(interp, x):
    if not deep_symbolic(x):
        return np.spacing(x)
    return A.ew(lambda v: T.app("spacing", T.lift(v), nonneg=True), x)


@model(np.absolute)
def m_abs(interp, x):
    return A.ew(T.abs_, x) if deep_symbolic(x) else np.abs(x)


@model(np.angle)
def m_angle(interp, z, deg=False):
    if not deep_symbolic(z):
        return np.angle(z, deg=deg)
    k = T.pconst(180) / T.PI if deg else T.ONE
    return A.ew(lambda v: T.arg_(v) * k, z)


@model(np.real)
def m_real(interp, x):
    if isinstance(x, (SArr, Poly, Cx)):
        return x.real
    if isinstance(x, SList):
        return A.ew(T.re_, x.arr)
    return A.ew(T.re_, x) if deep_symbolic(x) else np.real(x)


@model(np.imag)
def m_imag(interp, x):
    if isinstance(x, SArr):
        return x.imag
    if isinstance(x, (Poly, Cx)):
        return T.im_(x)
    if isinstance(x, SList):
        return A.ew(T.im_, x.arr)
    return A.ew(T.im_, x) if deep_symbolic(x) else np.imag(x)


@model(np.iscomplexobj)
def m_iscomplexobj(interp, x):
    if isinstance(x, (SArr, SList)):
        return arr(x).dt == "c"
    if isinstance(x, Cx):
        return True
    if isinstance(x, (Poly, B)):
        return False
    if isinstance(x, (list, tuple)) and deep_symbolic(x):
        return A.as_sarr(list(x)).dt == "c"
    return np.iscomplexobj(x)


@model(np.isrealobj)
def m_isrealobj(interp, x):
    return not m_iscomplexobj(interp, x)


# --------------------------------------------------------------------------- creation / conversion
def shape_of(s):
    if isinstance(s, (tuple, list)):
        return tuple(A.dim(x) for x in s)
    if isinstance(s, SArr):
        return tuple(A.dim(s.get(i)) for i in range(s.shape[0]))
    return (A.dim(s),)


def dt_of(dtype, default="f"):
    if dtype is None:
        return default
    if isinstance(dtype, A.DType):
        return dtype.kind
    if dtype is float or dtype is None:
        return "f"
    if dtype is int:
        return "i"
    if dtype is complex:
        return "c"
    if dtype is bool:
        return "b"
    if dtype is object:
        return "O"
    k = np.dtype(dtype).kind
    return "i" if k == "u" else k


def filled_arr(shape, val, dt, ma=False):
    v = {"b": bool(val) if not symbolic(val) else val}.get(dt) if dt == "b" else A.cast(T.lift(val), dt) if dt != "O" else val
    r = SArr(shape_of(shape), lambda idx: v, dt, is_ma=ma, mask=(lambda idx: False) if ma else None)
    return r


def mk_creator(val):
    def f(interp, shape, dtype=None, order=None):
        return filled_arr(shape, val, dt_of(dtype))
    return f


MODELS[id(np.zeros)] = (np.zeros, mk_creator(0))
MODELS[id(np.ones)] = (np.ones, mk_creator(1))


@model(np.empty)
def m_empty(interp, shape, dtype=None, order=None):
    dt = dt_of(dtype)
    k = f"empty!{A.SERIAL[0]}"

    def f(idx):
        if dt == "c":
            return Cx(T.app(k + "r", *map(T.lift, idx)), T.app(k + "i", *map(T.lift, idx)))
        if dt == "b":
            return T.bapp(k, *map(T.lift, idx))
        if dt == "O":
            return None
        return T.app(k, *map(T.lift, idx), sort="I" if dt == "i" else "R")

    return SArr(shape_of(shape), f, dt)


@model(np.full)
def m_full(interp, shape, v, dtype=None):
    return filled_arr(shape, v, dt_of(dtype, A.kind_of_value(v if symbolic(v) else T.lift(v) if not isinstance(v, bool) else v)))


def like(val):
    def f(interp, x, dtype=None):
        x = arr(x)
        k = (x.dt if isinstance(x, SArr) else x.dtype.kind)
        return filled_arr(x.shape, val, dt_of(dtype, k), getattr(x, "is_ma", False))
    return f


MODELS[id(np.zeros_like)] = (np.zeros_like, like(0))
MODELS[id(np.ones_like)] = (np.ones_like, like(1))


@model(np.empty_like)
def m_empty_like(interp, x, dtype=None):
    x = arr(x)
    return m_empty(interp, x.shape, dtype=A.DType(dt_of(dtype, x.dt if isinstance(x, SArr) else x.dtype.kind)))


@model(np.full_like)
def m_full_like(interp, x, v, dtype=None):
    x = arr(x)
    return filled_arr(x.shape, v, dt_of(dtype, x.dt if isinstance(x, SArr) else x.dtype.kind))


@model(np.eye, np.identity)
def m_eye(interp, n):
    n = A.dim(n)
    return SArr((n, n), lambda idx: T.lift(T.ite(T.eq_(T.lift(idx[0]), T.lift(idx[1])), T.ONE, T.ZERO)), "f")


@model(np.arange)
def m_arange(interp, *a, dtype=None):
    if not deep_symbolic(a):
        return np.arange(*a, dtype=dtype)
    if len(a) == 1:
        start, stop, step = T.ZERO, T.lift(a[0]), T.ONE
    elif len(a) == 2:
        start, stop, step = T.lift(a[0]), T.lift(a[1]), T.ONE
    else:
        raise Unsupported("arange with step")
    if not (T.is_int(start) and T.is_int(stop)):
        raise Unsupported("arange with non-integer bounds")
    n = stop - start
    neg = A.res(T.cmp_("lt", n, 0))
    if neg is True:
        n = T.ZERO
    elif neg is not False:
        n = T.max_(n, T.ZERO)
    return SArr((n,), lambda idx: start + T.lift(idx[0]), "i")


@model(np.linspace)
def m_linspace(interp, a, b, n=50, endpoint=True):
    if not deep_symbolic((a, b, n)):
        return np.linspace(a, b, n)
    if not endpoint:
        raise Unsupported("linspace endpoint")
    a, b = T.lift(a), T.lift(b)
    nn = T.lift(n)
    return SArr((A.dim(n),), lambda idx: a + (b - a) * T.lift(idx[0]) / (nn - 1), "f")


def conv_dt(a, dtype):
    if dtype is None:
        return a
    return astype(a, dtype)


@model(np.array)
def m_array(interp, x, dtype=None, copy=True, ndmin=0):
    if isinstance(x, np.ndarray):
        x = own(x)
    if isinstance(x, SList):
        x = x.arr
    if isinstance(x, SArr):
        r = snapshot_copy(x, is_ma=False)
        return conv_dt(r, dtype)
    if isinstance(x, (list, tuple)):
        if not deep_symbolic(x):
            r = np.array(x, dtype=dtype)
            OWNED[id(r)] = r
            return r if r.ndim == 0 else own(r) if r.dtype.kind != "O" else r
        try:
            r = A.as_sarr(list(x))
        except ValueError as e:
            raise ProgExc(e, "np.array")
        return conv_dt(r, dtype)
    if isinstance(x, (Poly, Cx, B, SName)):
        return conv_dt(A.SArr((), lambda idx: x, A.kind_of_value(x)), dtype)
    return np.array(x, dtype=dtype)


@model(np.asarray, np.ascontiguousarray, np.asfortranarray)
def m_asarray(interp, x, dtype=None, order=None):
    r = m_asanyarray(interp, x, dtype)
    if isinstance(r, SArr) and r.is_ma:
        return m_getdata(interp, r)
    return r


@model(np.asanyarray)
def m_asanyarray(interp, x, dtype=None, order=None):
    if isinstance(x, np.ndarray):
        return x if dtype is None or np.dtype(dtype) == x.dtype else own(x.astype(dtype))
    if isinstance(x, SArr):
        if dtype is None or dt_of(dtype) == x.dt:
            return x
        return astype(x, dtype)
    if hasattr(x, "_symobj"):
        return x.asarray(interp)
    return m_array(interp, x, dtype=dtype)


@model(np.copy)
def m_copy(interp, x):
    return snapshot_copy(x) if isarr(x) else x


@model(np.atleast_1d)
def m_atleast_1d(interp, x):
    if not deep_symbolic(x):
        return np.atleast_1d(x)
    if isinstance(x, SArr):
        return x if x.ndim else SArr((1,), lambda idx: x.get(), x.dt)
    if isarr(x):
        return A.as_sarr(x)
    v = x
    return SArr((1,), lambda idx: v, A.kind_of_value(v))


@model(np.atleast_2d)
def m_atleast_2d(interp, x):
    x = arr(x)
    if isinstance(x, np.ndarray):
        return np.atleast_2d(x)
    return A.getitem(x, (None,)) if x.ndim == 1 else x


def astype_scalar(x, dt):
    k = dt_of(dt)
    return cast_el(x, k)


def cast_el(v, k):
    if k == "f":
        return A.cast(v if not isinstance(v, B) else T.lift(v), "f")
    if k == "c":
        return Cx.of(T.lift(v))
    if k == "i":
        v = T.lift(v)
        return v if isinstance(v, Poly) and T.is_int(v) else T.trunc_(_real(v))
    if k == "b":
        return _truthy(v)
    if k == "O":
        return v
    raise Unsupported(f"conversion to kind {k}")


def astype(a, dtype):
    k = dt_of(dtype)
    if isinstance(a, np.ndarray):
        return own(a.astype(dtype)) if k in "fcib" else a.astype(dtype)
    if k == "M":
        raise Unsupported("datetime conversion of a symbolic array")
    r = A.ew(lambda v: cast_el(v, k), a, dt=k) if a.dt != "O" else SArr(a.shape, a.snap(), k, sel=a.sel, pieces=a.pieces)
    return r


def round_scalar(x):
    return _rint(x)


# --------------------------------------------------------------------------- structure
def tup(x):
    if isinstance(x, SIter):
        raise Unsupported("stacking a symbolic sequence of arrays")
    return list(x) if not isinstance(x, SArr) else [A.getitem(x, i) for i in range(x.shape[0])]


def structural(native):
    def deco(f):
        def m(interp, x, *a, **k):
            if not deep_symbolic(x):
                r = native(x, *a, **k)
                OWNED[id(r)] = r
                return r
            try:
                return f(interp, x, *a, **k)
            except A.ShapeMismatch as e:
                raise ProgExc(e, native.__name__)
        MODELS[id(native)] = (native, m)
        return m
    return deco


def as1(x):
    a = A.as_sarr(x if not isinstance(x, SList) else x.arr)
    if a.ndim == 0:
        v = a.get()
        a = SArr((1,), lambda idx: v, a.dt)
    return a


def stripma(a):
    if a.is_ma:
        return SArr(a.shape, a.snap(), a.dt, pieces=a.pieces)
    return a


@structural(np.hstack)
def m_hstack(interp, xs):
    xs = [stripma(as1(x)) for x in tup(xs)]
    return A.concat(xs, 0 if xs[0].ndim == 1 else 1)


@structural(np.concatenate)
def m_concatenate(interp, xs, axis=0):
    xs = [stripma(as1(x)) for x in tup(xs)]
    return A.concat(xs, axis if axis >= 0 else xs[0].ndim + axis)


@structural(np.vstack)
def m_vstack(interp, xs):
    xs = [stripma(as1(x)) for x in tup(xs)]
    xs = [A.getitem(x, (None,)) if x.ndim == 1 else x for x in xs]
    return A.concat(xs, 0)


@structural(np.column_stack)
def m_column_stack(interp, xs):
    xs = [stripma(as1(x)) for x in tup(xs)]
    xs = [A.getitem(x, (slice(None), None)) if x.ndim == 1 else x for x in xs]
    return A.concat(xs, 1)


@structural(np.stack)
def m_stack(interp, xs, axis=0):
    xs = [stripma(A.as_sarr(x)) for x in tup(xs)]
    nd = xs[0].ndim
    ax = axis if axis >= 0 else nd + 1 + axis
    key = tuple([slice(None)] * ax + [None])
    return A.concat([A.getitem(x, key) if x.ndim else as1(x) for x in xs], ax)


@structural(np.append)
def m_append(interp, a, b, axis=None):
    return m_concatenate(interp, [a, b])


@model(np.dot, np.matmul)
def m_dot(interp, a, b, out=None):
    if not deep_symbolic((a, b)):
        return np.dot(a, b)
    try:
        return A.dot(arr(a) if isarr(a) else a, arr(b) if isarr(b) else b)
    except A.ShapeMismatch as e:
        raise ProgExc(e, "dot")


@model(np.outer)
def m_outer(interp, a, b):
    a, b = as1(a), as1(b)
    return A.binop("*", A.getitem(a, (slice(None), None)), A.getitem(b, (None, slice(None))))


@model(np.vdot)
def m_vdot(interp, a, b):
    return A.dot(A.ew(_conj, a), arr(b))


@model(np.trace)
def m_trace(interp, a):
    if not deep_symbolic(a):
        return np.trace(a)
    a = A.as_sarr(a)
    return T.sum_(a.shape[0], lambda i: T.lift(a.get(A.dim(i), A.dim(i))))


@model(np.diag)
def m_diag(interp, a):
    if not deep_symbolic(a):
        return np.diag(a)
    a = A.as_sarr(a)
    f = a.snap()
    if a.ndim == 1:
        n = a.shape[0]

        def fn(idx):
            i, j = idx
            e = T.eq_(T.lift(i), T.lift(j))
            if e is True:
                return f((i,))
            if e is False:
                return T.ZERO
            return T.ite(e, T.lift(f((i,))), T.ZERO)

        return SArr((n, n), fn, a.dt)
    return SArr((a.shape[0],), lambda idx: f((idx[0], idx[0])), a.dt)


@model(np.diagonal)
def m_diagonal(interp, a):
    return m_diag(interp, a)


@model(np.transpose)
def m_transpose(interp, a, axes=None):
    a = arr(a)
    return a.T if axes is None else A.transpose(a, list(axes))


@model(np.squeeze)
def m_squeeze(interp, a, axis=None):
    if not deep_symbolic(a):
        return np.squeeze(a)
    a = A.as_sarr(a)
    for s in a.shape:
        if not isinstance(s, int) and ENGINE.resolve(T.eq_(s, 1)) is None:
            # a symbolic length: squeeze keeps it unless it is one
            if ENGINE.decide(T.eq_(s, 1)):
                pass
    key = tuple(0 if (isinstance(s, int) and s == 1) or A.same_dim(s, 1) else slice(None) for s in a.shape)
    r = A.getitem(a, key)
    return r if isinstance(r, SArr) else SArr((), lambda idx: r, a.dt)


@model(np.ravel)
def m_ravel(interp, a):
    return flatten(a)


def flatten(a):
    a = arr(a)
    if isinstance(a, np.ndarray):
        return own(a.ravel())
    if a.ndim == 1:
        return snapshot_copy(a)
    if a.ndim == 0:
        v = a.get()
        return SArr((1,), lambda idx: v, a.dt)
    if a.ndim == 2 and all(isinstance(s, int) for s in a.shape):
        n, m = a.shape
        f = a.snap()
        return SArr((n * m,), lambda idx: f((idx[0] // m, idx[0] % m)), a.dt)
    if a.ndim == 2 and any(isinstance(s, int) and s == 1 for s in a.shape):
        r = A.getitem(a, (0, slice(None)) if isinstance(a.shape[0], int) and a.shape[0] == 1 else (slice(None), 0))
        return snapshot_copy(r)
    raise Unsupported("flatten of a symbolic 2-d array")


def reshape(a, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    a = arr(a)
    if isinstance(a, np.ndarray):
        return a.reshape(*shape)
    shape = tuple(A.dim(s) for s in shape)
    if len(shape) == 2 and a.ndim == 1:
        if shape[1] == 1 or (isinstance(shape[0], int) and shape[0] == -1 and shape[1] == 1):
            if A.same_dim(shape[0], a.shape[0]) or shape[0] == -1:
                return A.getitem(a, (slice(None), None))
        if shape[0] == 1:
            return A.getitem(a, (None, slice(None)))
    if len(shape) == 1 and a.ndim in (1, 2):
        return flatten(a)
    if len(shape) == a.ndim and all(A.same_dim(x, y) for x, y in zip(shape, a.shape)):
        return a
    raise Unsupported("reshape")


@model(np.reshape)
def m_reshape(interp, a, shape):
    return reshape(a, shape)


@model(np.where)
def m_where(interp, c, *xy):
    if not deep_symbolic((c,) + xy):
        return np.where(c, *xy)
    if not xy:
        c = A.as_sarr(c)
        if c.ndim != 1:
            raise Unsupported("n-d where")
        return (A.nonzero1(truth_arr(c)),)
    return A.ew(lambda q, a, b: T.ite(_truthy(q), a, b), c, *xy)


def truth_arr(c):
    return c if c.dt == "b" else A.ew(_truthy, c, dt="b")


@model(np.nonzero, np.flatnonzero)
def m_nonzero(interp, c):
    if not deep_symbolic(c):
        return np.nonzero(c)
    return (A.nonzero1(truth_arr(A.as_sarr(c))),)


MODELS[id(np.flatnonzero)] = (np.flatnonzero, lambda interp, c: np.flatnonzero(c) if not deep_symbolic(c) else A.nonzero1(truth_arr(A.as_sarr(c))))


@model(np.clip)
def m_clip(interp, x, lo, hi):
    if not deep_symbolic((x, lo, hi)):
        return np.clip(x, lo, hi)
    r = x
    if lo is not None:
        r = A.ew(lambda a, b: T.max_(a, b), r, lo)
    if hi is not None:
        r = A.ew(lambda a, b: T.min_(a, b), r, hi)
    return r


@model(np.round, np.around)
def m_round(interp, x, decimals=0):
    if not deep_symbolic(x):
        return np.round(x, decimals)
    if not isinstance(decimals, int):
        raise Unsupported("round to a symbolic number of decimals")
    if decimals:
        f = T.pconst(T.Fraction(10) ** decimals)
        to = lambda z: _rint(T.lift(z) * f) / f
        return A.ew(lambda z: Cx(to(z.re), to(z.im)) if isinstance(z, Cx) else to(z), x)
    return A.ew(_rint, x)


@model(np.ndim)
def m_ndim(interp, x):
    return len(arr(x).shape) if isarr(x) else (0 if symbolic(x) else np.ndim(x))


@model(np.shape)
def m_shape(interp, x):
    return arr(x).shape if isarr(x) else (() if symbolic(x) else np.shape(x))


@model(np.size)
def m_size(interp, x):
    return arr(x).size if isarr(x) else (1 if symbolic(x) else np.size(x))


# --------------------------------------------------------------------------- reductions
@model(np.sum)
def m_sum(interp, x, axis=None, dtype=None):
    if not deep_symbolic(x):
        return np.sum(x, axis=axis)
    return A.reduce_sum(arr(x), None if axis is None else int(axis))


def count(a, axis=None):
    a = A.as_sarr(a)
    return a.size if axis is None else a.shape[axis]


@model(np.mean)
def m_mean(interp, x, axis=None):
    if not deep_symbolic(x):
        return np.mean(x, axis=axis)
    a = A.as_sarr(arr(x))
    if a.is_ma:
        if a.ndim != 1:
            raise Unsupported("masked n-d mean")
        m = a.msnap()
        n = T.sum_(a.shape[0], lambda i: T.lift(T.ite(m((A.dim(i),)), T.ZERO, T.ONE)))
        return MaskedMean(A.reduce_sum(a, None), n)
    s = A.reduce_sum(a, None if axis is None else int(axis))
    n = count(a, None if axis is None else int(axis) % a.ndim)
    return A.binop("/", s, T.lift(n)) if isinstance(s, SArr) else T.lift(s) / T.lift(n)


class MaskedMean:
    """mean of the unmasked values; masked when there are none"""
    _symobj = True

    def __init__(self, total, n):
        self.total, self.n = total, T.lift(n)

    def value(self):
        t = T.lift(self.total)
        return t / (Cx(self.n, T.ZERO) if isinstance(t, Cx) else self.n)

    def masked_when(self):
        return T.eq_(self.n, 0)

    def getattr(self, interp, name):
        raise Unsupported("attribute of a masked mean")

    def binop(self, *a):
        raise Unsupported("arithmetic on a masked mean")


def prod_(a, axis):
    a = A.as_sarr(a)
    if a.ndim == 0:
        return a.get()
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("prod over all axes")
        axis = 0
    n = a.shape[axis]
    if not isinstance(n, int):
        raise Unsupported("product of symbolic length")
    f = a.snap()

    def p(rest):
        r = T.ONE
        for i in range(n):
            r = r * T.lift(f(rest[:axis] + (i,) + rest[axis:]))
        return r

    if a.ndim == 1:
        return p(())
    return SArr(a.shape[:axis] + a.shape[axis + 1:], lambda idx: p(idx), a.dt)


@model(np.prod)
def m_prod(interp, x, axis=None):
    return np.prod(x, axis=axis) if not deep_symbolic(x) else prod_(arr(x), axis)


def anyall(f, red):
    def m(interp, x, axis=None):
        if not deep_symbolic(x):
            return red(x, axis=axis)
        if isinstance(x, B):
            return x
        a = A.as_sarr(arr(x))
        if axis is not None:
            raise Unsupported("any/all along an axis")
        if a.ndim == 0:
            return _truthy(a.get())
        if a.ndim == 1 and isinstance(a.shape[0], int):
            return f(*[_truthy(a.get(i)) for i in range(a.shape[0])])
        key = A.arr_key(truth_arr(a))
        v = key[2]
        if isinstance(v, (bool, np.bool_)) and a.ndim == 1:
            # constant truth: any() of an empty array is False, all() is True
            ne = T.cmp_("lt", 0, a.shape[0])
            return T.and_(v, ne) if f is T.or_ else T.or_(v, T.not_(ne))
        if f is T.or_:
            return A.any_of_key(key)
        # all(x) = not any(not x)
        k2 = A.arr_key(A.ew(lambda q: T.not_(_truthy(q)), a, dt="b"))
        return T.not_(A.any_of_key(k2))
    return m


MODELS[id(np.any)] = (np.any, anyall(T.or_, np.any))
MODELS[id(np.all)] = (np.all, anyall(T.and_, np.all))


def opaque_scalar(name, *keys, nonneg=False, cplx=False):
    if cplx:
        return Cx(T.app(name + ".re", *keys), T.app(name + ".im", *keys))
    return T.app(name, *keys, nonneg=nonneg)


def opaque_red(name, nonneg=False):
    def m(interp, x, axis=None, **kw):
        if kw:
            raise Unsupported(f"{name} with {list(kw)}")
        if axis is not None:
            raise Unsupported(f"{name} along an axis")
        interp.trusted.add(name)
        a = A.as_sarr(arr(x))
        if a.dt == "c":
            return opaque_scalar(name, A.arr_key(a), cplx=True)
        return opaque_scalar(name, A.arr_key(a), nonneg=nonneg)
    return m


def reg_opaque(native, name, nonneg=False):
    g = opaque_red(name, nonneg)

    def m(interp, x, *a, **k):
        if not deep_symbolic(x):
            return native(x, *a, **k)
        return g(interp, x, *a, **k)
    MODELS[id(native)] = (native, m)


reg_opaque(np.var, "var", True)
reg_opaque(np.std, "std", True)


@model(np.median)
def m_median(interp, x, axis=None):
    if not deep_symbolic(x):
        return np.median(x, axis=axis)
    if axis is not None:
        raise Unsupported("median along an axis")
    interp.trusted.add("numpy.median")
    a = A.as_sarr(arr(x))
    key = A.arr_key(a)
    if a.dt == "c":
        return opaque_scalar("median", key, cplx=True)
    nn = False
    try:
        vs = [T.fresh("q", "I", True) for _ in a.shape]
        nn = T.nonneg(T.lift(a.snap()(tuple(vs))))
    except Exception:
        pass
    return T.app("median", key, nonneg=nn)


def extremum(name, native):
    def m(interp, x, *rest, axis=None, **kw):
        if not deep_symbolic(x) and not deep_symbolic(rest):
            return native(x, *rest, axis=axis) if axis is not None else native(x, *rest)
        if axis is not None or kw:
            raise Unsupported(name)
        a = A.as_sarr(arr(x))
        if a.ndim == 1 and isinstance(a.shape[0], int) and 0 < a.shape[0] <= 4:
            r = T.lift(a.get(0))
            for i in range(1, a.shape[0]):
                r = (T.max_ if name == "max" else T.min_)(r, a.get(i))
            return r
        return T.app(name, A.arr_key(a))
    MODELS[id(native)] = (native, m)
    return m


m_max = extremum("max", np.max)
m_min = extremum("min", np.min)
MODELS[id(np.amax)] = (np.amax, m_max)
MODELS[id(np.amin)] = (np.amin, m_min)


@model(np.ptp)
def m_ptp(interp, x):
    return np.ptp(x) if not deep_symbolic(x) else T.lift(m_max(interp, x)) - T.lift(m_min(interp, x))


@model(np.diff)
def m_diff(interp, x):
    if not deep_symbolic(x):
        return np.diff(x)
    a = A.as_sarr(x)
    f = a.snap()
    return SArr((A.dim(T.lift(a.shape[0]) - 1),), lambda idx: T.lift(f((A.dim(T.lift(idx[0]) + 1),))) - T.lift(f(idx)), a.dt)


@model(np.unique)
def m_unique(interp, x):
    if not deep_symbolic(x):
        return np.unique(x)
    a = A.as_sarr(x)
    key = A.arr_key(a)
    n = T.app("nunique", key, sort="I", nonneg=True)
    return SArr((n,), lambda idx: T.app("unique", key, T.lift(idx[0])), a.dt)


def argsort(interp, a):
    a = A.as_sarr(a)
    key = A.arr_key(a)
    interp.trusted.add("numpy.argsort")
    n = a.shape[0]
    return SArr((n,), lambda idx: T.app("argsort", key, T.lift(idx[0]), sort="I", nonneg=True), "i")


@model(np.argsort)
def m_argsort(interp, x, axis=-1, kind=None, stable=None):
    return np.argsort(x) if not deep_symbolic(x) else argsort(interp, x)


@model(np.searchsorted)
def m_searchsorted(interp, a, v, side="left", sorter=None):
    if not deep_symbolic((a, v)):
        return np.searchsorted(a, v, side=side)
    if sorter is not None:
        raise Unsupported("sorter")
    interp.trusted.add("numpy.searchsorted")
    a = A.as_sarr(a)
    key = A.arr_key(a)
    n = T.lift(a.shape[0])
    r = A.ew(lambda q: T.app("searchsorted:" + side, key, T.lift(q), sort="I", nonneg=True), v)
    # axioms: a position lies in 0..n and does not decrease with the value searched
    for q in [r] if not isinstance(r, SArr) else [r.get(i) for i in range(r.shape[0])] if r.ndim == 1 and isinstance(r.shape[0], int) else []:
        c = T.cmp_("le", q, n)
        if not isinstance(c, bool):
            A.CTX.assume(c)
    if isinstance(r, SArr) and isinstance(v, (list, tuple, np.ndarray)) and not deep_symbolic(v):
        o = np.argsort(np.asarray(v, float), kind="stable")
        for i, j in zip(o[:-1], o[1:]):
            c = T.cmp_("le", r.get(int(i)), r.get(int(j)))
            if not isinstance(c, bool):
                A.CTX.assume(c)
    return r


@model(np.interp)
def m_interp(interp, x, xp, fp, left=None, right=None, period=None):
    if not deep_symbolic((x, xp, fp)):
        return np.interp(x, xp, fp)
    if period is not None or left is not None or right is not None:
        raise Unsupported("interp options")
    interp.trusted.add("numpy.interp")
    k1, k2 = A.arr_key(A.as_sarr(arr(xp))), A.arr_key(A.as_sarr(arr(fp)))
    return A.ew(lambda q: T.app("interp", T.lift(q), k1, k2, nonneg=k2[2] == T.bv(-1)), x)


# interpolation in the numbers 0, 1, ..., n-1 stays between 0 and n-1
T.UPPER["interp"] = lambda a: a[3][1][0] - 1 if len(a) == 4 and isinstance(a[3], tuple) and len(a[3]) == 3 and a[3][2] == T.bv(-1) else None


@model(slice)
def m_slice(interp, *a):
    a = [A.dim(x) if isinstance(x, Poly) else x for x in a]
    return slice(*a)


@model(np.cumsum)
def m_cumsum(interp, x):
    if not deep_symbolic(x):
        return np.cumsum(x)
    a = A.as_sarr(arr(x))
    if a.ndim != 1 or not isinstance(a.shape[0], int) or a.is_ma:
        raise Unsupported("cumsum")
    out, tot = [], T.ZERO
    for i in range(a.shape[0]):
        tot = tot + T.lift(A.getitem(a, i))
        out.append(tot)
    return A.stack_list(out)


@model(np.flip)
def m_flip(interp, x, axis=None):
    if not deep_symbolic(x):
        return np.flip(x, axis)
    a = A.as_sarr(arr(x))
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    return A.getitem(a, tuple(slice(None, None, -1) if k in ax else slice(None) for k in range(a.ndim)))


@model(np.einsum)
def m_einsum(interp, spec, *ops):
    if not deep_symbolic(ops):
        return np.einsum(spec, *ops)
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    ops = [A.as_sarr(arr(o)) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        for ch, d in zip(s, o.shape):
            if ch in dims and not A.same_dim(dims[ch], d):
                raise ProgExc(ValueError("einsum dimension mismatch"), "einsum")
            dims.setdefault(ch, d)
    summed = [ch for ch in dims if ch not in out]
    snaps = [o.snap() for o in ops]

    def val(env):
        r = T.ONE
        for s, f in zip(ins, snaps):
            r = r * T.lift(f(tuple(env[ch] for ch in s)))
        return r

    def rec(env, todo):
        if not todo:
            return val(env)
        ch = todo[0]
        return T.sum_(dims[ch], lambda i: rec({**env, ch: A.dim(i)}, todo[1:]))

    if not out:
        return rec({}, summed)
    return SArr(tuple(dims[ch] for ch in out), lambda idx: rec(dict(zip(out, idx)), summed), A.join_kind(*[o.dt for o in ops]))


# --------------------------------------------------------------------------- linear algebra (opaque)
def opaque_array(name, keys, shape, dt, nonneg=False):
    def f(idx):
        ii = tuple(map(T.lift, idx))
        if dt == "c":
            return Cx(T.app(name + ".re", *keys, *ii), T.app(name + ".im", *keys, *ii))
        return T.app(name, *keys, *ii, nonneg=nonneg)
    return SArr(shape, f, dt)


@model(np.linalg.lstsq)
def m_lstsq(interp, a, b, rcond=None):
    a, b = A.as_sarr(arr(a)), A.as_sarr(arr(b))
    interp.trusted.add("numpy.linalg.lstsq")
    interp.events.append(("lstsq", a, b, rcond))
    h = interp.lstsq_hook if hasattr(interp, "lstsq_hook") else None
    if h is not None:
        return h(interp, a, b, rcond)
    ka, kb = A.arr_key(a), A.arr_key(b)
    dt = A.join_kind(a.dt, b.dt, "f")
    x = opaque_array("lstsq.x", (ka, kb), (a.shape[1],), dt)
    res = opaque_array("lstsq.res", (ka, kb), (T.app("lstsq.nres", ka, kb, sort="I", nonneg=True),), "f", True)
    rank = T.app("lstsq.rank", ka, kb, sort="I", nonneg=True)
    sv = opaque_array("lstsq.sv", (ka,), (a.shape[1],), "f", True)
    return x, res, rank, sv


def matfun(native, name):
    def m(interp, a):
        if not deep_symbolic(a):
            return native(a)
        a = A.as_sarr(a)
        interp.trusted.add(native.__module__ + "." + native.__name__)
        sh = a.shape if name == "inv" else (a.shape[1], a.shape[0])
        return opaque_array(name, (A.arr_key(a),), sh, A.join_kind(a.dt, "f"))
    MODELS[id(native)] = (native, m)


matfun(np.linalg.inv, "inv")
matfun(np.linalg.pinv, "pinv")


@model(np.linalg.svd)
def m_svd(interp, a, full_matrices=True):
    a = A.as_sarr(a)
    interp.trusted.add("numpy.linalg.svd")
    k = A.arr_key(a)
    n, m = a.shape
    if not A.same_dim(n, m):
        raise Unsupported("svd of a non-square matrix")
    dt = A.join_kind(a.dt, "f")
    return opaque_array("svd.U", (k,), (n, n), dt), opaque_array("svd.S", (k,), (n,), "f", True), opaque_array("svd.V", (k,), (m, m), dt)


def eigenvalues(native, name, dt):
    def m(interp, a, *x):
        if not deep_symbolic(a):
            return native(a, *x)
        a = A.as_sarr(a)
        interp.trusted.add(native.__module__ + "." + native.__name__)
        return opaque_array(name, (A.arr_key(a),), (a.shape[0],), A.join_kind(a.dt, dt))
    MODELS[id(native)] = (native, m)


eigenvalues(np.linalg.eigvals, "eigvals", "f")
eigenvalues(np.linalg.eigvalsh, "eigvalsh", "f")


@model(np.linalg.cholesky)
def m_cholesky(interp, a):
    """succeeds exactly on the matrices it finds positive definite"""
    if not deep_symbolic(a):
        return np.linalg.cholesky(a)
    a = A.as_sarr(a)
    interp.trusted.add("numpy.linalg.cholesky")
    k = A.arr_key(a)
    if not ENGINE.decide(T.bapp("posdef", k)):
        raise ProgExc(np.linalg.LinAlgError("Matrix is not positive definite"), "cholesky")
    return opaque_array("cholesky", (k,), a.shape, A.join_kind(a.dt, "f"))


@model(np.diag_indices)
def m_diag_indices(interp, n, ndim=2):
    r = m_arange(interp, n)
    return tuple(r for _ in range(ndim))


@model(np.fill_diagonal)
def m_fill_diagonal(interp, a, val, wrap=False):
    if a.owner == "input":
        interp.frame_violations.append("fill_diagonal of an input array")
    if not A.is_arr(val):
        a.write(lambda idx: T.eq_(T.lift(idx[0]), T.lift(idx[1])), lambda idx: T.lift(val))
        return
    r = m_arange(interp, a.shape[0])
    A.setitem(a, (r, r), val)


@model(np.linalg.norm)
def m_norm(interp, a):
    a = A.as_sarr(a)
    return T.sqrt_(A.reduce_sum(A.ew(lambda v: T.abs_(v) * T.abs_(v), a)))


# --------------------------------------------------------------------------- fft / random / signal (opaque)
@model(np.fft.rfft)
def m_rfft(interp, a):
    a = A.as_sarr(a)
    interp.trusted.add("numpy.fft.rfft")
    n = T.lift(a.shape[0])
    f = a.snap()
    m = T.floor_(n / 2) + 1

    def el(idx):
        # definition of the discrete Fourier transform
        k = T.lift(idx[0])
        s = T.sum_(n, lambda j: T.lift(f((A.dim(j),))) * T.exp_(Cx(T.ZERO, -2 * T.PI * k * j / n)))
        return Cx.of(s)

    return SArr((A.dim(m),), el, "c")


@model(scipy.signal.windows.hann)
def m_hann(interp, n, sym=True):
    interp.trusted.add("scipy.signal.windows.hann")
    n = T.lift(n)
    if not isinstance(sym, bool):
        raise Unsupported("hann")
    ok = A.res(T.cmp_("lt", 1, n))
    if ok is not True:
        raise Unsupported("window of unknown length")
    d = n - 1 if sym else n
    return SArr((A.dim(n),), lambda idx: (1 - T.cis(2 * T.PI * T.lift(idx[0]) / d)[0]) / 2, "f")


@model(scipy.signal.lombscargle)
def m_lombscargle(interp, t, x, w, *a, **k):
    if a or k:
        raise Unsupported("options of lombscargle")
    interp.trusted.add("scipy.signal.lombscargle")
    t, x, w = (A.as_sarr(z) for z in (t, x, w))
    if "c" in (t.dt, x.dt, w.dt):
        raise Unsupported("complex lombscargle")
    if w.ndim != 1 or t.ndim != 1 or not A.same_dim(t.shape[0], x.shape[0]):
        raise ProgExc(ValueError("lombscargle: shapes"), "lombscargle")
    k1, k2 = A.arr_key(t), A.arr_key(x)
    f = w.snap()
    at = lambda idx: T.app("lombscargle", k1, k2, T.lift(f(idx)), nonneg=True)
    m = w.shape[0]
    if m == 0 or not isinstance(m, int) and ENGINE.decide(T.eq_(T.lift(m), T.ZERO)):
        raise ProgExc(ValueError("lombscargle: no frequencies"), "lombscargle")
    if m == 1 or not isinstance(m, int) and ENGINE.decide(T.eq_(T.lift(m), T.ONE)):
        return SArr((), lambda idx: at((0,)), "f")          # the result is squeezed
    return SArr((m,), at, "f")


@model(np.random.multivariate_normal)
def m_mvn(interp, mean, cov, size=None, **kw):
    interp.trusted.add("numpy.random.multivariate_normal")
    mean = A.as_sarr(list(mean) if isinstance(mean, tuple) else mean)
    cov = A.as_sarr(cov)
    interp.events.append(("mvn", mean, cov, size))
    d = mean.shape[0]
    km, kc = A.arr_key(mean), A.arr_key(cov)
    return SArr((A.dim(size), d), lambda idx: T.app("mvn", km, kc, T.lift(size), *map(T.lift, idx)), "f")


# --------------------------------------------------------------------------- masked arrays
@model(np.ma.masked_invalid)
def m_masked_invalid(interp, x, copy=True):
    if not deep_symbolic(x):
        return np.ma.masked_invalid(x)
    a = A.as_sarr(x)
    f, m = a.snap(), a.msnap()
    r = SArr(a.shape, f, a.dt, is_ma=True, mask=lambda idx: T.or_(m(idx), T.not_(_isfinite(f(idx)))))
    if not copy:
        r.alias = a
    return r


@model(np.ma.masked_where)
def m_masked_where(interp, cond, x, copy=True):
    if not deep_symbolic((cond, x)):
        return np.ma.masked_where(cond, x, copy=copy)
    a, c = A.as_sarr(x), A.as_sarr(cond)
    if c.ndim != a.ndim:
        raise Unsupported("masked_where with different shapes")
    f, m, g = a.snap(), a.msnap(), c.snap()
    cm = c.msnap() if c.is_ma else (lambda idx: False)        # a masked condition masks
    r = SArr(a.shape, f, a.dt, is_ma=True, mask=lambda idx: T.or_(m(idx), g(idx), cm(idx)))
    if not copy:
        r.alias = a
    return r


@model(np.ma.getmaskarray)
def m_getmaskarray(interp, x):
    if not deep_symbolic(x):
        return np.ma.getmaskarray(x)
    a = A.as_sarr(x)
    m = a.msnap() if a.is_ma else (lambda idx: False)
    r = SArr(a.shape, lambda idx: m(idx), "b")
    if a.is_ma:
        r.alias = a
    if a.sel is not None and getattr(a, "sel_mask", None) is not None:
        r.sel = (a.sel[0], a.sel[1], a.sel_mask)
    return r


@model(np.ma.getdata)
def m_getdata(interp, x, subok=True):
    if not deep_symbolic(x):
        return np.ma.getdata(x)
    if hasattr(x, "_symobj"):
        return x.getdata()
    a = A.as_sarr(x)
    if not a.is_ma:
        return a
    if a.sel is not None:
        raise Unsupported("getdata of a selected masked array")
    r = SArr(a.shape, a.snap(), a.dt, owner=a.owner)
    r.alias = a
    return r


@model(np.ma.getmask)
def m_getmask(interp, x):
    return m_getmaskarray(interp, x)


@model(np.ma.is_masked)
def m_is_masked(interp, x):
    if x is None or not deep_symbolic(x):
        return np.ma.is_masked(x)
    a = A.as_sarr(x)
    if not a.is_ma:
        return False
    return anyall(T.or_, np.any)(interp, SArr(a.shape, a.msnap(), "b"))


@model(np.ma.mask_or)
def m_mask_or(interp, a, b):
    if not deep_symbolic((a, b)):
        return np.ma.mask_or(a, b)
    return A.ew(T.or_, a, b, dt="b")


@model(np.ma.array)
def m_ma_array(interp, x, mask=None, copy=False, dtype=None):
    if mask is not None:
        a = A.as_sarr(x)
        mm = A.as_sarr(mask)
        ms = mm.snap()
        return SArr(a.shape, a.snap(), a.dt, is_ma=True, mask=lambda idx: ms(A.bidx(idx, mm.shape)))
    a = A.as_sarr(arr(x))
    m = a.msnap() if a.is_ma else (lambda idx: False)
    if not copy:
        raise Unsupported("np.ma.array without copy")
    return SArr(a.shape, a.snap(), a.dt, is_ma=True, mask=m)


@model(np.ma.zeros)
def m_ma_zeros(interp, shape, dtype=None):
    return filled_arr(shape, 0, dt_of(dtype), ma=True)


@model(np.ma.isMaskedArray, np.ma.isMA, np.ma.isarray)
def m_isma(interp, x):
    return x.is_ma if isinstance(x, SArr) else np.ma.isMaskedArray(x)


# --------------------------------------------------------------------------- builtins
@model(len)
def m_len(interp, x):
    if isinstance(x, SArr):
        if not x.shape:
            raise ProgExc(TypeError("len() of unsized object"), "len")
        return x.shape[0]
    if isinstance(x, SList):
        return x.n
    if hasattr(x, "_symobj"):
        return x.length()
    try:
        return len(x)
    except TypeError as e:
        raise ProgExc(e, "len")


@model(range)
def m_range(interp, *a):
    if not deep_symbolic(a):
        return range(*a)
    a = [A.dim(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range with a symbolic step")
    n = T.lift(hi) - T.lift(lo)
    ok = ENGINE.resolve(T.cmp_("le", 0, n))
    if ok is not True:
        n = T.max_(n, T.ZERO)
    s = SIter(A.dim(n), lambda i: T.lift(lo) + T.lift(i))
    s.plain = True
    return s


TYPE_MODELS[range] = m_range


def items_of(interp, x):
    return interp.iterate(x)


def m_enumerate(interp, x, start=0):
    it = interp.iterate(x)
    if isinstance(it, SIter):
        s = SIter(it.n, lambda i: (T.lift(i) + start if start else (i if isinstance(i, int) else T.lift(i)), it.f(i)))
        s.plain = False
        return s
    return list(enumerate(list(it), start))


TYPE_MODELS[enumerate] = m_enumerate


def m_zip(interp, *xs, strict=False):
    its = [interp.iterate(x) for x in xs]
    if any(isinstance(i, SIter) for i in its):
        n = None
        for i in its:
            if isinstance(i, SIter):
                if n is None:
                    n = i.n
                elif not A.same_dim(n, i.n):
                    raise Unsupported("zip of different symbolic lengths")
        if not all(isinstance(i, SIter) for i in its):
            raise Unsupported("zip of symbolic and concrete sequences")
        s = SIter(n, lambda k: tuple(i.f(k) for i in its))
        s.plain = False
        return s
    return list(zip(*[list(i) for i in its], strict=strict))


TYPE_MODELS[zip] = m_zip


def m_list(interp, x=()):
    if isinstance(x, (dict, str)):
        return list(x)
    it = interp.iterate(x)
    if isinstance(it, SIter):
        if isinstance(x, SList):
            return SList(x.arr)
        if isinstance(x, SArr):
            return SList(SArr(x.shape, x.snap(), x.dt, pieces=dict(x.pieces), sel=x.sel))
        dt = A.kind_of_value(it.f(T.fresh("i", "I", True)))
        return SList(SArr((it.n,), lambda idx: it.f(idx[0]), dt))
    return list(it)


TYPE_MODELS[list] = m_list


def m_tuple(interp, x=()):
    r = m_list(interp, x)
    return r if isinstance(r, SList) else tuple(r)


TYPE_MODELS[tuple] = m_tuple


def m_set(interp, x=()):
    if hasattr(x, "_symobj"):
        raise Unsupported("set of a symbolic object")
    if isinstance(x, SList) or isinstance(x, SArr):
        r = m_list(interp, x)
        return SymSet(list(r)) if isinstance(r, list) else r
    items = list(interp.iterate(x))
    if any(symbolic(i) for i in items):
        return SymSet(items)
    return set(items)


TYPE_MODELS[set] = m_set
TYPE_MODELS[frozenset] = m_set


def m_float(interp, x=0):
    if isinstance(x, (Poly, B)):
        return T.lift(x)
    if isinstance(x, SArr) and x.size == 1:
        return T.lift(x.get(*[0] * x.ndim))
    if symbolic(x):
        raise Unsupported("float()")
    try:
        return float(x)
    except Exception as e:
        raise ProgExc(e, "float")


TYPE_MODELS[float] = m_float


def m_int(interp, x=0, *a):
    if isinstance(x, SArr) and x.size == 1:
        x = x.get(*[0] * x.ndim)
    if isinstance(x, (Poly, B)):
        x = T.lift(x)
        return A.dim(x) if T.is_int(x) else T.trunc_(x)
    if symbolic(x):
        raise Unsupported("int()")
    try:
        return int(x, *a)
    except Exception as e:
        raise ProgExc(e, "int")


TYPE_MODELS[int] = m_int


def m_bool(interp, x=False):
    if isinstance(x, B):
        return x
    if isinstance(x, Poly):
        return _truthy(x)
    return interp.truth(x)


TYPE_MODELS[bool] = m_bool


def m_complex(interp, re=0, im=0):
    return Cx(T.lift(re), T.lift(im)) if deep_symbolic((re, im)) else complex(re, im)


TYPE_MODELS[complex] = m_complex


def m_str(interp, x=""):
    return "<sym>" if deep_symbolic(x) else str(x)


TYPE_MODELS[str] = m_str


def m_dict(interp, *a, **k):
    return dict(*a, **k)


TYPE_MODELS[dict] = m_dict


@model(min)
def m_pymin(interp, *a, **k):
    return _pyext(interp, a, k, min, T.min_)


@model(max)
def m_pymax(interp, *a, **k):
    return _pyext(interp, a, k, max, T.max_)


def _pyext(interp, a, k, f, g):
    if not deep_symbolic(a):
        return f(*a, **k)
    if k:
        raise Unsupported("min/max with key")
    xs = list(a) if len(a) > 1 else list(interp.iterate(a[0]))
    r = T.lift(xs[0])
    for x in xs[1:]:
        r = g(r, x)
    return A.dim(r) if T.is_int(r) else r


@model(builtins.abs)
def m_pyabs(interp, x):
    return A.ew(T.abs_, x) if deep_symbolic(x) else abs(x)


@model(builtins.sum)
def m_pysum(interp, x, start=0):
    if not deep_symbolic(x):
        return sum(x, start)
    if isinstance(x, SArr):
        r = A.reduce_sum(x, 0)
        return interp.binop("+", r, start) if not (isinstance(start, int) and start == 0) else r
    if isinstance(x, SList):
        return interp.binop("+", A.reduce_sum(x.arr, 0), start)
    r = start
    for v in interp.iterate(x):
        r = interp.binop("+", r, v)
    return r


@model(builtins.any)
def m_pyany(interp, x):
    if not deep_symbolic(x):
        return any(x)
    if isinstance(x, (SList, SArr)):
        return anyall(T.or_, np.any)(interp, arr(x))
    return T.or_(*[_truthy(v) if isinstance(v, (B, Poly, bool)) else interp.truth(v) for v in interp.iterate(x)])


@model(builtins.all)
def m_pyall(interp, x):
    if not deep_symbolic(x):
        return all(x)
    if isinstance(x, (SList, SArr)):
        return anyall(T.and_, np.all)(interp, arr(x))
    return T.and_(*[_truthy(v) if isinstance(v, (B, Poly, bool)) else interp.truth(v) for v in interp.iterate(x)])


@model(builtins.round)
def m_pyround(interp, x, n=None):
    if not deep_symbolic(x):
        return round(x, n) if n is not None else round(x)
    return _rint(x)


@model(builtins.sorted)
def m_sorted(interp, x, **k):
    if deep_symbolic(x):
        if isinstance(x, (SList, SArr)) and not k:
            a = A.as_sarr(x)
            if a.dt == "O" and a.ndim == 1:
                return SortedSeq(A.arr_key(a), a.shape[0])
        raise Unsupported("sorted of symbolic values")
    return sorted(x, **k)


@model(builtins.reversed)
def m_reversed(interp, x):
    return list(interp.iterate(x))[::-1]


TYPE_MODELS[reversed] = m_reversed


@model(isinstance)
def m_isinstance(interp, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(x, SName):
        return str in ts
    if isinstance(x, SList):
        return list in ts
    if isinstance(x, SArr):
        return np.ndarray in ts or (x.is_ma and np.ma.MaskedArray in ts)
    if isinstance(x, B):
        return bool in ts or np.bool_ in ts
    if isinstance(x, Poly):
        if T.is_int(x):
            return any(q in ts for q in (int, np.integer))
        return any(q in ts for q in (float, np.floating, np.number))
    if isinstance(x, Cx):
        return complex in ts
    if hasattr(x, "_symobj"):
        return x.isinstance(ts)
    return isinstance(x, t)


@model(np.iterable)
def m_iterable(interp, x):
    if isinstance(x, (SList, SArr)):
        return not (isinstance(x, SArr) and not x.shape)
    if hasattr(x, "_optval"):
        return x.iterable()
    if symbolic(x):
        return False
    return bool(np.iterable(x))


@model(builtins.getattr)
def m_getattr(interp, o, name, *d):
    try:
        return interp.getattr(o, name)
    except ProgExc as e:
        if d and isinstance(e.exc, AttributeError):
            return d[0]
        raise


@model(builtins.hasattr)
def m_hasattr(interp, o, name):
    try:
        interp.getattr(o, name)
        return True
    except ProgExc:
        return False


@model(builtins.print)
def m_print(interp, *a, **k):
    return None


@model(warnings.warn)
def m_warn(interp, *a, **k):
    interp.events.append(("warn",) + tuple(str(x) for x in a[:1]))
    return None


@model(builtins.map)
def m_map(interp, f, *xs):
    its = [interp.iterate(x) for x in xs]
    if any(isinstance(i, SIter) for i in its):
        raise Unsupported("map over a symbolic sequence")
    return [interp.call(f, v) for v in zip(*its)]


TYPE_MODELS[map] = m_map


@model(filter)
def m_filter(interp, f, x):
    from .interp import Env
    node = ast.parse("[_x for _x in _s if %s]" % ("_x" if f is None else "_f(_x)"), mode="eval").body
    env = Env({}, None, "filter", "")
    env.vars.update(_f=f, _s=x)
    return interp.comp(node, env, "list")


TYPE_MODELS[filter] = m_filter


@model(np.allclose, np.isclose, np.array_equal)
def m_close(interp, *a, **k):
    if not deep_symbolic(a):
        return np.allclose(*a, **k)
    raise Unsupported("allclose")


@model(np.nan_to_num)
def m_nan_to_num(interp, x, **k):
    raise Unsupported("nan_to_num")


# --------------------------------------------------------------------------- attributes and methods of symbolic values
def meth(f):
    return lambda interp, o: Bound(f, o)


def _m(fname):
    return lambda interp, o, *a, **k: MODELS[id(fname)][1](interp, o, *a, **k)


def me_astype(interp, o, dt, copy=True, **k):
    if isinstance(o, (Poly, Cx, B)):
        return astype_scalar(o, dt)
    return astype(o, dt)


def me_copy(interp, o, *a, **k):
    return snapshot_copy(o) if isinstance(o, (SArr, np.ndarray)) else o


def me_compressed(interp, o):
    if not o.is_ma:
        raise ProgExc(AttributeError("compressed"), "compressed")
    m = o.msnap()
    keep = SArr(o.shape, lambda idx: T.not_(m(idx)), "b")
    plain = SArr(o.shape, o.snap(), o.dt, sel=o.sel)
    if o.sel is not None:
        sm = getattr(o, "sel_mask", None)
        if sm is None:
            raise Unsupported("compressed() of a compressed masked array")
        keep.sel = (o.sel[0], o.sel[1], lambda idx: T.not_(sm(idx)))
    r = A.compress(plain, keep)
    r = SArr(r.shape, r.snap(), r.dt, sel=r.sel)
    r.alias = o
    return r


def me_compress(interp, o, mask, *a, **k):
    return A.compress(o, mask)


def me_filled(interp, o, fill_value=None):
    if not o.is_ma:
        raise ProgExc(AttributeError("filled"), "filled")
    f, m = o.snap(), o.msnap()
    dv = T.pconst(10) ** 20 if fill_value is None else T.lift(fill_value)
    if o.ndim == 1 and A.all_known(SArr(o.shape, lambda idx: T.not_(m(idx)), "b")):
        r = SArr(o.shape, f, o.dt, sel=o.sel)          # nothing is masked
        r.alias = o
        return r

    def fn(idx):
        mm = A.res(m(idx))
        if mm is True:
            return A.cast(dv, o.dt)
        if mm is False:
            return f(idx)
        return T.ite(mm, A.cast(dv, o.dt), f(idx))

    r = SArr(o.shape, fn, o.dt)
    if o.sel is not None:
        sm = getattr(o, "sel_mask", None)
        orig = o.sel[2]
        if sm is not None:
            mB = o.sel[0]

            def ofn(idx):
                # a selected entry is unmasked when the selection mask says so
                q = sm(idx)
                here = T.subst(mB, {T.the_atom(T.bv(-1)): T.lift(idx[0])}) if isinstance(mB, B) else mB
                if q is False or T.and_(here, q) is False or implies(here, T.not_(q)):
                    return orig(idx)
                return T.ite(q, A.cast(dv, o.dt), orig(idx))
            r.sel = (o.sel[0], o.sel[1], ofn)

            def fn2(idx):
                return ofn((A.dim(T.lift(A.sel_index(o.sel[0], o.sel[1], idx[0]))),) + idx[1:])
            r._fn = A.memoize(fn2)
        else:
            r.sel = o.sel
    return r


def implies(a, b):
    """propositional implication over the same literals (sufficient)"""
    if b is True or a is False:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    bs = b.a if b.k == "and" else (b,)
    as_ = a.a if a.k == "and" else (a,)
    return all(x in as_ for x in bs)


def me_fill(interp, o, v):
    A.assign(o, None, v)


def me_item(interp, o, *a):
    return o.get(*[0] * o.ndim) if isinstance(o, SArr) else o


def me_tolist(interp, o):
    return m_list(interp, o)


def me_reshape(interp, o, *s):
    return reshape(o, *s)


def me_ptp(interp, o):
    return m_ptp(interp, o)


def me_argsort(interp, o, *a, **k):
    return argsort(interp, o)


def me_sort(interp, o, *a, **k):
    raise Unsupported("in-place sort")


def me_dot(interp, o, b):
    return m_dot(interp, o, b)


def me_index(interp, o, x):
    """list.index of a symbolic list: the first position holding x"""
    a = o.arr
    xv = x.idx if isinstance(x, SName) else T.lift(x)
    return T.app("index", A.arr_key(a), xv, sort="I", nonneg=True)


METHODS = {
    "sum": lambda i, o, axis=None, **k: m_sum(i, o, axis), "mean": lambda i, o, axis=None, **k: m_mean(i, o, axis),
    "conj": _m(np.conj), "conjugate": _m(np.conj), "copy": me_copy, "astype": me_astype, "compressed": me_compressed,
    "compress": me_compress, "filled": me_filled, "fill": me_fill, "item": me_item, "tolist": me_tolist, "reshape": me_reshape,
    "any": lambda i, o, **k: MODELS[id(np.any)][1](i, o, **k), "all": lambda i, o, **k: MODELS[id(np.all)][1](i, o, **k),
    "flatten": lambda i, o: flatten(o), "ravel": lambda i, o: flatten(o), "squeeze": lambda i, o, axis=None: m_squeeze(i, o),
    "argsort": me_argsort, "sort": me_sort, "dot": me_dot, "max": lambda i, o: m_max(i, o), "min": lambda i, o: m_min(i, o),
    "transpose": lambda i, o, *a: m_transpose(i, o, a if a else None), "ptp": me_ptp, "prod": lambda i, o, axis=None: prod_(o, axis),
    "clip": lambda i, o, lo=None, hi=None: m_clip(i, o, lo, hi), "round": lambda i, o, d=0: m_round(i, o, d),
    "var": lambda i, o: MODELS[id(np.var)][1](i, o), "std": lambda i, o: MODELS[id(np.std)][1](i, o),
    "nonzero": lambda i, o: m_nonzero(i, o), "trace": lambda i, o: m_trace(i, o), "diagonal": lambda i, o: m_diag(i, o),
    "repeat": None, "view": None,
}

LIST_METHODS = {
    "append": lambda i, o, v: o.append(v), "extend": lambda i, o, v: o.extend(v), "copy": lambda i, o: SList(o.arr),
    "index": me_index,
}


def sym_getattr(interp, o, name):
    if isinstance(o, SList):
        f = LIST_METHODS.get(name)
        if f is None:
            raise Unsupported(f"list method {name}")
        return Bound(f, o)
    if isinstance(o, SArr):
        if name in ("shape", "ndim", "size", "dtype", "T", "real", "imag", "data"):
            r = getattr(o, name)
            return r
        if name == "mask":
            if o.is_ma:
                return m_getmaskarray(interp, o)
            raise ProgExc(AttributeError("'numpy.ndarray' object has no attribute 'mask'"), "attribute")
    else:
        if name in ("real", "imag"):
            if isinstance(o, B):
                o = T.lift(o)
            return T.re_(o) if name == "real" else T.im_(o)
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name == "T":
            return o
        if name == "dtype":
            return A.DType(A.kind_of_value(o))
    f = METHODS.get(name)
    if f is None:
        raise Unsupported(f"attribute {name} of {type(o).__name__}")
    return Bound(f, o)


def nd_getattr(interp, o, name):
    """attributes of concrete arrays; methods are wrapped so that symbolic arguments are noticed"""
    try:
        v = getattr(o, name)
    except AttributeError as e:
        raise ProgExc(e, "attribute")
    if not callable(v):
        return v

    def call(i, obj, *a, **k):
        if name == "copy":
            return own(obj)
        if name == "astype":
            r = v(*a, **k)
            if isinstance(r, np.ndarray):
                OWNED[id(r)] = r
            return r
        if deep_symbolic(a) or deep_symbolic(k):
            f = METHODS.get(name)
            if f is None:
                raise Unsupported(f"method {name} with symbolic arguments")
            return f(i, A.as_sarr(obj), *a, **k)
        if name in ("sort", "fill", "put", "resize", "itemset", "partition") and OWNED.get(id(obj)) is not obj:
            interp.frame_violations.append(f"in-place method {name} on a shared array")
            raise Unsupported("in-place method on a shared array")
        try:
            r = v(*a, **k)
        except Exception as e:
            raise ProgExc(e, name)
        if isinstance(r, np.ndarray) and r.base is None:
            OWNED[id(r)] = r
        return r

    return Bound(call, o)
