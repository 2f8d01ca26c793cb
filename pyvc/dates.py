"""Arrays of numpy datetime64 / timedelta64 as integer-valued terms with a unit (numpy's conversion rules:
to a coarser unit by flooring, to a finer one exactly; NaT propagates and becomes nan as a number)."""
from __future__ import annotations

from fractions import Fraction

import numpy as np

from . import arrays as A
from . import npmodel as N
from . import terms as T
from .arrays import SArr
from .interp import ProgExc
from .npmodel import Bound
from .terms import Unsupported

NS = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "h": 3600 * 10 ** 9, "D": 86400 * 10 ** 9}


class DDType:
    def __init__(self, kind, unit):
        self.kind, self.unit = kind, unit

    _symobj = True

    def getattr(self, interp, name):
        if name == "kind":
            return self.kind
        raise Unsupported(f"attribute {name} of a date dtype")

    def binop(self, interp, op, a, b):
        o = b if a is self else a
        try:
            d = np.dtype(o)
            same = d.kind == self.kind and (self.kind == "O" or np.datetime_data(d)[0] == self.unit)
        except Exception:
            raise Unsupported("dtype comparison")
        if op in ("==", "!="):
            return same if op == "==" else not same
        raise Unsupported("dtype operation")


def parse(dt):
    d = np.dtype(dt)
    if d.kind not in "Mm":
        return d.kind, None
    u, k = np.datetime_data(d)
    if k != 1 or u not in NS:
        raise Unsupported(f"unit {d}")
    return d.kind, u


def convert(v, u, w):
    """integer count of unit u as an integer count of unit w"""
    if u == w or v is T.NAN:
        return v
    r = Fraction(NS[u], NS[w])
    x = v * T.pconst(r)
    return x if r.denominator == 1 else T.floor_(x)


class Dates:
    """kind 'M' (instants) or 'm' (durations), unit; or 'O': date objects, exact to the microsecond"""
    _symobj = True

    def __init__(self, arr, kind, unit, obj=False, bad=False):
        self.arr, self.kind, self.unit, self.obj, self.bad = arr, kind, unit, obj, bad

    def asarray(self, interp):
        return self

    def getdata(self):
        a = self.arr
        return Dates(SArr(a.shape, a.snap(), a.dt, owner=a.owner), self.kind, self.unit, self.obj, self.bad)

    def isinstance(self, ts):
        """an array of dates, or (0-d objects) a date the caller handed over"""
        if self.arr.ndim == 0:
            raise Unsupported("type of a date")
        return np.ndarray in ts or (self.arr.is_ma and np.ma.MaskedArray in ts)

    def contains(self, x):
        raise Unsupported("membership in dates")

    def iterate(self):
        raise Unsupported("iteration over dates")

    def truth(self):
        raise Unsupported("truth value of dates")

    def getitem(self, k):
        return Dates(A.getitem(self.arr, k), self.kind, self.unit, self.obj, self.bad)

    def to(self, unit):
        u = self.unit
        if u == unit:
            return Dates(self.arr, self.kind, unit)
        a = A.ew(lambda v: convert(v, u, unit), self.arr, dt="i")
        return Dates(a, self.kind, unit)

    def astype(self, interp, dt, copy=True, **k):
        if self.bad:
            raise ProgExc(ValueError("cannot parse date"), "date conversion")
        if isinstance(dt, DDType):
            kind, u = dt.kind, dt.unit
        else:
            kind, u = parse(dt)
        if kind == self.kind and u:
            return self.to(u)
        if kind in "if" and not self.obj:
            return SArr(self.arr.shape, self.arr.snap(), kind, is_ma=self.arr.is_ma, mask=self.arr.msnap() if self.arr.is_ma else None)
        raise Unsupported(f"conversion of dates to {dt}")

    def getattr(self, interp, name):
        if name == "astype":
            return Bound(lambda it, o, dt, **k: o.astype(it, dt, **k), self)
        if name == "dtype":
            return DDType("O" if self.obj else self.kind, self.unit)
        if name in ("shape", "ndim", "size"):
            return interp.getattr(self.arr, name)
        if name == "copy":
            return Bound(lambda it, o: o, self)
        raise Unsupported(f"attribute {name} of dates")

    def binop(self, interp, op, a, b):
        if op in ("==", "!=") and (isinstance(a, str) or isinstance(b, str)):
            return op == "!="
        if self.obj or self.bad:
            raise Unsupported("arithmetic on date objects")
        x, y = as_dates(a), as_dates(b)
        if x is None or y is None:
            if op in ("/", "*") and x is not None and x.kind == "m":
                raise Unsupported("scaled duration")
            raise Unsupported(f"dates {op} {type(b).__name__}")
        u = min(x.unit, y.unit, key=lambda q: NS[q])
        k = {("M", "M", "-"): "m", ("M", "m", "-"): "M", ("M", "m", "+"): "M", ("m", "M", "+"): "M", ("m", "m", "+"): "m",
             ("m", "m", "-"): "m", ("m", "m", "/"): "f"}.get((x.kind, y.kind, op))
        if k is None:
            raise Unsupported(f"{x.kind} {op} {y.kind}")
        p, q = x.to(u).arr, y.to(u).arr
        if k == "f":
            r = A.ew(lambda v, w: v / w, p, q, dt="f")
        else:
            r = A.ew((lambda v, w: v - w) if op == "-" else (lambda v, w: v + w), p, q, dt="i")
        m = None
        for z in (p, q):
            if z.is_ma:
                m = z
        if not isinstance(r, SArr):
            r = A.as_sarr(r)
        if m is not None and not r.is_ma:
            r = SArr(r.shape, r.snap(), r.dt, is_ma=True, mask=m.msnap())
        if k == "f":
            return r if r.ndim else r.get()
        return Dates(r, k, u)


def as_dates(x):
    if isinstance(x, Dates):
        return x
    if isinstance(x, (np.datetime64, np.timedelta64)):
        u = np.datetime_data(x.dtype)
        if u[1] != 1 or u[0] not in NS:
            raise Unsupported(f"unit {u}")
        v = T.pconst(int(x.astype("int64")))
        return Dates(SArr((), lambda idx: v, "i"), "M" if isinstance(x, np.datetime64) else "m", u[0])
    if isinstance(x, np.ndarray) and x.dtype.kind in "Mm":
        u = np.datetime_data(x.dtype)[0]
        return Dates(A.as_sarr(x.astype("int64")), x.dtype.kind, u)
    return None


def sym_datetime64(interp, x, unit=None):
    if isinstance(x, Dates):
        return x.astype(interp, f"datetime64[{unit}]") if unit else x
    try:
        return np.datetime64(x, unit) if unit else np.datetime64(x)
    except Exception as e:
        raise ProgExc(e, "np.datetime64")


N.TYPE_MODELS[np.datetime64] = sym_datetime64
