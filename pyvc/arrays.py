"""Symbolic numpy arrays: a shape (ints or symbolic integers) and a function index -> scalar term."""
from __future__ import annotations

import hashlib
from fractions import Fraction

import numpy as np

from . import terms as T
from .terms import B, Cx, Poly, Unsupported


def dim(x):
    """canonical dimension / index: python int when constant"""
    if isinstance(x, Poly):
        if x.is_const() and x.const().denominator == 1:
            return int(x.const())
        return x
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (float, Fraction)) and float(x).is_integer():
        return int(x)
    raise Unsupported(f"bad dimension/index {x!r}")


WRITES = None      # the arrays written so far (when frames are being checked)


def root_of(a):
    while a.base is not None:
        a = a.base[0]
    return a


def memory(a):
    """the arrays whose memory a may share"""
    out = []
    while a is not None:
        a = root_of(a)
        out.append(a)
        a = a.alias
    return out


class CTX:
    """Set by the executor: resolve(B) -> True/False/None under the current path condition."""

    @staticmethod
    def resolve(b):
        return b if isinstance(b, bool) else None

    @staticmethod
    def assume(b):
        pass

    @staticmethod
    def frame_write(arr):
        pass

    loop = None
    token = 0
    touched = False
    epoch = 0     # changes when a ghost input changes its value (the path facts do not)


def res(b):
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    r = CTX.resolve(b)
    return b if r is None else r


def same_dim(a, b):
    a, b = dim(a), dim(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if T.lift(a) == T.lift(b):
        return True
    r = CTX.resolve(T.eq_(T.lift(a), T.lift(b)))
    return bool(r)


def kind_of_value(v):
    if isinstance(v, Cx):
        return "c"
    if isinstance(v, (B, bool, np.bool_)):
        return "b"
    if isinstance(v, Poly):
        return "i" if T.is_int(v) else "f"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, (float, Fraction)):
        return "f"
    if isinstance(v, complex):
        return "c"
    return "O"


_ORD = {"b": 0, "i": 1, "u": 1, "f": 2, "c": 3, "O": 4}


def join_kind(*ks):
    return max(ks, key=lambda k: _ORD.get(k, 5))


class DType:
    """Stand-in for numpy dtype: only `.kind` and comparisons used by the code."""

    def __init__(self, kind):
        self.kind = kind
        self.names = None

    def __eq__(self, o):
        try:
            return self.kind == np.dtype(o).kind
        except TypeError:
            return isinstance(o, DType) and o.kind == self.kind

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"dtype<{self.kind}>"


SERIAL = [0]


class SArr:
    _sarr = True
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, fn, dt, mask=None, is_ma=False, pieces=None, sel=None, owner=None, memo=True):
        self.shape = tuple(dim(s) for s in shape)
        self._fn = memoize(fn) if memo else fn
        self.dt = dt
        self.mask_fn = mask       # function idx -> B/bool or None
        self.is_ma = is_ma
        self.pieces = pieces or {}  # axis -> [(length, fn)]
        self.sel = sel            # (mask B over bv(-1), n, origfn) when 1-d compress result
        self.owner = owner
        self.base = None          # view: (base, fwd(idx)->base idx, back(bidx)->(cond, idx), part)
        self.iters = None
        self.alias = None         # another array whose memory this one may share
        SERIAL[0] += 1
        self.serial = SERIAL[0]

    # -- content
    def get(self, *idx):
        if len(idx) == 1 and isinstance(idx[0], tuple):
            idx = idx[0]
        idx = tuple(dim(i) for i in idx)
        if CTX.loop is not None:
            CTX.loop.note_read(self, idx)
        return self.snap()(idx)

    def snap(self):
        if self.base is not None:
            base, fwd, back, part = self.base
            f = base.snap()
            if part == "re":
                return lambda idx: T.re_(f(fwd(idx)))
            if part == "im":
                return lambda idx: T.im_(f(fwd(idx)))
            return lambda idx: f(fwd(idx))
        return self._fn

    def msnap(self):
        if self.base is not None and self.base[0].is_ma:
            base, fwd, back, part = self.base
            f = base.msnap()
            return lambda idx: f(fwd(idx))
        if self.mask_fn is None:
            return lambda idx: False
        return self.mask_fn

    def write(self, cond, val, mask=None):
        """self[idx] := val(idx) wherever cond(idx)."""
        if self.base is not None:
            base, fwd, back, part = self.base

            def bcond(bidx):
                c, vidx = back(bidx)
                c = res(c)
                if c is False:
                    return False
                return T.and_(c, cond(vidx))

            old = base.snap()

            def bval(bidx):
                _, vidx = back(bidx)
                v = val(vidx)
                if part == "re":
                    return Cx(T.re_(T.lift(v)), T.im_(T.lift(old(bidx))))
                if part == "im":
                    return Cx(T.re_(T.lift(old(bidx))), T.re_(T.lift(v)))
                return v

            base.write(bcond, bval, None if mask is None else (lambda bidx: mask(back(bidx)[1])))
            return
        CTX.frame_write(self)
        if WRITES is not None:
            a = self
            while a is not None:
                WRITES.append(a)
                a = root_of(a.alias) if a.alias is not None else None
        old = self._fn
        dt = self.dt

        def fn(idx):
            c = res(cond(idx))
            if c is True:
                return cast(val(idx), dt)
            if c is False:
                return old(idx)
            return T.ite(c, cast(val(idx), dt), old(idx))

        self._fn = memoize(fn)
        self.pieces = {}
        self.sel = None
        if self.is_ma or mask is not None:
            oldm = self.mask_fn or (lambda idx: False)

            def mfn(idx):
                c = res(cond(idx))
                new = False if mask is None else mask(idx)
                if c is True:
                    return new
                if c is False:
                    return oldm(idx)
                return T.ite(c, new, oldm(idx))

            self.mask_fn = memoize(mfn)

    # -- attributes
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return dim(r) if self.shape else 1

    @property
    def dtype(self):
        return DType(self.dt)

    @property
    def T(self):
        n = self.ndim
        if n < 2:
            return self
        v = SArr(tuple(reversed(self.shape)), None, self.dt, memo=False, is_ma=self.is_ma)
        v.base = (self, lambda idx: tuple(reversed(idx)), lambda b: (True, tuple(reversed(b))), None)
        v.pieces = {n - 1 - ax: [(ln, (lambda f: lambda idx: f(tuple(reversed(idx))))(f)) for ln, f in ps]
                    for ax, ps in self.pieces.items()}
        v.owner = self.owner
        return v

    @property
    def real(self):
        if self.dt != "c":
            return self
        v = SArr(self.shape, None, "f", memo=False, is_ma=self.is_ma)
        v.base = (self, lambda idx: idx, lambda b: (True, b), "re")
        v.owner = self.owner
        return v

    @real.setter
    def real(self, x):
        assign(self.real, (), x)

    @property
    def imag(self):
        if self.dt != "c":
            return SArr(self.shape, lambda idx: T.ZERO, self.dt)
        v = SArr(self.shape, None, "f", memo=False, is_ma=self.is_ma)
        v.base = (self, lambda idx: idx, lambda b: (True, b), "im")
        v.owner = self.owner
        return v

    @imag.setter
    def imag(self, x):
        assign(self.imag, (), x)

    @property
    def mask(self):
        if not self.is_ma:
            raise AttributeError("mask")
        return SArr(self.shape, self.msnap(), "b")

    @property
    def data(self):
        return SArr(self.shape, self.snap(), self.dt)

    @property
    def flat(self):
        raise Unsupported("flat")

    def __len__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return s
        raise Unsupported("len() of symbolic-length array in native code")

    def __iter__(self):
        s = self.shape[0]
        if isinstance(s, int):
            return iter([getitem(self, i) for i in range(s)])
        raise Unsupported("iteration over symbolic-length array in native code")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.get())
        n = self.size
        if isinstance(n, int):
            if n == 1:
                return bool(self.get(*[0] * self.ndim))
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getitem__(self, k):
        return getitem(self, k)

    def __setitem__(self, k, v):
        setitem(self, k, v)

    def __repr__(self):
        return f"SArr{self.shape}:{self.dt}"

    def __hash__(self):
        return id(self)

    # operators
    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    def __rmul__(self, o):
        return binop("*", o, self)

    def __truediv__(self, o):
        return binop("/", self, o)

    def __rtruediv__(self, o):
        return binop("/", o, self)

    def __floordiv__(self, o):
        return binop("//", self, o)

    def __mod__(self, o):
        return binop("%", self, o)

    def __rmod__(self, o):
        return binop("%", o, self)

    def __pow__(self, o):
        return binop("**", self, o)

    def __rpow__(self, o):
        return binop("**", o, self)

    def __neg__(self):
        return ew(lambda a: -T.lift(a), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ew(T.abs_, self)

    def __invert__(self):
        return ew(T.not_, self, dt="b")

    def __and__(self, o):
        return ew(T.and_, self, o, dt="b")

    __rand__ = __and__

    def __or__(self, o):
        return ew(T.or_, self, o, dt="b")

    __ror__ = __or__

    def __lt__(self, o):
        return binop("<", self, o)

    def __le__(self, o):
        return binop("<=", self, o)

    def __gt__(self, o):
        return binop(">", self, o)

    def __ge__(self, o):
        return binop(">=", self, o)

    def __eq__(self, o):
        if o is None:
            return False
        return binop("==", self, o)

    def __ne__(self, o):
        if o is None:
            return True
        return binop("!=", self, o)


def memoize(fn):
    if fn is None or getattr(fn, "_memo", False):
        return fn
    memo = {}

    def g(idx):
        key = (CTX.token, idx)      # values depend on the path facts in force
        r = memo.get(key)
        if r is not None:
            return r
        key2 = (CTX.token, CTX.epoch, idx)
        r = memo.get(key2)
        if r is not None:
            CTX.touched = True
            return r
        old, CTX.touched = CTX.touched, False
        try:
            r = fn(idx)
            memo[key2 if CTX.touched else key] = r
        finally:
            CTX.touched = CTX.touched or old
        return r

    g._memo = True
    return g


def cast(v, dt):
    if dt == "c":
        return Cx.of(v) if not isinstance(v, Cx) else v
    if dt == "f":
        if isinstance(v, Cx):
            if v.im == T.ZERO:
                return v.re
            raise Unsupported("complex value cast to real array (discarded imaginary part)")
        return T.lift(v)
    if dt == "i":
        if isinstance(v, (B, bool)):
            return T.lift(v)
        return v
    return v


def scalar(x):
    """Python/numpy scalar or term -> scalar value for elementwise functions."""
    if isinstance(x, (Poly, Cx, B, bool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    return T.lift(x)


def is_arr(x):
    return isinstance(x, SArr) or (isinstance(x, np.ndarray) and x.ndim > 0)


def as_sarr(x):
    """View anything array-like as an SArr (concrete arrays included)."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ma.MaskedArray):
        m = np.ma.getmaskarray(x)
        d = np.asarray(x.data)
        r = as_sarr(d)
        return SArr(r.shape, r._fn, r.dt, mask=lambda idx: bool(m[idx]), is_ma=True)
    if isinstance(x, np.ndarray):
        dt = x.dtype.kind
        if dt == "u":
            dt = "i"
        arr = x
        fast = {}

        def fn(idx):
            if all(isinstance(i, int) for i in idx):
                v = arr[idx]
                return lift_el(v)
            return table_gather(arr, idx)

        r = SArr(x.shape, fn, dt)
        r.concrete = x
        return r
    if isinstance(x, (list, tuple)):
        return stack_list(list(x))
    from .slist import SList
    if isinstance(x, SList):
        return x.to_array()
    if isinstance(x, range):
        return as_sarr(np.array(list(x)))
    v = x if isinstance(x, (B, bool)) else T.lift(x)
    return SArr((), lambda idx: v, kind_of_value(v))


def lift_el(v):
    if isinstance(v, (np.bool_, bool)):
        return bool(v)
    if isinstance(v, (np.integer, int, np.floating, float, complex, np.complexfloating)):
        return T.lift(v)
    return v


def stack_list(xs):
    if not xs:
        return SArr((0,), lambda idx: T.ZERO, "f")
    if any(isinstance(x, (list, tuple)) or is_arr(x) for x in xs):
        rows = [as_sarr(x) for x in xs]
        sh = rows[0].shape
        for r in rows[1:]:
            if len(r.shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(r.shape, sh)):
                raise ValueError("setting an array element with a sequence. The requested array has an "
                                 "inhomogeneous shape")
        fs = [r.snap() for r in rows]
        dt = join_kind(*[r.dt for r in rows])

        def fn(idx):
            return pick(idx[0], [lambda i=i, f=f: f(idx[1:]) for i, f in enumerate(fs)])

        return SArr((len(xs),) + sh, fn, dt)
    vals = [x if not isinstance(x, (int, float, np.number)) or isinstance(x, bool) else T.lift(x) for x in xs]
    ks = [kind_of_value(v) for v in vals]
    dt = join_kind(*ks)
    return SArr((len(xs),), lambda idx: pick(idx[0], [lambda v=v: v for v in vals]), dt)


def pick(i, thunks):
    """thunks[i]() for a possibly symbolic i"""
    i = dim(i)
    if isinstance(i, int):
        return thunks[i]()
    n = len(thunks)
    out = thunks[n - 1]()
    for k in range(n - 2, -1, -1):
        c = res(T.eq_(i, k))
        if c is True:
            return thunks[k]()
        if c is False:
            continue
        out = T.ite(c, thunks[k](), out)
    return out


_TABLES: dict = {}


def table_key(arr):
    h = hashlib.sha1(repr((arr.shape, arr.tolist())).encode()).hexdigest()[:12]
    _TABLES[h] = arr
    return h


def table_gather(arr, idx):
    """element of a concrete array at a symbolic index"""
    conc = tuple(i if isinstance(i, int) else slice(None) for i in idx)
    symi = [i for i in idx if not isinstance(i, int)]
    sub = arr[conc]
    if sub.dtype.kind == "O" and all(isinstance(v, str) for v in sub.ravel()):
        from . import objs
        if sub.ndim == 1 and list(sub) == list(objs.NAME_INDEX)[: len(sub)] and len(sub) == len(objs.NAME_INDEX):
            return objs.SName(symi[0])
        raise Unsupported("gather from a table of strings")
    if sub.dtype.kind == "O":
        raise Unsupported("symbolic gather from an object array")
    if sub.size and (sub == sub.ravel()[0]).all():
        return lift_el(sub.ravel()[0])
    if sub.ndim == 1 and sub.dtype.kind in "iu" and (sub == np.arange(len(sub))).all():
        return symi[0]
    k = table_key(sub)
    if sub.dtype.kind == "b":
        return T.bapp("tab:" + k, *[T.lift(i) for i in symi])
    if sub.dtype.kind == "c":
        raise Unsupported("symbolic gather from a complex table")
    srt = "I" if sub.dtype.kind in "iu" else "R"
    nn = bool((sub >= 0).all()) if sub.size else False
    return T.app("tab:" + k, *[T.lift(i) for i in symi], sort=srt, nonneg=nn)


# --------------------------------------------------------------------------- elementwise
def bshape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = 1
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            v = dim(s[k])
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = v
            elif not same_dim(cur, v):
                raise ShapeMismatch(f"operands could not be broadcast together with shapes {shapes}")
        out.append(cur)
    return tuple(out)


class ShapeMismatch(ValueError):
    pass


def bidx(idx, shape):
    k = len(idx) - len(shape)
    return tuple(0 if (isinstance(s, int) and s == 1) else i for i, s in zip(idx[k:], shape))


def ew(f, *args, dt=None):
    arrs = [as_sarr(a) if is_arr(a) or isinstance(a, (list, tuple)) or hasattr(a, "_slist") else scalar(a) for a in args]
    shapes = [a.shape for a in arrs if isinstance(a, SArr)]
    if not shapes:
        return f(*arrs)
    sh = bshape(shapes)
    snaps = [(a.snap(), a.shape) if isinstance(a, SArr) else None for a in arrs]
    if CTX.loop is not None:
        for a in arrs:
            if isinstance(a, SArr):
                CTX.loop.note_whole_read(a)

    def fn(idx):
        vs = [a if s is None else s[0](bidx(idx, s[1])) for a, s in zip(arrs, snaps)]
        return f(*vs)

    mas = [a for a in arrs if isinstance(a, SArr) and a.is_ma]
    mask = None
    if mas:
        ms = [(a.msnap(), a.shape) for a in mas]

        def mask(idx):
            return T.or_(*[m(bidx(idx, s)) for m, s in ms])

    if dt is None:
        dt = _result_kind(f, arrs)
    pieces = {}
    for ax in range(len(sh)):
        cand = None
        ok = True
        for a in arrs:
            if not isinstance(a, SArr):
                continue
            k = ax - (len(sh) - len(a.shape))
            if k < 0 or (isinstance(a.shape[k], int) and a.shape[k] == 1):
                continue
            if k in a.pieces:
                lens = [ln for ln, _ in a.pieces[k]]
                if cand is None:
                    cand = lens
                elif not (len(lens) == len(cand) and all(same_dim(x, y) for x, y in zip(lens, cand))):
                    ok = False
        if cand and ok:
            pl = []
            off = T.ZERO
            for p, ln in enumerate(cand):
                fs = []
                for a, s in zip(arrs, snaps):
                    if s is None:
                        fs.append(("s", a, None))
                        continue
                    k = ax - (len(sh) - len(a.shape))
                    if k >= 0 and k in a.pieces:
                        fs.append(("p", a.pieces[k][p][1], a.shape))
                    else:
                        fs.append(("o", s[0], a.shape))

                def pf(idx, fs=fs, off=off, ax=ax):
                    gidx = tuple(dim(T.lift(i) + off) if d == ax else i for d, i in enumerate(idx))
                    vs = []
                    for tag, x, s in fs:
                        if tag == "s":
                            vs.append(x)
                        elif tag == "p":
                            vs.append(x(bidx(idx, s)))
                        else:
                            vs.append(x(bidx(gidx, s)))
                    return f(*vs)

                pl.append((ln, memoize(pf)))
                off = off + ln
            pieces[ax] = pl
    sel = None
    vecs = [a for a in arrs if isinstance(a, SArr)]
    if len(sh) == 1 and vecs and all(a.sel is not None or a.shape == (1,) for a in vecs):
        ss = [a for a in vecs if a.sel is not None]
        if ss and all(a.sel[0] == ss[0].sel[0] and a.sel[1] == ss[0].sel[1] for a in ss):
            origs = [a.sel[2] if isinstance(a, SArr) and a.sel is not None else (None if isinstance(a, SArr) else a)
                     for a in arrs]
            if all(o is not None for o in origs):
                def ofn(idx):
                    return f(*[o(idx) if callable(o) else o for o in origs])
                sel = (ss[0].sel[0], ss[0].sel[1], ofn)
    return SArr(sh, fn, dt, mask=mask, is_ma=bool(mas), pieces=pieces, sel=sel)


def _result_kind(f, arrs):
    ks = []
    for a in arrs:
        ks.append(a.dt if isinstance(a, SArr) else kind_of_value(a))
    probe = []
    for q, k in enumerate(ks):
        if (isinstance(arrs[q], (int, Fraction)) and not isinstance(arrs[q], bool)) or (isinstance(arrs[q], Poly) and arrs[q].is_const()):
            probe.append(arrs[q])   # e.g. an exponent
        elif k == "c":
            probe.append(Cx(T.var(f"probe_re{q}"), T.var(f"probe_im{q}")))
        elif k == "b":
            probe.append(T.bapp(f"probe_b{q}"))
        elif k == "i":
            probe.append(T.var(f"probe_i{q}", "I"))
        elif k == "f":
            probe.append(T.var(f"probe_f{q}"))
        else:
            return "O"
    try:
        return kind_of_value(f(*probe))
    except (TypeError, AttributeError):
        return "O"


def _eq_vals(a, b):
    from .objs import SName
    if isinstance(a, (SName, str)) or isinstance(b, (SName, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return a == b if isinstance(a, SName) else b == a
    return T.eq_(a, b)


OPS = {
    "+": lambda a, b: T.lift(a) + T.lift(b),
    "-": lambda a, b: T.lift(a) - T.lift(b),
    "*": lambda a, b: T.lift(a) * T.lift(b),
    "/": lambda a, b: T.lift(a) / T.lift(b),
    "//": lambda a, b: T.floor_(T.lift(a) / T.lift(b)),
    "%": lambda a, b: T.pmod(T.lift(a), T.lift(b)),
    "**": lambda a, b: T.ppow(T.lift(a), b),
    "<": lambda a, b: T.cmp_("lt", a, b),
    "<=": lambda a, b: T.cmp_("le", a, b),
    ">": lambda a, b: T.cmp_("lt", b, a),
    ">=": lambda a, b: T.cmp_("le", b, a),
    "==": _eq_vals,
    "!=": lambda a, b: T.not_(_eq_vals(a, b)),
    "&": T.and_,
    "|": T.or_,
}


def binop(op, a, b):
    f = OPS[op]
    dt = "b" if op in ("<", "<=", ">", ">=", "==", "!=", "&", "|") else None
    if op in ("==", "!=") and not (is_arr(b) or T.is_sym(b) or isinstance(b, (int, float, complex, np.number, list, tuple, str))):
        if not hasattr(b, "_slist") and not hasattr(b, "idx"):
            return op == "!="
    if op in ("==", "!=") and isinstance(b, str) and isinstance(a, SArr) and a.dt != "O":
        # numpy: elementwise comparison of numbers with a string -> all False array
        val = op == "!="
        return SArr(a.shape, lambda idx: val, "b")
    if op in ("==", "!=") and (isinstance(b, str) or hasattr(b, "idx")):
        aa = as_sarr(a)
        f0 = aa.snap()
        return SArr(aa.shape, lambda idx: f(f0(idx), b), "b")
    return ew(f, a, b, dt=dt)


# --------------------------------------------------------------------------- indexing
def norm_slice(s, n):
    """(start, length, step) with step in {1,-1}; n int or Poly."""
    step = 1 if s.step is None else dim(s.step)
    if step not in (1, -1):
        if isinstance(n, int) and isinstance(step, int) and all(x is None or isinstance(dim(x), int) for x in (s.start, s.stop)):
            st, sp, step = slice(s.start, s.stop, step).indices(n)
            ln = len(range(st, sp, step))
            return st, ln, step
        raise Unsupported("strided slice of symbolic length")
    n_ = T.lift(n)

    def norm(x, default):
        if x is None:
            return default
        x = T.lift(dim(x))
        neg = res(T.cmp_("lt", x, 0))
        if neg is True:
            x = x + n_
            lowneg = res(T.cmp_("lt", x, 0))
            if lowneg is True:
                return T.ZERO
            if lowneg is not False:
                x = T.max_(x, T.ZERO)
            return x
        if neg is not False:
            raise Unsupported(f"slice bound of unknown sign: {x}")
        over = res(T.cmp_("lt", n_, x))
        if over is True:
            return n_
        if over is not False:
            return T.min_(x, n_)
        return x

    if step == 1:
        a = norm(s.start, T.ZERO)
        b = norm(s.stop, n_)
        ln = b - a
        bad = res(T.cmp_("lt", ln, 0))
        if bad is True:
            ln = T.ZERO
        elif bad is not False:
            ln = T.max_(ln, T.ZERO)
        return dim(a), dim(ln), 1
    if s.start is None and s.stop is None:
        return dim(n_ - 1), dim(n_), -1
    if isinstance(n, int):
        st, sp, stp = slice(None if s.start is None else int(s.start), None if s.stop is None else int(s.stop), -1).indices(n)
        return st, len(range(st, sp, -1)), -1
    raise Unsupported("reversed slice with bounds")


def norm_index(i, n):
    i = dim(i)
    if isinstance(i, int):
        if i < 0:
            return dim(T.lift(n) + i)
        if isinstance(n, int) and i >= n:
            raise IndexError(f"index {i} is out of bounds for axis with size {n}")
        return i
    neg = res(T.cmp_("lt", i, 0))
    if neg is True:
        return dim(i + T.lift(n))
    return i


def expand_key(k, ndim):
    if not isinstance(k, tuple):
        k = (k,)
    k = list(k)
    if any(x is Ellipsis for x in k):
        p = [i for i, x in enumerate(k) if x is Ellipsis][0]
        used = sum(1 for x in k if x is not None and x is not Ellipsis)
        # boolean arrays use up their ndim
        used += sum(x.ndim - 1 for x in k if is_arr(x) and _kind(x) == "b")
        k[p : p + 1] = [slice(None)] * (ndim - used)
    used = sum((x.ndim if is_arr(x) and _kind(x) == "b" else 1) for x in k if x is not None)
    if used > ndim:
        raise IndexError("too many indices for array")
    k += [slice(None)] * (ndim - used)
    return k


def _kind(x):
    return x.dt if isinstance(x, SArr) else x.dtype.kind


def getitem(a, key):
    a = as_sarr(a)
    k = expand_key(key, a.ndim)
    k = [conv_key(x) for x in k]
    adv = [x for x in k if is_arr(x)]
    if not adv:
        return basic_get(a, k)
    return adv_get(a, k)


def conv_key(x):
    from .slist import SList
    if isinstance(x, SList):
        return x.to_array()
    if isinstance(x, list):
        if not x:
            return np.array([], dtype=int)
        if all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) for v in x):
            return np.array(x)
        if all(isinstance(v, (bool, np.bool_)) for v in x):
            return np.array(x)
        return stack_list(x)
    if isinstance(x, range):
        return np.array(list(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    if isinstance(x, SArr) and x.ndim == 0:
        return x.get()
    return x


def basic_get(a, k):
    """integers, slices, None -> a view (or an element)"""
    plan = []   # per output dim / source dim
    out_shape = []
    src = 0
    for x in k:
        if x is None:
            plan.append(("new",))
            out_shape.append(1)
        elif isinstance(x, slice):
            st, ln, step = norm_slice(x, a.shape[src])
            plan.append(("sl", src, st, ln, step))
            out_shape.append(ln)
            src += 1
        else:
            i = norm_index(x, a.shape[src])
            plan.append(("ix", src, i))
            src += 1

    def fwd(idx):
        out = [None] * a.ndim
        p = 0
        for q in plan:
            if q[0] == "new":
                p += 1
            elif q[0] == "sl":
                i = idx[p]
                p += 1
                out[q[1]] = dim(T.lift(q[2]) + i) if q[4] == 1 and not (isinstance(q[2], int) and isinstance(i, int)) else \
                    (q[2] + i * q[4] if isinstance(q[2], int) and isinstance(i, int) else dim(T.lift(q[2]) + T.lift(i) * q[4]))
            else:
                out[q[1]] = q[2]
        return tuple(out)

    if not out_shape:
        return elem(a, fwd(()))

    def back(b):
        cond = True
        idx = []
        for q in plan:
            if q[0] == "new":
                idx.append(0)
            elif q[0] == "sl":
                off = T.lift(b[q[1]]) - q[2]
                if q[4] < 0:
                    off = -off
                if abs(q[4]) != 1:
                    o = dim(off)
                    if not isinstance(o, int):
                        raise Unsupported("write through a strided view at a symbolic index")
                    if o % abs(q[4]):
                        cond = False
                        idx.append(0)
                        continue
                    off = T.pconst(o // abs(q[4]))
                full = isinstance(q[2], int) and q[2] == 0 and q[4] == 1 and same_dim(q[3], a.shape[q[1]])
                if not full and cond is not False:
                    cond = T.and_(cond, res(T.cmp_("le", 0, off)), res(T.cmp_("lt", off, q[3])))
                idx.append(dim(off))
            elif cond is not False:
                cond = T.and_(cond, res(T.eq_(T.lift(b[q[1]]), T.lift(q[2]))))
        return cond, tuple(idx)

    v = SArr(tuple(out_shape), None, a.dt, memo=False, is_ma=a.is_ma)
    v.base = (a, fwd, back, None)
    v.owner = a.owner
    # keep concatenation structure along dims taken whole
    p = 0
    for q in plan:
        if q[0] == "new":
            p += 1
        elif q[0] == "sl":
            ax = q[1]
            if ax in a.pieces and q[4] == 1 and isinstance(q[2], int) and q[2] == 0 and same_dim(q[3], a.shape[ax]):
                def mk(f, p=p):
                    def g(idx):
                        return f(fwd(idx))
                    return g
                v.pieces[p] = [(ln, mk(f)) for ln, f in a.pieces[ax]]
            p += 1
    if a.ndim == 1 and len(out_shape) == 1 and plan[0][0] == "sl" and plan[0][4] == 1 and isinstance(plan[0][2], int) \
            and plan[0][2] == 0 and same_dim(plan[0][3], a.shape[0]):
        v.sel = a.sel
    return v


class MaskedScalar:
    """a.get result where the element is (maybe) masked"""


def elem(a, idx):
    v = a.get(*idx)
    return v


def sel_index(maskB, n, i):
    """the i-th index at which the mask (a formula over bv(-1)) holds"""
    if maskB is True:
        return i
    return T.app("sel", maskB, T.lift(n), T.lift(i), sort="I", nonneg=True)


def sel_count(maskB, n):
    if maskB is True:
        return n
    if maskB is False:
        return 0
    return dim(T.app("cnt", maskB, T.lift(n), sort="I", nonneg=True))


def mask_formula(fn, extra=()):
    """B over bv(-1) describing a 1-d mask function"""
    i = T.fresh("q", "I", True)
    v = fn((i,))
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, Poly):
        v = T.not_(T.eq_(v, 0))
    return T.relevant(T.subst(v, {T.the_atom(i): T.bv(-1)}))


def any_of_key(key):
    """any(x) for the array described by the key; any(x or y) = any(x) or any(y)"""
    v = key[2]
    if len(key) == 3 and isinstance(v, T.B) and v.k == "or":
        return T.or_(*[any_of_key((key[0], key[1], x)) for x in v.a])
    return T.bapp("any", key)


def all_known(mask):
    """is it known that every element of the 1-d boolean array holds?"""
    if isinstance(mask.shape[0], int) or mask.ndim != 1:
        return False
    key = arr_key(ew(lambda q: T.not_(q) if isinstance(q, (bool, np.bool_, T.B)) else T.eq_(q, 0), mask, dt="b"))
    if not isinstance(key[2], T.B):
        return False
    return res(any_of_key(key)) is False


def compress(a, mask):
    """1-d a[mask]"""
    a, mask = as_sarr(a), as_sarr(mask)
    n = mask.shape[0]
    if same_dim(a.shape[0], n) and all_known(mask):
        return a.copy() if hasattr(a, "copy") and not a.is_ma else a
    if not same_dim(a.shape[0], n):
        raise IndexError("boolean index did not match indexed array")
    mf = mask.snap()
    fa = a.snap()
    rest = a.shape[1:]
    if isinstance(n, int):
        vals = [res(mf((i,))) for i in range(n)]
        if all(isinstance(v, bool) for v in vals):
            keep = [i for i, v in enumerate(vals) if v]

            def fn(idx):
                i = dim(idx[0])
                if isinstance(i, int):
                    return fa((keep[i],) + idx[1:])
                return fa((table_gather(np.array(keep), (i,)),) + idx[1:])

            msk = a.msnap()
            return SArr((len(keep),) + rest, fn, a.dt, is_ma=a.is_ma,
                        mask=(lambda idx: msk((keep[dim(idx[0])],) + idx[1:])) if a.is_ma else None)
    if a.sel is not None and mask.sel is not None and a.sel[0] == mask.sel[0] and a.sel[1] == mask.sel[1] and not rest:
        # compose:  a[m1][m2[m1]] = a[m1 & m2]
        base_mask, n0, orig = a.sel
        morig = mask.sel[2]
        m2 = mask_formula(morig)
        mB = T.and_(base_mask, m2)
        src = orig
        n = n0
    else:
        mB = mask_formula(mf)
        src = (lambda idx: fa(idx))
    if mB is True:
        return a
    cnt = sel_count(mB, n)
    msk = a.msnap()

    def fn(idx):
        return src((dim(T.lift(sel_index(mB, n, idx[0]))),) + idx[1:])

    mask_fn = None
    if a.is_ma:
        if src is not fa and a.sel is not None and mask.sel is not None:
            mo = a.sel_mask if getattr(a, "sel_mask", None) else None
        else:
            mo = None
        if mo is None and a.sel is not None:
            raise Unsupported("compress of a compressed masked array without provenance")
        m0 = mo or msk
        mask_fn = lambda idx: m0((dim(T.lift(sel_index(mB, n, idx[0]))),) + idx[1:])
    r = SArr((cnt,) + rest, fn, a.dt, is_ma=a.is_ma, mask=mask_fn)
    if not rest:
        r.sel = (mB, n, src)
        if a.is_ma:
            r.sel_mask = (a.sel_mask if a.sel is not None else msk)
    return r


def nonzero1(mask):
    """np.nonzero of a 1-d boolean"""
    mask = as_sarr(mask)
    n = mask.shape[0]
    idxarr = SArr((n,), lambda idx: T.lift(idx[0]), "i")
    return compress(idxarr, mask)


def adv_get(a, k):
    # boolean index?
    bools = [x for x in k if is_arr(x) and _kind(x) == "b"]
    if bools:
        if len(k) == 1 or (len(bools) == 1 and all(isinstance(x, slice) and x == slice(None) for x in k if not is_arr(x))):
            pos = [i for i, x in enumerate(k) if is_arr(x)][0]
            if bools[0].ndim == 1:
                if pos == 0:
                    return compress(a, bools[0])
                perm = [pos] + [i for i in range(a.ndim) if i != pos]
                t = transpose(a, perm)
                r = compress(t, bools[0])
                inv = [0] * a.ndim
                for q, s in enumerate(perm):
                    inv[s] = q
                return transpose(r, inv)
        if len(bools) == len(k) == 1 and bools[0].ndim > 1:
            raise Unsupported("n-d boolean indexing")
        k = [nonzero1(x) if is_arr(x) and _kind(x) == "b" and x.ndim == 1 else x for x in k]
    # separate Nones
    news = [i for i, x in enumerate(k) if x is None]
    k2 = [x for x in k if x is not None]
    # ints act as 0-d advanced indices
    advpos = [i for i, x in enumerate(k2) if is_arr(x) or not isinstance(x, slice)]
    arrs = {i: (as_sarr(k2[i]) if is_arr(k2[i]) else as_sarr(dim(norm_index(k2[i], a.shape[i])))) for i in advpos}
    ash = bshape([x.shape for x in arrs.values()])
    if advpos != list(range(advpos[0], advpos[0] + len(advpos))):
        front = 0
    else:
        front = advpos[0]
    snaps = {i: (x.snap(), x.shape) for i, x in arrs.items()}
    sl = {i: norm_slice(k2[i], a.shape[i]) for i in range(len(k2)) if i not in arrs}
    slpos = sorted(sl)
    pre = [i for i in slpos if i < front] if advpos == list(range(advpos[0], advpos[0] + len(advpos))) else []
    post = [i for i in slpos if i not in pre]
    out_shape = [sl[i][1] for i in pre] + list(ash) + [sl[i][1] for i in post]
    fa = a.snap()
    if CTX.loop is not None:
        CTX.loop.note_whole_read(a)

    def src_idx(idx):
        out = [None] * a.ndim
        for p, i in enumerate(pre):
            st, ln, step = sl[i]
            out[i] = dim(T.lift(st) + T.lift(idx[p]) * step)
        aidx = idx[len(pre) : len(pre) + len(ash)]
        for i, (f, s) in snaps.items():
            v = f(bidx(aidx, s))
            v = dim(T.lift(v))
            if isinstance(v, int) and v < 0:
                v = dim(T.lift(a.shape[i]) + v)
            out[i] = v
        for p, i in enumerate(post):
            st, ln, step = sl[i]
            out[i] = dim(T.lift(st) + T.lift(idx[len(pre) + len(ash) + p]) * step)
        return tuple(out)

    fm = a.msnap() if a.is_ma else None
    r = SArr(tuple(out_shape), lambda idx: fa(src_idx(idx)), a.dt, is_ma=a.is_ma,
             mask=(lambda idx: fm(src_idx(idx))) if a.is_ma else None)
    ixs = list(arrs.values())
    if a.ndim == 1 and len(ixs) == 1 and ixs[0].sel is not None:
        mB, n0, orig = ixs[0].sel
        r.sel = (mB, n0, lambda idx: fa((dim(T.lift(orig(idx))),)))
    for i in news:
        r = newaxis(r, i)
    return r


def newaxis(a, ax):
    f = a.snap()
    sh = list(a.shape)
    sh.insert(ax, 1)
    return SArr(tuple(sh), lambda idx: f(idx[:ax] + idx[ax + 1 :]), a.dt)


def transpose(a, perm):
    f = a.snap()
    inv = [0] * len(perm)
    for q, s in enumerate(perm):
        inv[s] = q
    r = SArr(tuple(a.shape[p] for p in perm), lambda idx: f(tuple(idx[inv[s]] for s in range(len(perm)))), a.dt,
             is_ma=a.is_ma)
    if a.is_ma:
        fm = a.msnap()
        r.mask_fn = lambda idx: fm(tuple(idx[inv[s]] for s in range(len(perm))))
    r.pieces = {perm.index(ax): [(ln, (lambda g: lambda idx: g(tuple(idx[inv[s]] for s in range(len(perm)))))(g)) for ln, g in ps]
                for ax, ps in a.pieces.items()}
    return r


def is_identity(x, n):
    """x is arange(n)"""
    x = as_sarr(x)
    if x.ndim != 1 or not same_dim(x.shape[0], n):
        return False
    i = T.fresh("id", "I", True)
    return T.lift(x.get(dim(i))) == i


def setitem(a, key, v):
    """a[key] = v"""
    if key is Ellipsis:
        key = ()
    k = expand_key(key, a.ndim)
    k = [conv_key(x) for x in k]
    if CTX.loop is not None and CTX.loop.owns(a):
        CTX.loop.note_write(a, k, v)
        return
    adv = [x for x in k if is_arr(x)]
    if not adv:
        view = basic_target(a, k)
        assign(view, None, v)
        return
    if hasattr(v, "masked_when"):
        raise Unsupported("masked scalar stored by a fancy index")
    if len(k) - sum(x is None for x in k) == a.ndim and any(_kind(x) == "b" for x in adv):
        b = [x for x in adv if _kind(x) == "b"]
        if len(adv) == 1 and b[0].ndim == a.ndim and len(k) == 1:
            bs = as_sarr(b[0])
            m = bs.snap()
            vv = value_fn(v, None)
            if vv[1] == ():
                a.write(lambda idx: m(idx), lambda idx: vv[0](()))
                return
            if a.ndim == 1:
                n = a.shape[0]
                if isinstance(n, int) and all(isinstance(res(m((i,))), bool) for i in range(n)):
                    keep = [i for i in range(n) if res(m((i,)))]
                    rank = {i: p for p, i in enumerate(keep)}
                    if not same_dim(vv[1][0], len(keep)) and vv[1][0] != 1:
                        raise ValueError("NumPy boolean array indexing assignment cannot assign")
                    a.write(lambda idx: _rank_cond(idx[0], rank), lambda idx: vv[0](bidx((_rank_at(idx[0], rank),), vv[1])))
                    return
                mB = mask_formula(m)
                if mB is True:
                    if not same_dim(vv[1][0], n):
                        raise ShapeMismatch("boolean assignment length")
                    a.write(lambda idx: True, lambda idx: vv[0](idx))
                    return
                cnt = sel_count(mB, n)
                if not same_dim(vv[1][0], cnt):
                    raise ShapeMismatch("boolean assignment length")

                def val(idx):
                    return vv[0]((dim(T.lift(rank_of(mB, n, idx[0]))),))

                a.write(lambda idx: m(idx), val)
                return
        k = [nonzero1(x) if is_arr(x) and _kind(x) == "b" and x.ndim == 1 else x for x in k]
        adv = [x for x in k if is_arr(x)]
    if len(k) == a.ndim > 1 and len(adv) == a.ndim and all(same_dim(n, a.shape[0]) for n in a.shape) and not isinstance(a.shape[0], int) \
            and all(is_identity(x, a.shape[0]) for x in adv) and v is not np.ma.masked:
        vv = value_fn(v, (a.shape[0],))                       # the diagonal

        def on(idx):
            return T.and_(*[T.eq_(T.lift(idx[0]), T.lift(j)) for j in idx[1:]])

        a.write(on, lambda idx: vv[0](bidx((idx[0],), vv[1])))
        return
    # integer fancy assignment with concrete indices
    if all(isinstance(x, np.ndarray) for x in adv) or all(_concrete_ints(x) is not None for x in adv):
        advpos = [i for i, x in enumerate(k) if is_arr(x) or not isinstance(x, slice)]
        if len(advpos) > 1 and advpos != list(range(advpos[0], advpos[-1] + 1)):
            raise Unsupported("separated fancy assignment")
        cs = {}
        for i in advpos:
            x = k[i]
            cs[i] = _concrete_ints(x) if is_arr(x) else np.array(int(norm_index(x, a.shape[i])))
        bc = np.broadcast_arrays(*[cs[i] for i in advpos])
        ash = bc[0].shape
        table = {}
        for pos in np.ndindex(*ash):
            t = []
            for i, arr in zip(advpos, bc):
                q = int(arr[pos])
                if q < 0:
                    q = dim(T.lift(a.shape[i]) + q)
                t.append(q)
            table[tuple(t)] = pos
        sl = {i: norm_slice(x, a.shape[i]) for i, x in enumerate(k) if i not in cs}
        pre = [i for i in sorted(sl) if i < advpos[0]]
        post = [i for i in sorted(sl) if i > advpos[0]]
        oshape = tuple(sl[i][1] for i in pre) + ash + tuple(sl[i][1] for i in post)
        vv = value_fn(v, oshape)

        def locate(idx):
            key_ = tuple(dim(idx[i]) for i in advpos)
            return key_

        def cond(idx):
            key_ = locate(idx)
            c = True
            for i, (st, ln, step) in sl.items():
                off = T.lift(idx[i]) - st
                if not (isinstance(st, int) and st == 0 and same_dim(ln, a.shape[i])):
                    c = T.and_(c, T.cmp_("le", 0, off), T.cmp_("lt", off, ln))
            if all(isinstance(q, int) for q in key_):
                return c if key_ in table else False
            alts = []
            for tk in table:
                alts.append(T.and_(*[T.eq_(T.lift(q), T.lift(w)) for q, w in zip(key_, tk)]))
            return T.and_(c, T.or_(*alts))

        def val(idx):
            key_ = locate(idx)
            if all(isinstance(q, int) for q in key_):
                pos = table[key_]
                o = [dim(T.lift(idx[i]) - sl[i][0]) for i in pre] + list(pos) + [dim(T.lift(idx[i]) - sl[i][0]) for i in post]
                return vv[0](bidx(tuple(o), vv[1]))
            if len(vv[1]) == 0:
                return vv[0](())
            raise Unsupported("fancy assignment read at a symbolic index")

        msk = MASKED if v is np.ma.masked else None
        a.write(cond, val, mask=(lambda idx: True) if msk else None)
        return
    # symbolic integer index array
    if len(k) == 1 and a.ndim == 1 and v is np.ma.masked:
        ix = as_sarr(k[0])
        member = index_member(ix)
        a.write(lambda idx: member(idx[0]), a.snap(), mask=lambda idx: True)
        return
    raise Unsupported("fancy assignment with symbolic indices")


MASKED = object()


def _rank_cond(i, rank):
    i = dim(i)
    if isinstance(i, int):
        return i in rank
    return T.or_(*[T.eq_(i, q) for q in rank])


def _rank_at(i, rank):
    i = dim(i)
    if isinstance(i, int):
        return rank[i]
    r = T.ZERO
    for q, p in rank.items():
        r = T.ite(T.eq_(i, q), T.pconst(p), r)
    return dim(r)


def rank_of(mB, n, i):
    """inverse of sel_index at an index where the mask holds"""
    i = T.lift(i)
    if len(i.t) == 1:
        (m, c), = i.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            if at.kind == "app" and at.args[0] == "sel" and at.args[1] == mB:
                return at.args[3]
    return T.app("rank", mB, T.lift(n), i, sort="I", nonneg=True)


def index_member(ix):
    """predicate: j is among the entries of the integer array ix"""
    n = ix.shape[0]
    f = ix.snap()
    key = arr_key(ix)

    def member(j):
        if isinstance(n, int):
            return T.or_(*[T.eq_(T.lift(f((i,))), T.lift(j)) for i in range(n)])
        return T.bapp("member", key, T.lift(j))

    return member


def _concrete_ints(x):
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, SArr):
        if all(isinstance(s, int) for s in x.shape):
            out = np.empty(x.shape, dtype=int)
            f = x.snap()
            for pos in np.ndindex(*x.shape):
                v = dim(T.lift(f(pos)))
                if not isinstance(v, int):
                    return None
                out[pos] = v
            return out
    return None


def basic_target(a, k):
    """A view for assignment even when every index is an integer."""
    ks = []
    drop = 0
    for x in k:
        if x is None or isinstance(x, slice):
            ks.append(x)
        else:
            i = norm_index(x, 10**9 if False else a.shape[len([y for y in ks if y is not None])])
            if isinstance(i, int):
                ks.append(slice(i, i + 1))
            else:
                ks.append(slice(i, i + 1))
            drop += 1
    # build view with integer dims dropped, but never an element
    return AssignTarget(a, k)


class AssignTarget:
    def __init__(self, a, k):
        self.a, self.k = a, k


def value_fn(v, shape):
    """(fn(idx), shape) of an assigned value"""
    if v is np.ma.masked:
        return (lambda idx: T.NAN), ()
    if hasattr(v, "masked_when"):
        val = v.value()
        return (lambda idx: val), ()
    if is_arr(v) or isinstance(v, (list, tuple)) or hasattr(v, "_slist"):
        s = as_sarr(v)
        f = s.snap()
        return (lambda idx: f(idx)), s.shape
    if isinstance(v, np.ndarray):
        v = v.item()
    if isinstance(v, SArr):
        f = v.snap()
        return (lambda idx: f(())), ()
    w = v if not isinstance(v, (int, float, np.number, complex)) or isinstance(v, bool) else T.lift(v)
    return (lambda idx: w), ()


def assign(target, key, v):
    """target[...] = v with broadcasting; target an SArr (whole) or AssignTarget."""
    if isinstance(target, AssignTarget):
        a, k = target.a, target.k
        plan = []
        src = 0
        oshape = []
        for x in k:
            if x is None:
                oshape.append(1)
                plan.append(("new",))
            elif isinstance(x, slice):
                st, ln, step = norm_slice(x, a.shape[src])
                plan.append(("sl", src, st, ln, step))
                oshape.append(ln)
                src += 1
            else:
                plan.append(("ix", src, norm_index(x, a.shape[src])))
                src += 1
        vf, vs = value_fn(v, tuple(oshape))
        check_assignable(vs, tuple(oshape))

        def conv(b):
            cond = True
            idx = []
            for q in plan:
                if q[0] == "new":
                    idx.append(0)
                elif q[0] == "sl":
                    off = T.lift(b[q[1]]) - q[2]
                    if q[4] < 0:
                        off = -off
                    if abs(q[4]) != 1:
                        o = dim(off)
                        if not isinstance(o, int):
                            raise Unsupported("strided assignment at a symbolic index")
                        if o % abs(q[4]):
                            cond = False
                            idx.append(0)
                            continue
                        off = T.pconst(o // abs(q[4]))
                    full = isinstance(q[2], int) and q[2] == 0 and q[4] == 1 and same_dim(q[3], a.shape[q[1]])
                    if not full and cond is not False:
                        cond = T.and_(cond, res(T.cmp_("le", 0, off)), res(T.cmp_("lt", off, q[3])))
                    idx.append(dim(off))
                elif cond is not False:
                    cond = T.and_(cond, res(T.eq_(T.lift(b[q[1]]), T.lift(q[2]))))
            return cond, tuple(idx)

        def val(b):
            _, idx = conv(b)
            if vs == ():
                return vf(())
            return vf(bidx(idx, vs))

        mw = v.masked_when() if hasattr(v, "masked_when") else None
        if mw is not None and not a.is_ma:
            raise Unsupported("masked scalar stored in a plain array")
        a.write(lambda b: conv(b)[0], val, mask=(lambda b: True) if v is np.ma.masked else None if mw is None else (lambda b: mw))
        return
    vf, vs = value_fn(v, target.shape)
    check_assignable(vs, target.shape)
    target.write(lambda idx: True, lambda idx: vf(()) if vs == () else vf(bidx(idx, vs)))


def check_assignable(vs, oshape):
    vs = tuple(vs)
    if vs and len(oshape) == 0:
        raise ValueError("setting an array element with a sequence.")
    while len(vs) > len(oshape):
        if vs[0] == 1:
            vs = vs[1:]
        else:
            if len(oshape) == 0:
                raise ValueError("setting an array element with a sequence.")
            raise ShapeMismatch(f"could not broadcast input array from shape {vs} into shape {oshape}")
    for a, b in zip(reversed(vs), reversed(oshape)):
        if isinstance(a, int) and a == 1:
            continue
        if not same_dim(a, b):
            raise ShapeMismatch(f"could not broadcast input array from shape {vs} into shape {oshape}")


# --------------------------------------------------------------------------- structure
def arr_key(a):
    """Canonical description of the whole content (used to key uninterpreted functions of arrays)."""
    a = as_sarr(a)
    vs = [T.fresh("q", "I", True) for _ in a.shape]
    idx = tuple(0 if isinstance(s, int) and s == 1 else v for v, s in zip(vs, a.shape))
    f = a.snap()
    if all(isinstance(s, int) for s in a.shape) and _prod(a.shape) <= 64:
        vals = tuple(_norm_val(f(pos)) for pos in np.ndindex(*a.shape))
        return ("arr", tuple(T.lift(s) for s in a.shape), vals)
    v = f(idx)
    v = _norm_val(v)
    v = T.relevant(T.subst(v, {T.the_atom(x): T.bv(-1 - d) for d, x in enumerate(vs)}))
    return ("arr", tuple(T.lift(s) for s in a.shape), v)


def _norm_val(v):
    from .objs import SName
    if isinstance(v, SName):
        return ("name", v.idx)
    if isinstance(v, (Poly, Cx, B, bool, str)) or v is None:
        return (v.re, v.im) if isinstance(v, Cx) else v
    if isinstance(v, (int, float, complex, np.number)):
        v = T.lift(v)
        return (v.re, v.im) if isinstance(v, Cx) else v
    raise Unsupported(f"no canonical form for array element {type(v).__name__}")


def _prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def reduce_sum(a, axis=None):
    a = as_sarr(a)
    f = a.snap()
    if CTX.loop is not None:
        CTX.loop.note_whole_read(a)
    msk = a.msnap() if a.is_ma else None
    if msk is not None:
        f0 = f
        f = lambda idx: T.ite(msk(idx), T.ZERO, f0(idx))
    if a.ndim == 0:
        return f(())
    if axis is None:
        if a.ndim == 1:
            axis = 0
        else:
            r = a
            while isinstance(r, SArr) and r.ndim > 0:
                r = reduce_sum(r, r.ndim - 1)
            return r
    if axis < 0:
        axis += a.ndim
    n = a.shape[axis]
    dt = "i" if a.dt == "b" else a.dt

    def total(rest):
        if axis in a.pieces:
            s = T.ZERO
            for ln, pf in a.pieces[axis]:
                s = s + T.sum_(ln, lambda i: T.lift(pf(rest[:axis] + (dim(i),) + rest[axis:])))
            return s
        return T.sum_(n, lambda i: T.lift(f(rest[:axis] + (dim(i),) + rest[axis:])))

    if a.ndim == 1:
        return total(())
    sh = a.shape[:axis] + a.shape[axis + 1 :]
    return SArr(sh, lambda idx: total(idx), dt)


def dot(a, b):
    a, b = as_sarr(a), as_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return ew(OPS["*"], a, b)
    ka = a.ndim - 1
    kb = 0 if b.ndim == 1 else b.ndim - 2
    n, n2 = a.shape[ka], b.shape[kb]
    if not same_dim(n, n2):
        raise ShapeMismatch(f"shapes {a.shape} and {b.shape} not aligned")
    fa, fb = a.snap(), b.snap()
    if CTX.loop is not None:
        CTX.loop.note_whole_read(a)
        CTX.loop.note_whole_read(b)
    sh = a.shape[:ka] + b.shape[:kb] + b.shape[kb + 1 :]
    pa, pb = a.pieces.get(ka), b.pieces.get(kb)
    if isinstance(n, int) and n <= 200:
        segs = None
    else:
        segs = []
        if pa and pb and not (len(pa) == len(pb) and all(same_dim(x[0], y[0]) for x, y in zip(pa, pb))):
            raise Unsupported("dot of differently partitioned arrays")
        if pa or pb:
            off = T.ZERO
            for q in range(len(pa or pb)):
                ln = (pa or pb)[q][0]
                segs.append((ln, off, pa[q][1] if pa else None, pb[q][1] if pb else None))
                off = off + ln
        else:
            segs.append((n, T.ZERO, None, None))

    def fn(idx):
        ia, ib = idx[: ka], idx[ka:]

        def ib_(i):
            return ib[:kb] + (i,) + ib[kb:]

        if segs is None:
            s = T.ZERO
            for i in range(n):
                x = T.lift(fa(ia + (i,)))
                if isinstance(x, Poly) and x is not T.NAN and not x.t:
                    continue
                s = s + x * T.lift(fb(ib_(i)))
            return s
        s = T.ZERO
        for ln, off, qa, qb in segs:
            def body(i):
                g = dim(i + off)
                x = qa(ia + (dim(i),)) if qa else fa(ia + (g,))
                y = qb(ib_(dim(i))) if qb else fb(ib_(g))
                return T.lift(x) * T.lift(y)
            s = s + T.sum_(ln, body)
        return s

    if not sh:
        return fn(())
    return SArr(sh, fn, join_kind(a.dt, b.dt))


def concat(arrs, axis):
    """np.concatenate"""
    arrs = [as_sarr(a) for a in arrs]
    nd = arrs[0].ndim
    for a in arrs:
        if a.ndim != nd:
            raise ShapeMismatch("all the input array dimensions must match")
    # drop empty constant pieces
    total = T.ZERO
    pieces = []
    for a in arrs:
        sub = a.pieces.get(axis)
        f = a.snap()
        if sub:
            pieces.extend(sub)
        else:
            if isinstance(a.shape[axis], int) and a.shape[axis] == 0:
                continue
            pieces.append((a.shape[axis], f))
        total = total + a.shape[axis]
    other = list(arrs[0].shape)
    for a in arrs[1:]:
        for d in range(nd):
            if d != axis and not same_dim(a.shape[d], other[d]):
                raise ShapeMismatch("concatenate: shapes differ off-axis")
    sh = list(other)
    sh[axis] = dim(total)
    dt = join_kind(*[a.dt for a in arrs])

    def fn(idx):
        i = T.lift(idx[axis])
        off = T.ZERO
        offs = []
        for ln, f in pieces:
            offs.append(off)
            off = off + ln
        out = None
        # last piece first
        for q in range(len(pieces) - 1, -1, -1):
            ln, f = pieces[q]
            if out is None and q == len(pieces) - 1:
                if q > 0:
                    c = res(T.cmp_("le", offs[q], i))
                else:
                    c = True
                if c is False:
                    continue
                v = f(idx[:axis] + (dim(i - offs[q]),) + idx[axis + 1 :])
                if c is True:
                    return cast(v, dt) if dt != "O" else v
                out = v
                continue
            c = res(T.cmp_("lt", i, offs[q] + ln))
            if c is False:
                if out is None:
                    raise Unsupported("index beyond concatenation")
                continue
            if out is None:
                if q > 0:
                    c2 = res(T.cmp_("le", offs[q], i))
                    if c2 is False:
                        continue
                    v = f(idx[:axis] + (dim(i - offs[q]),) + idx[axis + 1 :])
                    if c2 is True:
                        return cast(v, dt) if dt != "O" else v
                    out = v
                    continue
                v = f(idx[:axis] + (dim(i - offs[q]),) + idx[axis + 1 :])
                return cast(v, dt) if dt != "O" else v
            lo = res(T.cmp_("le", offs[q], i)) if q > 0 else True
            if lo is False:
                continue
            v = f(idx[:axis] + (dim(i - offs[q]),) + idx[axis + 1 :])
            if c is True and lo is True:
                return cast(v, dt) if dt != "O" else v
            out = T.ite(c, v, out)
        return cast(out, dt) if dt != "O" else out

    return SArr(tuple(sh), fn, dt, pieces={axis: pieces} if len(pieces) > 1 else None,
                sel=arrs[0].sel if len(pieces) == 1 and len(arrs) == 1 else None)
