"""Frame conditions: what a call may write.  Every unit of every contract is executed symbolically again; at each entry into the package's code
the containers and arrays reachable from the arguments and from the package's modules (tables, option defaults, function defaults and attributes) are
recorded, and on every path they have to come out as they went in, except for what the function's contract lets it modify."""
from __future__ import annotations

import contextlib
import re
import sys
import types

import numpy as np

from . import arrays as A
from . import prove
from .arrays import SArr
from .interp import ENGINE, IFunc, Interp, ProgExc
from .slist import SList

# functions that complete a structure their caller built: parameter names they may modify
MODIFIES = {"_confidence": {"coef"}, "_reorder": {"coef"}, "ut_diagn": {"coef"}}
# where the user's own arguments come in
ENTRY = {"solve", "_process_opts", "validate_infer", "validate_order_constit", "_slvinit", "_solv1", "ut_cnstitsel", "reconstruct", "_reconstruct", "_normalize_time"}
OWNS = {"_slvinit"}
# external functions whose result depends on the time, the environment, the process or earlier calls (the random state of the Monte-Carlo interval is the stated exception)
HISTORY = (r"^time\.", r"\b(now|utcnow|today|time_ns|perf_counter|monotonic|getenv|environ|urandom|getpid|uuid\d?|open|input|loadmat|load|globals|id|hash)$", r"^random\.",
           r"random.*\b(rand|randn|random|normal|uniform|choice|default_rng|seed|set_state)$", r"^os\.", r"^builtins\.(globals|vars|locals)$")


class Snap:
    """contents of everything reachable from some values"""

    def __init__(self, skip=()):
        self.seen = {}
        self.skip = {id(x) for x in skip}

    def add(self, x, path):
        if isinstance(x, (str, int, float, complex, bytes, type(None), bool, np.generic)) or id(x) in self.seen or id(x) in self.skip:
            return
        if isinstance(x, np.ndarray):
            mask = np.ma.getmask(x) if isinstance(x, np.ma.MaskedArray) else None
            self.seen[id(x)] = (x, path, self.content(x))
            if x.dtype == object:
                for i, y in enumerate(x.ravel()):
                    self.add(y, f"{path}[{i}]")
            return
        if isinstance(x, SList):
            self.seen[id(x)] = (x, path, self.content(x))
            return self.add(x.arr, path)
        if isinstance(x, SArr):
            self.seen[id(x)] = (x, path, None)
            for a in A.memory(x):
                self.add(a, path)
            return
        if isinstance(x, (dict, list, tuple, set)):
            self.seen[id(x)] = (x, path, self.content(x))
            for k, y in (dict.items(x) if isinstance(x, dict) else enumerate(x)):
                self.add(y, f"{path}[{k!r}]" if not isinstance(x, set) else path)
            return
        if isinstance(x, types.FunctionType):
            self.seen[id(x)] = (x, path, None)
            self.add(x.__dict__, path + ".__dict__")
            self.add(x.__defaults__, path + " default")
            self.add(x.__kwdefaults__, path + " default")
            for c in x.__closure__ or ():
                try:
                    self.add(c.cell_contents, path + " closure")
                except ValueError:
                    pass
            return
        if isinstance(x, type) and (x.__module__ or "").startswith("utide"):
            self.seen[id(x)] = (x, path, tuple((k, id(v)) for k, v in vars(x).items() if not k.startswith("__")))
            for k, v in list(vars(x).items()):
                if not k.startswith("__"):
                    self.add(v, f"{path}.{k}")

    @staticmethod
    def content(x):
        if isinstance(x, np.ndarray):
            m = np.ma.getmask(x).tobytes() if isinstance(x, np.ma.MaskedArray) else b""
            return (x.shape, str(x.dtype), np.asarray(x).tobytes(), m)
        if isinstance(x, SList):
            return id(x.arr)
        if isinstance(x, dict):
            return tuple((repr(k), id(v)) for k, v in dict.items(x))
        if isinstance(x, set):
            return tuple(sorted(map(repr, x)))
        return tuple(id(v) for v in x)

    def changes(self, written):
        out = []
        w = {id(a) for a in written}
        for x, path, c in self.seen.values():
            if isinstance(x, SArr):
                if id(x) in w:
                    out.append(path)
            elif isinstance(x, type):
                if c != tuple((k, id(v)) for k, v in vars(x).items() if not k.startswith("__")):
                    out.append(path)
            elif c is not None and self.content(x) != c:
                out.append(path)
        return out


def module_state():
    s = Snap()
    for n, m in list(sys.modules.items()):
        if n == "utide" or n.startswith("utide."):
            d = {k: v for k, v in vars(m).items() if not k.startswith("__")}
            s.seen[id(m)] = (m.__dict__, n, None)
            for k, v in d.items():
                s.add(v, f"{n}.{k}")
            s.names = getattr(s, "names", {})
            s.names[n] = {k: id(v) for k, v in d.items()}
    return s


def module_changes(s):
    out = s.changes(A.WRITES or [])
    for n, d in s.names.items():
        now = {k: id(v) for k, v in vars(sys.modules[n]).items() if not k.startswith("__")}
        out += [f"{n}.{k}" for k in set(d) ^ set(now)] + [f"{n}.{k}" for k in d if k in now and now[k] != d[k]]
    return out


def new_only(state, changes):
    """only containers whose old entries are all still there, unchanged"""
    paths = {path: (x, c) for x, path, c in state.seen.values()}
    for p in changes:
        if p not in paths:
            mod, _, name = p.rpartition(".")
            if mod in state.names and name not in state.names[mod]:
                continue        # a new name in a module
            return False
        x, c = paths[p]
        if not isinstance(x, (dict, list, set)) or isinstance(x, dict) and not set(c) <= set(Snap.content(x)) or isinstance(x, list) and Snap.content(x)[:len(c)] != c:
            return False
        if isinstance(x, dict) and len(c):
            return False
    return True


class FrameSuite:
    """runs the contracts' units and keeps the frame obligations only"""

    frames_only = True

    def __init__(self, suite, replay):
        self._s = suite
        self._replay = replay
        self.calls = {}
        self.outer = None
        self._all_external = set()

    def __getattr__(self, n):
        return getattr(self._s, n)

    # ---- obligations of other properties: not decided here
    def true(self, name, b):
        return True

    def eq(self, name, a, b):
        return True

    def integer(self, name, x):
        return True

    def note(self, name, ok, detail="", how="structural"):
        return True

    def lemma(self, *n):
        pass

    def record(self, *a, **k):
        return True

    def sanity(self):
        self._s.vacuity["sanity_obligations_rejected"] += 0

    def paths(self, fn, base=None):
        from .interp import explore
        out = explore(fn, base)
        self._s.vacuity["paths"] += len(out)
        return out

    @contextlib.contextmanager
    def finding(self, key):
        yield

    @contextlib.contextmanager
    def unit(self, name, seconds=None, samplers=None, impl=None, replay=None):
        s = self._s
        self.calls = {}
        self.external, self.shared, self.owners = set(), [], set()
        state = module_state()
        with s.unit("frame of " + name, seconds=seconds, replay=self._replay):
            A.WRITES = []
            old = Interp.call
            me = self

            def call(it, fn, args=(), kwargs=None, node=None, env=None):
                if not isinstance(fn, types.FunctionType) or not it.is_target(fn):
                    me.external.add(f"{getattr(fn, '__module__', None) or type(getattr(fn, '__self__', fn)).__module__}.{getattr(fn, '__qualname__', getattr(fn, '__name__', type(fn).__name__))}")
                if me.outer is not None or not (isinstance(fn, types.FunctionType) and it.is_target(fn)):
                    return old(it, fn, args, kwargs, node, env)
                me.outer = fn
                names = fn.__code__.co_varnames
                snap = Snap(skip=[a for n, a in zip(names, args) if n in MODIFIES.get(fn.__name__, ())])
                for n, a in zip(names, args):
                    snap.add(a, n)
                for n, a in (kwargs or {}).items():
                    if n not in MODIFIES.get(fn.__name__, ()):
                        snap.add(a, n)
                start = len(A.WRITES)
                bad0 = len(it.frame_violations)
                try:
                    r = old(it, fn, args, kwargs, node, env)
                    if fn.__name__ in OWNS:
                        mine = Snap()
                        mine.add(r, "result")
                        me.shared += [f"{fn.__name__}: {path} and {snap.seen[i][1]}" for i, (x, path, _) in mine.seen.items() if isinstance(x, SArr) and i in snap.seen]
                        me.owners.add(fn.__name__)
                    return r
                finally:
                    me.outer = None
                    ch = snap.changes(A.WRITES[start:]) + it.frame_violations[bad0:]
                    me.calls.setdefault(fn.__name__, [0, []])
                    me.calls[fn.__name__][0] += 1
                    me.calls[fn.__name__][1] += ch
                    me._s.used(it)
            Interp.call = call
            try:
                yield self
            finally:
                Interp.call = old
                A.WRITES = None
                self.outer = None
                for fn, (n, ch) in self.calls.items():
                    nm = f"{fn} writes nothing of its arguments" + (f" but {', '.join(sorted(MODIFIES[fn]))}" if fn in MODIFIES else "")
                    if not ch:
                        s.note(nm, True, how="frame")
                    elif fn in ENTRY:
                        s.record(nm + ": " + "; ".join(sorted(set(ch)))[:200], prove.Outcome(prove.REFUTED, "frame", "written on a path of the symbolic execution"))
                    else:
                        s.note(nm + ": " + "; ".join(sorted(set(ch)))[:200], False)
                if self.owners:
                    s.note("the arrays of the result share no memory with those passed in" + "".join("; " + x for x in self.shared)[:200], not self.shared, how="frame")
                odd = sorted(x for x in self.external if any(re.search(p, x) for p in HISTORY))
                s.note("nothing is called whose result depends on more than its arguments" + "".join("; " + x for x in odd)[:200], not odd, how="frame")
                self._all_external |= self.external
                mc = module_changes(state)
                nm = "the package's tables, defaults and attributes are not written"
                if not mc:
                    s.note(nm, True, how="frame")
                elif new_only(state, mc):
                    # a container of the package that started empty or was not there: it may be a cache; whether it shows is decided by running histories
                    s.note(nm + ": " + "; ".join(sorted(set(mc)))[:200], False)
                else:
                    s.record(nm + ": " + "; ".join(sorted(set(mc)))[:200], prove.Outcome(prove.REFUTED, "frame", "written"))
