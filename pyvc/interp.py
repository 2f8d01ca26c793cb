"""Symbolic interpreter for the Python subset the package uses.

The functions are read from /repo's source files on every run (their AST, located through the live function
object's code), and executed on symbolic values.  A branch on an undecided condition forks the path (by
re-execution along a decision trail); a call to a function that has a contract uses the contract; a loop over
a range of symbolic length is summarised by one generic iteration whose independence from the other
iterations is checked; anything without semantics here makes the unit *undecided*.
"""
from __future__ import annotations

import ast
import builtins
import inspect
import os
import types

import numpy as np

from . import arrays as A
from . import smt
from . import terms as T
from .arrays import CTX, SArr
from .slist import SIter, SList
from .terms import B, Cx, Poly, Unsupported

REPO = os.environ.get("UTIDE_REPO", "/repo")


class ProgExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, exc, where="", explicit=False):
        self.exc = exc
        self.where = where
        self.explicit = explicit

    def __str__(self):
        return f"{type(self.exc).__name__}: {self.exc} [{self.where}]"


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Cut(Exception):
    """this path is of no interest (assumption violated)"""


# --------------------------------------------------------------------------- path engine
class Engine(T._Hook):
    def __init__(self):
        self.facts = []
        self.stack = []
        self.cache = {}
        self.nonzero = set()
        self.max_paths = 400
        self.timeout = 400
        self.deadline = None

    # --- hooks
    def resolve(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b in self.facts:
            return True
        nb = T.not_(b)
        if isinstance(nb, bool):
            return not nb
        if nb in self.facts:
            return False
        key = (CTX.token, b)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = (self._resolve(b, nb),)
        return r[0]

    def _resolve(self, b, nb):
        import time
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported("time limit of the unit reached")
        rel = relevant(self.facts, b)
        if smt.check(rel, b, self.timeout, linear=True) == "unsat":
            return True
        if smt.check(rel, nb, self.timeout, linear=True) == "unsat":
            return False
        return None

    def decide(self, b):
        r = self.resolve(b)
        if r is not None:
            return r
        if not self.stack:
            raise Unsupported(f"branch on an undecided condition outside a path exploration: {b}")
        return self.stack[-1].choose(b)

    def push(self, b):
        if b is True:
            return
        self.facts.append(b)
        bump()

    def set_facts(self, fs):
        self.facts = list(fs)
        bump()

    def div_zero(self):
        raise ProgExc(ZeroDivisionError("division by an identically zero term"), "term")

    def sign_hint(self, p):
        return 0

    def assume_nonzero(self, p):
        self.nonzero.add(p)

    def astype(self, x, dt):
        from . import npmodel
        return npmodel.astype_scalar(x, dt)

    def round_(self, x):
        from . import npmodel
        return npmodel.round_scalar(x)


def relevant(facts, b):
    return facts


_tok = [0]


def bump():
    _tok[0] += 1
    CTX.token = _tok[0]


ENGINE = Engine()
T.HOOK = ENGINE
CTX.resolve = staticmethod(lambda b: ENGINE.resolve(b))
CTX.assume = staticmethod(lambda b: ENGINE.push(b))


def assume(b):
    r = ENGINE.resolve(b)
    if r is True:
        return
    if r is False:
        raise Cut()
    ENGINE.push(b)


class Explorer:
    def __init__(self):
        self.trail = []
        self.pos = 0

    def choose(self, b):
        if self.pos < len(self.trail):
            v = self.trail[self.pos][0]
        else:
            v = True
            self.trail.append([True, False])
        self.pos += 1
        ENGINE.push(b if v else T.not_(b))
        return v

    def run(self, fn, base=None):
        """all paths of fn(): list of (facts added, outcome) with outcome ('ok', value) | ('exc', ProgExc)"""
        base = list(ENGINE.facts) if base is None else list(base)
        out = []
        while True:
            self.pos = 0
            ENGINE.set_facts(base)
            ENGINE.stack.append(self)
            try:
                try:
                    r = ("ok", fn())
                except ProgExc as e:
                    r = ("exc", e)
                except Cut:
                    r = None
            finally:
                ENGINE.stack.pop()
            if r is not None:
                out.append((ENGINE.facts[len(base):], r))
            while self.trail and self.trail[-1][1]:
                self.trail.pop()
            if not self.trail:
                break
            self.trail[-1] = [False, True]
            if len(out) > ENGINE.max_paths:
                raise Unsupported("too many paths")
        ENGINE.set_facts(base)
        return out


def explore(fn, base=None):
    return Explorer().run(fn, base)


class using:
    """with using(facts): evaluate under these facts"""

    def __init__(self, facts):
        self.f = facts

    def __enter__(self):
        self.old = ENGINE.facts
        ENGINE.set_facts(list(self.old) + list(self.f))

    def __exit__(self, *a):
        ENGINE.set_facts(self.old)


# --------------------------------------------------------------------------- source access
_SRC = {}


def module_ast(path):
    if path not in _SRC:
        with open(path) as f:
            src = f.read()
        _SRC[path] = (src, ast.parse(src, path))
    return _SRC[path]


_NODES = {}


def func_ast(fn):
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key not in _NODES:
        _, tree = module_ast(code.co_filename)
        found = None
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                l0 = min([n.lineno] + [d.lineno for d in getattr(n, "decorator_list", [])])
                if l0 == code.co_firstlineno and (isinstance(n, ast.Lambda) or n.name == code.co_name):
                    found = n
                    break
        if found is None:
            raise Unsupported(f"no source for {code.co_name}")
        _NODES[key] = found
    return _NODES[key]


def is_generator(node):
    def own(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            yield c
            yield from own(c)
    if any(isinstance(n, ast.Await) for n in own(node)):
        raise Unsupported("coroutine")
    if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)):
        return False
    for n in own(node):
        bad = isinstance(n, (ast.Global, ast.Nonlocal))
        for t in (n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
            bad = bad or isinstance(t, (ast.Subscript, ast.Attribute))
        if isinstance(n, (ast.Yield, ast.YieldFrom)) and getattr(n, "_sent", False):
            bad = True
        if bad:
            raise Unsupported("generator function that writes outside its locals")
    return True


class IFunc:
    """A function defined inside interpreted code (closure or lambda)."""

    def __init__(self, node, env, interp, defaults, kwdefaults, name):
        self.node, self.env, self.interp = node, env, interp
        self.defaults, self.kwdefaults, self.name = defaults, kwdefaults, name

    def __call__(self, *a, **k):
        return self.interp.call_ifunc(self, a, k)


class Env:
    def __init__(self, globs, parent=None, fname="", modfile=""):
        self.vars = {}
        self.globs = globs
        self.parent = parent
        self.fname = fname
        self.modfile = modfile

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        if n in self.globs:
            return self.globs[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise ProgExc(NameError(f"name {n!r} is not defined"), self.fname)


BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.MatMult: "@", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

import operator as _op

PYOP = {"+": _op.add, "-": _op.sub, "*": _op.mul, "/": _op.truediv, "//": _op.floordiv, "%": _op.mod, "**": _op.pow,
        "&": _op.and_, "|": _op.or_, "@": _op.matmul, "<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge,
        "==": _op.eq, "!=": _op.ne, "^": _op.xor, "<<": _op.lshift, ">>": _op.rshift}


class Poison:
    """a loop local whose value after a summarised loop is unknown"""

    def __init__(self, name):
        self.name = name


def symbolic(x):
    from .objs import IteObj, SName
    return isinstance(x, (Poly, Cx, B, SArr, SList, SIter, SName, IteObj)) or hasattr(x, "_symobj")


def deep_symbolic(x, d=0):
    if symbolic(x):
        return True
    if d > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(deep_symbolic(y, d + 1) for y in x)
    if isinstance(x, dict):
        return any(deep_symbolic(y, d + 1) for y in x.values())
    return False


class Interp:
    def __init__(self, contracts=None, loop_contracts=None):
        self.contracts = contracts or {}
        self.loop_contracts = loop_contracts or {}
        self.events = []
        self.frame_violations = []
        self.depth = 0
        self.used = set()          # functions interpreted
        self.used_contracts = set()
        self.trusted = set()       # external functions used through an assumed contract
        self.native = set()
        self.print_ok = True
        self.models = {}           # contracts of external functions of this run, by id
        self.on_value = None       # hook of a contract: cut points (a proved value is replaced by a symbol for it)

    # ----------------------------------------------------------------- calls
    def call(self, fn, args=(), kwargs=None, node=None, env=None):
        kwargs = kwargs or {}
        from . import npmodel
        if isinstance(fn, IFunc):
            return self.call_ifunc(fn, args, kwargs)
        if isinstance(fn, npmodel.Bound):
            return fn(self, *args, **kwargs)
        if isinstance(fn, types.FunctionType) and self.is_target(fn):
            key = fn.__module__ + "." + fn.__qualname__
            c = self.contracts.get(key)
            if c is not None:
                self.used_contracts.add(key)
                return c(self, *args, **kwargs)
            if self.native_ok(fn, args, kwargs):
                return self.call_native(fn, args, kwargs)
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, types.MethodType) and isinstance(fn.__func__, types.FunctionType) and self.is_target(fn.__func__):
            # methods of the package's own classes (Bunch): real code, run natively on stored values
            return self.call_native(fn, args, kwargs)
        if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, dict) and fn.__name__ == "get" and args and hasattr(args[0], "_optval"):
            try:
                return self.getitem(fn.__self__, args[0])
            except ProgExc:
                return args[1] if len(args) > 1 else None
        m = self.models.get(id(fn)) or npmodel.lookup(fn)
        if m is not None:
            return m(self, *args, **kwargs)
        if not any(deep_symbolic(a) for a in args) and not any(deep_symbolic(a) for a in kwargs.values()) \
                and not (isinstance(fn, types.BuiltinMethodType) and deep_symbolic(getattr(fn, "__self__", None))):
            return npmodel.native_call(self, fn, args, kwargs)
        if npmodel.native_allowed(fn):
            return self.call_native(fn, args, kwargs)
        raise Unsupported(f"call of {getattr(fn, '__name__', fn)!r} with symbolic arguments")

    def is_target(self, fn):
        f = fn.__code__.co_filename
        return (fn.__module__ or "").startswith("utide") or f.startswith(REPO + "/")

    def native_ok(self, fn, args, kwargs):
        return False

    def call_native(self, fn, args, kwargs):
        try:
            return fn(*args, **kwargs)
        except (ProgExc, _Return, _Break, _Continue, Cut):
            raise
        except Exception as e:
            raise ProgExc(e, getattr(fn, "__name__", "?"))

    def bind(self, a, args, kwargs, defaults, kwdefaults, name):
        """python argument binding for ast.arguments a"""
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(params):
            if a.vararg is None:
                raise ProgExc(TypeError(f"{name}() takes {len(params)} positional arguments but {len(args)} were given"), name)
            vals[a.vararg.arg] = tuple(args[len(params):])
            args = args[: len(params)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for p, v in zip(params, args):
            vals[p] = v
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in vals and k in params:
                raise ProgExc(TypeError(f"{name}() got multiple values for argument {k!r}"), name)
            if k in params or k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise ProgExc(TypeError(f"{name}() got an unexpected keyword argument {k!r}"), name)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        defaults = list(defaults or ())
        for p, v in zip(params[len(params) - len(defaults):], defaults):
            vals.setdefault(p, v)
        for p in kwonly:
            if p not in vals:
                if kwdefaults and p in kwdefaults:
                    vals[p] = kwdefaults[p]
        for p in params + kwonly:
            if p not in vals:
                raise ProgExc(TypeError(f"{name}() missing required argument: {p!r}"), name)
        return vals

    def call_function(self, fn, args, kwargs):
        node = func_ast(fn)
        vals = self.bind(node.args, args, kwargs, fn.__defaults__, fn.__kwdefaults__, fn.__name__)
        env = Env(fn.__globals__, None, fn.__name__, fn.__code__.co_filename)
        if fn.__closure__:
            for n, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                env.vars[n] = cell.cell_contents
        env.vars.update(vals)
        self.used.add(fn.__module__ + "." + fn.__qualname__)
        return self.run_body(node, env)

    def call_ifunc(self, f, args, kwargs):
        vals = self.bind(f.node.args, args, kwargs, f.defaults, f.kwdefaults, f.name)
        env = Env(f.env.globs, f.env, f.name, f.env.modfile)
        env.vars.update(vals)
        return self.run_body(f.node, env)

    def run_body(self, node, env):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("call depth")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            gen = is_generator(node)
            if gen:
                env.yields = []
            try:
                self.block(node.body, env)
            except _Return as r:
                return env.yields if gen else r.v
            return env.yields if gen else None
        finally:
            self.depth -= 1

    # ----------------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        try:
            return m(s, env)
        except RecursionError:
            raise Unsupported("recursion limit")

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                env.vars[a.asname] = mod
            else:
                env.vars[a.name.split(".")[0]] = importlib.import_module(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        import importlib
        pkg = env.globs.get("__package__") or ""
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg if s.level else None)
        for a in s.names:
            v = getattr(mod, a.name, None)
            if v is None:
                v = importlib.import_module(mod.__name__ + "." + a.name)
            env.vars[a.asname or a.name] = v

    def s_FunctionDef(self, s, env):
        if s.decorator_list:
            raise Unsupported("decorated nested function")
        d = [self.ev(x, env) for x in s.args.defaults]
        kd = {p.arg: self.ev(x, env) for p, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        env.vars[s.name] = IFunc(s, env, self, d, kd, s.name)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BIN[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = env.vars[t.id] if t.id in env.vars else env.lookup(t.id)
            env.vars[t.id] = self.iop(op, old, self.ev(s.value, env))
            if self.on_value is not None:
                self.on_value(env.vars[t.id])
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
            new = self.iop(op, old, self.ev(s.value, env))
            self.setitem(o, k, new)
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, old, v):
        if isinstance(old, SArr):
            new = self.binop(op, old, v)
            na = A.as_sarr(new)
            if len(na.shape) != len(old.shape) or not all(A.same_dim(a, b) for a, b in zip(na.shape, old.shape)):
                raise ProgExc(ValueError("non-broadcastable output operand"), "in-place operation")
            if A._ORD[na.dt] > A._ORD[old.dt]:
                raise ProgExc(TypeError(f"Cannot cast in-place result from kind {na.dt} to {old.dt}"), "in-place operation")
            sel = na.sel if isinstance(new, SArr) else None
            A.assign(old, None, na)
            if old.ndim == 1 and not old.is_ma:
                old.sel = sel
            return old
        if isinstance(old, np.ndarray):
            raise Unsupported("in-place operation on a concrete array") if symbolic(v) else self.inplace_native(op, old, v)
        if isinstance(old, list) and op == "+":
            old.extend(v)
            return old
        if isinstance(old, SList) and op == "+":
            old.extend(v)
            return old
        if isinstance(old, (set, dict)):
            f = {"|": _op.ior, "&": _op.iand, "-": _op.isub}[op]
            return f(old, v)
        return self.binop(op, old, v)

    def inplace_native(self, op, old, v):
        self.frame_violations.append("in-place operation on a module-level or input array")
        return Unsupported("in-place operation on a shared concrete array")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                try:
                    del o[k]
                except KeyError as e:
                    raise ProgExc(e, env.fname)
            else:
                raise Unsupported("del target")

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise ProgExc(AssertionError(), env.fname, True)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = env.vars.get("__exc__")
            raise ProgExc(cur, env.fname, True) if cur is not None else Unsupported("bare raise")
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = e()
        raise ProgExc(e, f"{env.fname}:{s.lineno}", True)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except ProgExc as e:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        t = self.ev(h.type, env)
                        match = isinstance(e.exc, t)
                    if match:
                        if h.name:
                            env.vars[h.name] = e.exc
                        env.vars["__exc__"] = e.exc
                        self.block(h.body, env)
                        env.vars.pop("__exc__", None)
                        if h.name:
                            env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        from . import npmodel
        for it in s.items:
            cm = self.ev(it.context_expr, env)
            if not isinstance(cm, (np.errstate, npmodel.NullCtx)) and type(cm).__name__ not in ("catch_warnings", "_GeneratorContextManager"):
                raise Unsupported(f"with {type(cm).__name__}")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm, env)
        self.block(s.body, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        key = (env.fname, self.loop_index(s, env))
        lc = self.loop_contracts.get(key)
        if lc is not None:
            return lc(self, s, it, env)
        seq = self.iterate(it)
        if isinstance(seq, SIter):
            return self.generic_loop(s, seq, env)
        broke = False
        for v in seq:
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, env)

    def loop_index(self, s, env):
        """ordinal of this loop among the loops of its function"""
        return getattr(s, "_ordinal", None) if hasattr(s, "_ordinal") else self._number(s, env)

    def _number(self, s, env):
        _, tree = module_ast(env.modfile)
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef):
                k = 0
                for n in ast.walk(fn):
                    if isinstance(n, (ast.For, ast.While)):
                        n._ordinal = k
                        k += 1
        return getattr(s, "_ordinal", None)

    def s_While(self, s, env):
        key = (env.fname, self.loop_index(s, env))
        lc = self.loop_contracts.get(key)
        if lc is not None:
            return lc(self, s, None, env)
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 300:
                raise Unsupported("while loop without invariant")
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    # --- loops over a symbolic number of items
    def append_loop(self, s, seq, env):
        """a loop that only appends to fresh lists is the list comprehension"""
        def form(body, conds):
            out, conds = [], list(conds)
            for st in body:
                if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Continue):
                    conds.append(ast.UnaryOp(ast.Not(), st.test))
                elif isinstance(st, ast.If) and not st.orelse:
                    r = form(st.body, conds + [st.test])
                    if r is None:
                        return None
                    out += r
                elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                        and st.value.func.attr == "append" and isinstance(st.value.func.value, ast.Name) \
                        and len(st.value.args) == 1 and not st.value.keywords:
                    out.append((st.value.func.value.id, st.value.args[0], list(conds)))
                else:
                    return None
            return out
        items = form(s.body, [])
        if not items:
            return False
        names = [n for n, _, _ in items]
        if len(set(names)) < len(names):
            return False
        for n, el, cs in items:
            if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) or (isinstance(x, ast.Name) and x.id in names)
                   for q in [el] + cs for x in ast.walk(q)):
                return False
            L = env.vars.get(n)
            if not isinstance(L, list) or L or any(v is L for k, v in env.vars.items() if k != n):
                return False
        new = {}
        for n, el, cs in items:
            node = ast.copy_location(ast.ListComp(el, [ast.comprehension(s.target, ast.Name("__seq", ast.Load()), cs, 0)]), s)
            ast.fix_missing_locations(node)
            sub = Env(env.globs, env, env.fname, env.modfile)
            sub.vars["__seq"] = seq
            new[n] = self.comp(node, sub, "list")
        env.vars.update(new)
        for t in ast.walk(s.target):
            if isinstance(t, ast.Name):
                env.vars[t.id] = Poison(t.id)
        return True

    def generic_loop(self, s, seq, env):
        if not s.orelse and self.append_loop(s, seq, env):
            return
        if s.orelse:
            raise Unsupported("for/else over a symbolic range")
        if any(isinstance(n, (ast.Break, ast.Return)) for b in s.body for n in ast.walk(b)):
            raise Unsupported("break/return in a loop of symbolic length")
        n = T.lift(seq.n)
        c = T.fresh("loop", "I", True)
        ca = T.the_atom(c)
        guard = [x for x in (T.cmp_("le", 0, c), T.cmp_("lt", c, n)) if not isinstance(x, bool)]
        outer_vars = dict(env.vars)
        base = list(ENGINE.facts)
        writes = {}

        def tracker(arr):
            writes.setdefault(id(arr), arr)
            old_fw(arr)

        # counters: `v += step` in the body; v = start + c*step at the start of iteration c is checked to be inductive
        counters = {}
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) \
                        and isinstance(x.value, ast.Constant) and type(x.value.value) is int:
                    v0 = outer_vars.get(x.target.id)
                    if (type(v0) is int or isinstance(v0, Poly)) and x.target.id not in counters:
                        counters[x.target.id] = (v0, x.value.value)
        offsets = [T.ZERO] + [T.lift(v0) for v0, st in counters.values() if st == 1 and not T.lift(v0) == T.ZERO]

        def run_once():
            env.vars.clear()
            env.vars.update(outer_vars)
            for v, (v0, st) in counters.items():
                env.vars[v] = T.lift(v0) + c * st
            self.assign(s.target, seq.f(c), env)
            try:
                self.block(s.body, env)
            except _Continue:
                pass

        def snapshot(arrs):
            return {id(a): (a, a._fn, a.mask_fn, a.pieces, a.sel) for a in arrs}

        def restore(snap):
            for a, f, m, p, q in snap.values():
                a._fn, a.mask_fn, a.pieces, a.sel = f, m, p, q

        # pass 1: find what is written
        created0 = SArr_counter()
        old_fw = CTX.frame_write
        first = {}

        def tracker1(arr):
            if id(arr) not in first:
                first[id(arr)] = (arr, arr._fn, arr.mask_fn, arr.pieces, arr.sel)
            if old_fw:
                old_fw(arr)

        dictsnap = DictSnap(outer_vars)
        CTX.frame_write = staticmethod(tracker1)
        nev = len(self.events)
        try:
            ex = Explorer()

            def once():
                restore(first)
                first_local = set(first)
                run_once()
                return None

            ex.run(once, base + guard)
        finally:
            CTX.frame_write = old_fw
            restore(first)
        del self.events[nev:]
        dictsnap.check()
        pre_existing = [v for v in first.values() if getattr(v[0], "serial", 0) <= created0]
        targets = [v[0] for v in pre_existing]
        # pass 2: initial contents opaque, so that reads of other entries are visible
        tag = f"pre!{id(s)}!{T._fresh_ctr[0]}"
        T._fresh_ctr[0] += 1
        snap = snapshot(targets)
        outs = []

        def opaque(k, a, part):
            def f(idx):
                if part == "c":
                    return Cx(T.app(f"{tag}.{k}.re", *map(T.lift, idx)), T.app(f"{tag}.{k}.im", *map(T.lift, idx)))
                if part == "b":
                    return T.bapp(f"{tag}.{k}", *map(T.lift, idx))
                if part == "O":
                    raise Unsupported("object array written in a symbolic loop")
                return T.app(f"{tag}.{k}", *map(T.lift, idx), sort="I" if part == "i" else "R")
            return f

        js = [[T.fresh("j", "I", True) for _ in a.shape] for a in targets]

        def once2():
            restore(snap)
            for k, a in enumerate(targets):
                a._fn = A.memoize(opaque(k, a, a.dt))
                a.pieces, a.sel = {}, None
                if a.is_ma:
                    raise Unsupported("masked array written in a symbolic loop")
            run_once()
            for v, (v0, st) in counters.items():
                if not T.lift(env.vars[v]) == T.lift(v0) + (c + 1) * st:
                    raise Unsupported(f"{v} is not advanced alike by every iteration")
            res_ = []
            for k, a in enumerate(targets):
                idx = tuple(js[k])
                f = a.snap()
                facts = list(ENGINE.facts)
                # frame: at any other first index nothing changed
                good = []
                for q, off in enumerate(offsets):
                    ENGINE.push(T.not_(T.eq_(idx[0], off + c)))
                    other = f(idx)
                    want = opaque(k, a, a.dt)(idx)
                    ENGINE.set_facts(list(facts))
                    if other == want:
                        good.append(q)
                if not good:
                    raise Unsupported("loop iteration writes outside its own row")
                # contents of its row, column indices symbolic: kept as a function of the remaining indices
                res_.append((f, list(ENGINE.facts), good))
            evs = self.events[nev:]
            del self.events[nev:]
            return res_, evs

        nfacts = len(base) + len(guard)
        paths = []
        ex = Explorer()
        results = []

        def rec():
            r = once2()
            return r

        CTX.frame_write = staticmethod(lambda arr: None)
        try:
            results = ex.run(rec, base + guard)
        finally:
            CTX.frame_write = old_fw
        for fs, (tagk, val) in results:
            if tagk == "exc":
                raise Unsupported(f"exception inside a symbolic loop: {val}")
        restore(snap)
        env.vars.clear()
        env.vars.update(outer_vars)
        assigned = {t.id for b in [s] for t in ast.walk(b) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
        for v in assigned:
            env.vars[v] = Poison(v)
        for v, (v0, st) in counters.items():
            env.vars[v] = T.lift(v0) + n * st
        for k, a in enumerate(targets):
            old = snap[id(a)][1]
            if old_fw:
                old_fw(a)
            good = [q for q in range(len(offsets)) if all(q in r[k][2] for _, (_, (r, _e)) in results)]
            if not good:
                raise Unsupported("loop iterations write different rows")
            a._fn = A.memoize(self._loop_result(k, a, old, results, ca, n, tag, offsets[good[0]]))
            a.pieces, a.sel = {}, None
        for fs, (tagk, (r, evs)) in results:
            for e in evs:
                self.events.append(("loop", e, c, n, fs))

    def _loop_result(self, k, a, old, results, ca, n, tag, off):
        cvar = T.pa(ca)

        def row(idx):
            """post-iteration content of row c (as a term in c)"""
            parts = []
            for fs, (_, (r, _e)) in results:
                f, facts, _ = r[k]
                save = ENGINE.facts
                ENGINE.set_facts(facts)
                try:
                    v = f((A.dim(off + cvar),) + tuple(idx[1:]))
                finally:
                    ENGINE.set_facts(save)
                parts.append((T.and_(*fs) if fs else True, v))
            out = parts[-1][1]
            for cnd, v in reversed(parts[:-1]):
                out = T.ite(cnd, v, out)
            return out

        pre = f"{tag}."

        def fn(idx):
            it = T.lift(idx[0]) - off       # the iteration that writes this row
            inr = A.res(T.and_(T.cmp_("le", 0, it), T.cmp_("lt", it, n)))
            if inr is False:
                return old(idx)
            v = row(idx)
            v = tsubst(v, {ca: it})

            # the opaque initial contents must only be those of the own row
            def back(x):
                mp = {}
                for at in T.atoms_of(x) if not isinstance(x, str) else ():
                    if at.kind == "app" and isinstance(at.args[0], str) and at.args[0].startswith(pre):
                        nm = at.args[0][len(pre):].split(".")
                        if nm[0] != str(k) or not (at.args[1] == T.lift(idx[0])):
                            raise Unsupported("loop-carried dependence through an array")
                        o = old(tuple(A.dim(q) for q in at.args[1:]))
                        mp[at] = T.re_(o) if len(nm) > 1 and nm[1] == "re" else T.im_(o) if len(nm) > 1 else T.lift(o)
                return tsubst(x, mp) if mp else x

            v = back(v)
            if inr is True:
                return v
            return T.ite(inr, v, old(idx))

        return fn

    # ----------------------------------------------------------------- assignment targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
            if self.on_value is not None:
                self.on_value(v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        if isinstance(v, SArr) and isinstance(v.shape[0], int):
            vs = [A.getitem(v, i) for i in range(v.shape[0])]
        elif isinstance(v, SArr):
            r = ENGINE.resolve(T.eq_(T.lift(v.shape[0]), n))
            if r is not True:
                raise Unsupported("unpacking an array of symbolic length")
            vs = [A.getitem(v, i) for i in range(n)]
        else:
            seq = self.iterate(v)
            if isinstance(seq, SIter):
                raise Unsupported("unpacking a symbolic sequence")
            vs = list(seq)
        st = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if st:
            i = st[0]
            k = len(vs) - (n - 1)
            if k < 0:
                raise ProgExc(ValueError("not enough values to unpack"), "unpack")
            return vs[:i] + [vs[i : i + k]] + vs[i + k :]
        if len(vs) != n:
            raise ProgExc(ValueError(f"expected {n} values to unpack, got {len(vs)}"), "unpack")
        return vs

    def setattr(self, o, name, v):
        if isinstance(o, SArr):
            if name == "real":
                A.assign(o.real, None, v) if o.dt == "c" else A.assign(o, None, v)
                return
            if name == "imag":
                A.assign(o.imag, None, v)
                return
            raise Unsupported(f"setting attribute {name} of an array")
        if isinstance(o, dict):
            o[name] = v
            return
        raise Unsupported(f"setting attribute {name} of {type(o).__name__}")

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            try:
                A.setitem(o, self.conv_index(k), v)
            except (ValueError, IndexError) as e:
                raise ProgExc(e, "item assignment")
            return
        if isinstance(o, dict):
            if symbolic(k):
                raise Unsupported("symbolic dict key")
            self.note_dict_write(o, k)
            o[k] = v
            return
        if isinstance(o, list):
            o[k] = v
            return
        if isinstance(o, np.ndarray):
            from . import npmodel
            if npmodel.OWNED.get(id(o)) is o:
                if deep_symbolic(k) or deep_symbolic(v):
                    raise Unsupported("symbolic write into a concrete array")
                o[k] = v
                return
            self.frame_violations.append(f"item assignment into an array the function does not own, shape {o.shape}")
            raise Unsupported("write into a shared concrete array")
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def note_dict_write(self, o, k):
        pass

    def conv_index(self, k):
        if isinstance(k, SList):
            return k.arr
        if isinstance(k, tuple):
            return tuple(x.arr if isinstance(x, SList) else x for x in k)
        return k

    # ----------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        v = env.lookup(e.id)
        if isinstance(v, Poison):
            raise Unsupported(f"use of loop variable {e.id} after a loop of symbolic length")
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(list(self.iterate(self.ev(x.value, env))))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_Lambda(self, e, env):
        d = [self.ev(x, env) for x in e.args.defaults]
        return IFunc(e, env, self, d, {}, "<lambda>")

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        return self.ev(e.body, env) if self.truth(c) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, B) else False
            if not isand and t:
                return v if not isinstance(v, B) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, B):
                return T.not_(v)
            return not self.truth(v)
        if isinstance(v, SArr):
            return -v if isinstance(e.op, ast.USub) else (~v if isinstance(e.op, ast.Invert) else v)
        if isinstance(v, B) and isinstance(e.op, ast.Invert):
            return T.not_(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(BIN[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("use of loop variable after a loop")
        if isinstance(a, list) and isinstance(b, SList) or isinstance(a, SList) and isinstance(b, (list, SList)):
            if op == "+":
                r = SList(a.arr if isinstance(a, SList) else A.as_sarr(a))
                r.extend(b)
                return r
        sa, sb = symbolic(a), symbolic(b)
        if op == "@" and (sa or sb):
            return A.dot(a, b)
        if sa or sb:
            for x in (a, b):
                if hasattr(x, "_symobj"):
                    r = x.binop(self, op, a, b)
                    if r is not NotImplemented:
                        return r
            if isinstance(a, (tuple, str)) or isinstance(b, (tuple, str)):
                if op in ("==", "!="):
                    return A.OPS[op](a, b) if not (isinstance(a, SArr) or isinstance(b, SArr)) else A.binop(op, a, b)
                if isinstance(a, str) and op == "%":
                    return "<formatted>"
                raise Unsupported(f"operator {op} on {type(a).__name__} and {type(b).__name__}")
            if a is None or b is None:
                if op in ("==", "!="):
                    return op == "!="
                raise ProgExc(TypeError(f"unsupported operand type(s) for {op}: None"), "operator")
            arr = A.is_arr(a) or A.is_arr(b) or isinstance(a, (SArr, SList, list)) or isinstance(b, (SArr, SList, list))
            try:
                if arr:
                    if op == "-" and (getattr(a, "dt", None) == "b" and getattr(b, "dt", None) == "b"):
                        raise ProgExc(TypeError("numpy boolean subtract"), "operator")
                    return A.binop(op, a if not isinstance(a, SList) else a.arr, b if not isinstance(b, SList) else b.arr)
                return A.OPS[op](a, b)
            except A.ShapeMismatch as e:
                raise ProgExc(e, "operator")
        try:
            r = PYOP[op](a, b)
        except (ProgExc, Unsupported):
            raise
        except Exception as e:
            raise ProgExc(e, "operator")
        return r

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        out = None
        for op, rhs in zip(e.ops, e.comparators):
            right = self.ev(rhs, env)
            v = self.compare(op, left, right)
            if out is None:
                out = v
            else:
                if self.truth(out):
                    out = v
                else:
                    return out
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b or (a is None and b is None) or (isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and a is b)
        if isinstance(op, ast.IsNot):
            return not self.compare(ast.Is(), a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return T.not_(self.contains(b, a))
        return self.binop(CMP[type(op)], a, b)

    def contains(self, cont, x):
        from .objs import SName
        if hasattr(cont, "_symobj"):
            return cont.contains(x)
        if isinstance(cont, dict):
            if isinstance(x, SName) or hasattr(x, "_optval"):
                return T.or_(*[x == k for k in cont])
            if symbolic(x):
                raise Unsupported("symbolic key lookup")
            return x in cont
        if isinstance(cont, SList) or isinstance(cont, SArr):
            arr = cont.arr if isinstance(cont, SList) else cont
            n = arr.shape[0]
            if isinstance(n, int) and n <= 200:
                f = arr.snap()
                return T.or_(*[A._eq_vals(f((i,)), x) for i in range(n)])
            f = arr.snap()
            j = T.fresh("j", "I", True)
            key = A.arr_key(arr)
            xv = x.idx if isinstance(x, SName) else (T.pconst(__import__("pyvc.objs", fromlist=["x"]).NAME_INDEX[x]) if isinstance(x, str) else T.lift(x))
            return T.bapp("member", key, xv)
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, np.ndarray):
            cont = list(cont.ravel())
        if isinstance(cont, (list, tuple, set, frozenset)) and (symbolic(x) or any(symbolic(y) for y in cont)):
            return T.or_(*[bool_eq(y, x) for y in cont])
        try:
            return x in cont
        except Exception as e:
            raise ProgExc(e, "in")

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev(e.slice, env))

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else self.ev(x, env)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def getitem(self, o, k):
        from . import npmodel
        from .objs import SName
        if hasattr(o, "_symobj"):
            return o.getitem(k)
        if isinstance(o, SArr) or (isinstance(o, np.ndarray) and deep_symbolic(k)):
            try:
                return A.getitem(o, self.conv_index(k))
            except (ValueError, IndexError) as e:
                raise ProgExc(e, "indexing")
        if isinstance(o, SList):
            r = A.getitem(o.arr, k)
            if isinstance(r, SArr):
                cp = SList(A.SArr(r.shape, r.snap(), r.dt, pieces=r.pieces, sel=r.sel))
                return cp
            return r
        if isinstance(o, dict):
            if isinstance(k, SName):
                return self.dict_gather(o, k)
            if hasattr(k, "_optval"):
                for key in o:
                    b = k == key
                    if b if isinstance(b, bool) else ENGINE.decide(b):
                        return o[key]
                raise ProgExc(KeyError(repr(k)), "key lookup")
            if symbolic(k):
                raise Unsupported("symbolic dict key")
            try:
                return o[k]
            except (KeyError, TypeError) as e:
                raise ProgExc(e, "key lookup")
        if isinstance(o, (list, tuple)) and symbolic(k):
            k = A.dim(k)
            if isinstance(k, int):
                return o[k]
            return A.pick(k, [lambda v=v: v for v in o])
        try:
            if isinstance(k, Poly):
                k = A.dim(k)
            if isinstance(k, slice):
                k = slice(*[A.dim(x) if isinstance(x, Poly) else x for x in (k.start, k.stop, k.step)])
            if isinstance(k, tuple):
                k = tuple(A.dim(x) if isinstance(x, Poly) else x for x in k)
            if isinstance(o, np.ndarray) and isinstance(k, SArr):
                return A.getitem(o, k)
            return o[k]
        except (ProgExc, Unsupported):
            raise
        except Exception as e:
            raise ProgExc(e, "indexing")

    def dict_gather(self, o, name):
        from .objs import NAME_INDEX
        if list(o.keys()) == list(NAME_INDEX) and [int(v) for v in o.values()] == list(range(len(o))):
            return name.idx
        vals = list(o.values())
        if list(o.keys()) == list(NAME_INDEX) and all(isinstance(v, (int, float, np.number)) for v in vals):
            return A.table_gather(np.array(vals), (name.idx,))
        raise Unsupported("dict lookup with a symbolic name")

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def getattr(self, o, name):
        from . import npmodel
        if hasattr(o, "_symobj"):
            return o.getattr(self, name)
        if isinstance(o, (SArr, Poly, Cx, B)) or isinstance(o, SList) or isinstance(o, SIter):
            return npmodel.sym_getattr(self, o, name)
        if isinstance(o, np.ndarray):
            return npmodel.nd_getattr(self, o, name)
        if isinstance(o, (np.generic, float, int)) and name in ("real", "imag", "conj", "conjugate", "shape", "ndim", "astype", "squeeze"):
            pass
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise ProgExc(e, "attribute")

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs, e, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, env)
                out.append("<sym>" if deep_symbolic(x) else str(x))
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return str(self.ev(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env.vars[e.target.id] = v
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    # A generator function runs to its end when it is called and yields a list.  That is what Python computes as long as
    # what it reads and writes is not touched between two items; a generator that writes to anything but its own locals is refused.
    def e_Yield(self, e, env):
        if not hasattr(env, "yields"):
            raise Unsupported("yield outside a generator function")
        env.yields.append(None if e.value is None else self.ev(e.value, env))

    def e_YieldFrom(self, e, env):
        if not hasattr(env, "yields"):
            raise Unsupported("yield outside a generator function")
        seq = self.iterate(self.ev(e.value, env))
        if isinstance(seq, SIter):
            raise Unsupported("yield from a symbolic range")
        env.yields.extend(seq)

    # --- comprehensions
    def e_ListComp(self, e, env):
        return self.comp(e, env, "list")

    def e_SetComp(self, e, env):
        r = self.comp(e, env, "list")
        if isinstance(r, SList):
            return r
        return set(r) if not any(symbolic(x) for x in r) else SymSet(r)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, "list")

    def e_DictComp(self, e, env):
        out = {}
        sub = Env(env.globs, env, env.fname, env.modfile)

        def rec(gi):
            if gi == len(e.generators):
                out[self.ev(e.key, sub)] = self.ev(e.value, sub)
                return
            g = e.generators[gi]
            seq = self.iterate(self.ev(g.iter, sub))
            if isinstance(seq, SIter):
                raise Unsupported("dict comprehension over a symbolic range")
            for v in seq:
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    rec(gi + 1)

        rec(0)
        return out

    def comp(self, e, env, kind):
        sub = Env(env.globs, env, env.fname, env.modfile)
        if len(e.generators) == 1:
            g = e.generators[0]
            seq = self.iterate(self.ev(g.iter, sub))
            if isinstance(seq, SIter):
                return self.sym_comp(e, g, seq, sub)
            seq = list(seq)
            # conditions that stay symbolic select symbolically
            out = []
            conds = []
            for v in seq:
                self.assign(g.target, v, sub)
                c = True
                for cnd in g.ifs:
                    cv = self.ev(cnd, sub)
                    if isinstance(cv, B):
                        cv2 = ENGINE.resolve(cv)
                        cv = cv if cv2 is None else cv2
                    elif not isinstance(cv, bool):
                        cv = self.truth(cv)
                    c = T.and_(c, cv)
                if c is False:
                    continue
                conds.append(c)
                out.append(self.ev(e.elt, sub))
            if all(c is True for c in conds):
                return out
            # symbolic filter of a concrete sequence
            if len(conds) <= 6:
                keep = [x for x, c in zip(out, conds) if c is True or ENGINE.decide(c)]
                return keep
            vals = A.stack_list(out)
            mk = A.stack_list([c if isinstance(c, B) else bool(c) for c in conds])
            return SList(A.compress(vals, mk))
        out = []

        def rec(gi):
            if gi == len(e.generators):
                out.append(self.ev(e.elt, sub))
                return
            g = e.generators[gi]
            seq = self.iterate(self.ev(g.iter, sub))
            if isinstance(seq, SIter):
                raise Unsupported("nested comprehension over a symbolic range")
            for v in seq:
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                    rec(gi + 1)

        rec(0)
        return out

    def sym_comp(self, e, g, seq, sub):
        interp = self

        def at(i, what):
            interp.assign(g.target, seq.f(A.dim(i)), sub)
            return interp.ev(what, sub)

        probe = T.fresh("i", "I", True)
        with using([x for x in (T.cmp_("le", 0, probe), T.cmp_("lt", probe, T.lift(seq.n))) if not isinstance(x, bool)]):
            v0 = at(probe, e.elt)
            c0 = True
            for cnd in g.ifs:
                cv = at(probe, cnd)
                if not isinstance(cv, (B, bool)):
                    raise Unsupported("comprehension condition")
                c0 = T.and_(c0, cv)
        dt = A.kind_of_value(v0)
        arr = SArr((seq.n,), lambda idx: at(idx[0], e.elt), dt)
        if c0 is True:
            return SList(arr)

        def mf(idx):
            c = True
            for cnd in g.ifs:
                c = T.and_(c, at(idx[0], cnd))
            return c

        mask = SArr((seq.n,), mf, "b")
        # provenance through an already filtered sequence
        src = getattr(seq, "arrs", ())
        if src and all(getattr(a, "sel", None) is not None for a in src) and len(src) == 1:
            a = src[0]
            mB, n, orig = a.sel
            single = isinstance(g.target, ast.Name) and seq.plain

            if single:
                def oel(idx):
                    interp.assign(g.target, orig(idx), sub)
                    return interp.ev(e.elt, sub)

                def omask(idx):
                    interp.assign(g.target, orig(idx), sub)
                    c = True
                    for cnd in g.ifs:
                        c = T.and_(c, interp.ev(cnd, sub))
                    return c

                arr.sel = (mB, n, oel)
                mask.sel = (mB, n, omask)
        return SList(A.compress(arr, mask))

    # ----------------------------------------------------------------- iteration / truth
    def iterate(self, it):
        if isinstance(it, SIter):
            if isinstance(it.n, int):
                return [it.f(i) for i in range(it.n)]
            return it
        if isinstance(it, SList):
            return self._seq_of(it.arr)
        if isinstance(it, SArr):
            return self._seq_of(it)
        if isinstance(it, np.ndarray):
            return list(it)
        if hasattr(it, "_symobj"):
            return it.iterate()
        try:
            return iter(it)
        except TypeError as e:
            raise ProgExc(e, "iteration")

    def _seq_of(self, arr):
        n = arr.shape[0]
        if isinstance(n, int):
            return [A.getitem(arr, i) for i in range(n)]
        s = SIter(n, lambda i: A.getitem(arr, i), (arr,))
        s.plain = True
        return s

    def truth(self, v):
        if isinstance(v, (B, Poly, Cx)):
            return bool(v)
        if isinstance(v, SArr):
            try:
                return bool(v)
            except ValueError as e:
                raise ProgExc(e, "truth value")
        if isinstance(v, SList):
            n = v.n
            return n > 0 if isinstance(n, int) else ENGINE.decide(T.cmp_("lt", 0, n))
        if isinstance(v, Poison):
            raise Unsupported("loop variable after loop")
        if hasattr(v, "_symobj"):
            return v.truth()
        try:
            return bool(v)
        except (ProgExc, Unsupported):
            raise
        except Exception as e:
            raise ProgExc(e, "truth value")


class SymSet:
    _symobj = True

    def __init__(self, items):
        self.items = items

    def contains(self, x):
        return T.or_(*[bool_eq(y, x) for y in self.items])

    def iterate(self):
        raise Unsupported("iteration over a symbolic set")

    def truth(self):
        return bool(self.items)

    def getattr(self, interp, name):
        raise Unsupported(f"attribute {name} of a symbolic set")

    def binop(self, *a):
        return NotImplemented


class SortedSeq:
    """sorted(x) of a list of symbolic names: only its equality with another one is known"""

    _symobj = True

    def __init__(self, key, n):
        self.key, self.n = key, n

    def binop(self, interp, op, a, b):
        if op not in ("==", "!=") or not isinstance(a, SortedSeq) or not isinstance(b, SortedSeq):
            raise Unsupported("operation on a sorted list of symbolic names")
        same = a.key == b.key or T.bapp("same_elements", *sorted((a.key, b.key), key=repr))
        return same if op == "==" else T.not_(same)

    def contains(self, x):
        raise Unsupported("membership in a sorted list")

    def iterate(self):
        raise Unsupported("iteration over a sorted list of symbolic names")

    def truth(self):
        return T.cmp_("lt", 0, self.n)

    def getattr(self, interp, name):
        raise Unsupported(f"attribute {name} of a sorted list")


class DictSnap:
    """checks that a loop body leaves dict keys/values and lists alone"""

    def __init__(self, env):
        self.items = []
        seen = set()

        def walk(o, d):
            if d > 4 or id(o) in seen:
                return
            seen.add(id(o))
            if isinstance(o, dict):
                self.items.append((o, {k: id(v) for k, v in o.items()}))
                for v in o.values():
                    walk(v, d + 1)
            elif isinstance(o, list):
                self.items.append((o, [id(v) for v in o]))
                for v in o:
                    walk(v, d + 1)
            elif isinstance(o, tuple):
                for v in o:
                    walk(v, d + 1)

        for v in env.values():
            walk(v, 0)

    def check(self):
        for o, s in self.items:
            now = {k: id(v) for k, v in o.items()} if isinstance(o, dict) else [id(v) for v in o]
            if now != s:
                raise Unsupported("a loop of symbolic length mutates a container")


def SArr_counter():
    return A.SERIAL[0]


def bool_eq(a, b):
    if hasattr(a, "_optval") or hasattr(b, "_optval"):
        return a.equals(b) if hasattr(a, "_optval") else b.equals(a)
    r = A._eq_vals(a, b) if (symbolic(a) or symbolic(b)) else (a == b)
    return r


def tsubst(v, mp):
    from .objs import SName
    if isinstance(v, SName):
        return SName(T.subst(v.idx, mp))
    return T.subst(v, mp)
