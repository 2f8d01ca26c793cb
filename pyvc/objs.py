"""Symbolic values that are not numbers."""
from . import terms as T


class SName:
    """A constituent name, identified by its index in the constituent table (a symbolic string)."""

    __slots__ = ("idx",)

    def __init__(self, idx):
        self.idx = T.lift(idx)

    def __repr__(self):
        return f"name<{self.idx}>"

    def __hash__(self):
        raise T.Unsupported("hash of a symbolic name")

    def __eq__(self, o):
        if isinstance(o, SName):
            return T.eq_(self.idx, o.idx)
        if isinstance(o, str):
            i = NAME_INDEX.get(o)
            if i is None:
                return False
            return T.eq_(self.idx, T.pconst(i))
        return False

    def __ne__(self, o):
        return T.not_(self.__eq__(o))


NAME_INDEX: dict = {}


class IteObj:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"ite({self.c},{self.a},{self.b})"


def ite_obj(c, a, b):
    if isinstance(a, SName) or isinstance(b, SName) or isinstance(a, str) or isinstance(b, str):
        ia = a.idx if isinstance(a, SName) else (T.pconst(NAME_INDEX[a]) if a in NAME_INDEX else None)
        ib = b.idx if isinstance(b, SName) else (T.pconst(NAME_INDEX[b]) if b in NAME_INDEX else None)
        if ia is not None and ib is not None:
            return SName(T.ite(c, ia, ib))
    return IteObj(c, a, b)


class _Opaque:
    """an arbitrary value of which only comparisons may be asked; different from every value in `excl`"""

    _symobj = True
    _optval = True
    _is_str = False

    def _init(self, tag, excl=()):
        self.tag, self.excl = tag, tuple(excl)
        return self

    def __repr__(self):
        return f"<{self.tag}>"

    __str__ = __repr__

    def __format__(self, f):
        return repr(self)

    def __hash__(self):
        raise T.Unsupported(f"hash of the symbolic value {self.tag}")

    def equals(self, o):
        if o is self:
            return True
        if isinstance(o, _Opaque):
            return T.bapp("same value", *sorted((self.tag, o.tag)))
        if isinstance(o, str) != self._is_str:
            if self._is_str or not isinstance(o, (bool, int, float, type(None))):
                return False        # a string equals strings only; a value that is none equals no string
        if any(type(o) is type(e) and o == e or not isinstance(o, str) and not isinstance(e, str) and o == e for e in self.excl):
            return False
        return T.bapp("value is", self.tag, repr(o))

    def __eq__(self, o):
        return self.equals(o)

    def __ne__(self, o):
        return T.not_(self.equals(o))

    def binop(self, interp, op, a, b):
        o = b if a is self else a
        if op == "==":
            return self.equals(o)
        if op == "!=":
            return T.not_(self.equals(o))
        raise T.Unsupported(f"operator {op} on the symbolic value {self.tag}")

    def __bool__(self):
        return bool(self.truth())

    def truth(self):
        r = T.bapp("true value", self.tag)
        return r if isinstance(r, bool) else bool(r)

    def isinstance(self, ts):
        if self._is_str:
            return str in ts or object in ts
        ts = [t for t in ts if t is not str]
        if not ts:
            return False
        return T.bapp("isinstance", self.tag, *sorted(t.__name__ for t in ts))

    def getattr(self, interp, name):
        raise T.Unsupported(f"attribute {name} of the symbolic value {self.tag}")

    def getitem(self, k):
        raise T.Unsupported(f"item of the symbolic value {self.tag}")

    def contains(self, x):
        raise T.Unsupported(f"contents of the symbolic value {self.tag}")

    def iterate(self):
        if self.iterable() is True:
            raise T.Unsupported(f"iteration over the symbolic value {self.tag}")
        from .interp import ProgExc
        if T.HOOK.decide(T.not_(self.iterable())) if not isinstance(self.iterable(), bool) else not self.iterable():
            raise ProgExc(TypeError("object is not iterable"), "iteration")
        raise T.Unsupported(f"iteration over the symbolic value {self.tag}")

    def length(self):
        raise T.Unsupported(f"length of the symbolic value {self.tag}")

    def iterable(self):
        return True if self._is_str else T.bapp("iterable", self.tag)


class OVal(_Opaque):
    """an arbitrary value that is not a string"""

    def __init__(self, tag, excl=()):
        self._init(tag, excl)


class OStr(_Opaque, str):
    """an arbitrary string"""

    _is_str = True

    def __new__(cls, tag, excl=()):
        return str.__new__(cls, "")._init(tag, excl)

    def __init__(self, *a):
        pass


def _forbid(name):
    def f(self, *a, **k):
        raise T.Unsupported(f"str.{name} of the symbolic string {self.tag}")
    return f


for _n in dir(str):
    if _n not in dir(object) and _n not in _Opaque.__dict__ or _n in ("__lt__", "__le__", "__gt__", "__ge__"):
        setattr(OStr, _n, _forbid(_n))


class Key(str):
    """some string different from every other one: nothing but hashing and equality may be asked of it"""

    def __new__(cls, tag):
        o = str.__new__(cls, "\0" + tag)
        o.tag = tag
        return o

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __str__(self):
        return f"<{self.tag}>"

    __repr__ = __str__


for _n in dir(str):
    if _n not in dir(object) or _n in ("__lt__", "__le__", "__gt__", "__ge__"):
        setattr(Key, _n, _forbid(_n))
