"""Python lists (and lazily mapped iterables) of symbolic length, backed by a 1-d symbolic array."""
from __future__ import annotations

from . import arrays as A
from . import terms as T
from .terms import Unsupported


class SList:
    """a list whose elements are arr[0], arr[1], ..."""

    _slist = True

    def __init__(self, arr):
        self.arr = arr

    @property
    def n(self):
        return self.arr.shape[0]

    def to_array(self):
        return self.arr

    def get(self, i):
        return A.getitem(self.arr, i)

    def extend(self, other):
        o = other.arr if isinstance(other, SList) else A.as_sarr(other)
        self.arr = A.concat([self.arr, o], 0)

    def append(self, v):
        vv = v if not isinstance(v, (int, float)) else T.lift(v)
        self.arr = A.concat([self.arr, A.SArr((1,), lambda idx: vv, A.kind_of_value(vv))], 0)

    def copy(self):
        return SList(self.arr)

    def __repr__(self):
        return f"SList[{self.n}]"

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported("len() of a symbolic list in native code")

    def __iter__(self):
        if isinstance(self.n, int):
            return iter([self.get(i) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic list in native code")


class SIter:
    """a lazily evaluated iterable: n items, item i = f(i)"""

    def __init__(self, n, f, arrs=()):
        self.n, self.f = n, f
        self.arrs = arrs
