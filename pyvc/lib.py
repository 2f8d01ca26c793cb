"""Helpers for writing contracts."""
from __future__ import annotations

import os
import sys

REPO = os.environ.get("UTIDE_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

import numpy as np

from . import arrays as A
from . import interp as I
from . import terms as T
from .arrays import SArr
from .interp import ENGINE, Interp, ProgExc, assume, explore, using
from .terms import Cx, Poly, Unsupported

from oracle import ref as _ref  # noqa: E402
from .objs import NAME_INDEX  # noqa: E402

NAME_INDEX.update({n: i for i, n in enumerate(_ref.NAMES)})     # the published table, not the package's

import utide  # noqa: E402
import utide._solve as m_solve  # noqa: E402
import utide._reconstruct as m_rec  # noqa: E402
import utide._time_conversion as m_time  # noqa: E402
import utide._ut_constants as m_const  # noqa: E402
import utide.astronomy as m_astron  # noqa: E402
import utide.confidence as m_conf  # noqa: E402
import utide.constituent_selection as m_sel  # noqa: E402
import utide.diagnostics as m_diag  # noqa: E402
import utide.ellipse_params as m_ell  # noqa: E402
import utide.harmonics as m_harm  # noqa: E402
import utide.periodogram as m_per  # noqa: E402
import utide.robustfit as m_rob  # noqa: E402
import utide.utilities as m_util  # noqa: E402


def nvar(name, lo=0):
    """a symbolic integer >= lo"""
    v = T.var(name, "I", True)
    if lo > 0:
        b = T.cmp_("le", lo, v)
        if not isinstance(b, bool):
            ENGINE.push(b)
    return v


def rarr(name, *shape, nonneg=False, sort="R", owner="input"):
    dt = "i" if sort == "I" else "f"
    return SArr(shape, lambda idx: T.app(name, *[T.lift(i) for i in idx], sort=sort, nonneg=nonneg), dt, owner=owner)


def carr(name, *shape, owner="input"):
    return SArr(shape, lambda idx: Cx(T.app(name + "_re", *[T.lift(i) for i in idx]),
                                      T.app(name + "_im", *[T.lift(i) for i in idx])), "c", owner=owner)


def deg(x):
    return x * T.PI / 180


def cosd(x):
    return T.cis(deg(T.lift(x)))[0]


def sind(x):
    return T.cis(deg(T.lift(x)))[1]


def gen(n, name="k"):
    """a generic index 0 <= k < n (fact pushed)"""
    if A.dim(n) == 1:
        return T.ZERO
    k = T.fresh(name, "I", True)
    b = T.cmp_("lt", k, n)
    if not isinstance(b, bool):
        ENGINE.push(b)
    return k
