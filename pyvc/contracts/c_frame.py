"""Purity: frame conditions of every function under contract, and what external code it calls."""
from __future__ import annotations

import importlib

from ..frame import FrameSuite
from ..lib import *  # noqa
from ..prove import *  # noqa

ALL = ["c_opts:process", "c_opts:infer", "c_opts:unknown_names", "c_init", "c_cnst", "c_harm", "c_harm:run_lin", "c_astron", "c_solve:run_c12", "c_solve:run_c18", "c_solve:run_solve",
       "c_robust", "c_weights", "c_small:run_rnormed", "c_small:run_cluster", "c_small:run_spd", "c_ellipse", "c_linci", "c_conf:run_linear", "c_conf:run_mc", "c_psd", "c_diag",
       "c_diag:run_order", "c_recon", "c_recon:run_wrapper", "c_time"]


_FOUND = []


def fuzz(val=None):
    if not _FOUND:          # the same search for every unit
        _FOUND.append(fuzz_())
    return _FOUND[0]


def fuzz_():
    import io
    import contextlib
    from oracle import props
    from oracle.common import Fail, Skip
    n = 0
    for i in range(40):
        rng = np.random.default_rng([77, i])
        try:
            with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                props.c17(rng, i)
            n += 1
        except Skip:
            pass
        except Fail as e:
            return f"{e.key}: {e.msg}"
    import json
    import subprocess
    import sys
    for seed in (1, 2):
        p = subprocess.run([sys.executable, "-m", "oracle.history", str(seed)], capture_output=True, text=True, timeout=200)
        r = json.loads(p.stdout.splitlines()[-1]) if p.stdout.strip() else {}
        if "fail" in r:
            return r["fail"]
        n += r.get("ok", 0)
    return ("no failing input", n)


def run(s, mods=None):
    fs = FrameSuite(s, fuzz)
    for m in mods or ALL:
        mod = importlib.import_module("pyvc.contracts." + m.split(":")[0])
        (getattr(mod, m.split(":")[1]) if ":" in m else mod.run)(fs)
