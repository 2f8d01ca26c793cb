"""python -m pyvc.run C03 [--tier quick] [--seed 1] [--seconds 300] [--only NAME]"""
from __future__ import annotations

import argparse
import importlib
import json
import sys

sys.setrecursionlimit(20000)
__import__("warnings").simplefilter("ignore")

PLAN = {
    "C01": ["c_solve:run_c01", "c_recon", "c_ellipse"],
    "C02": ["c_solve:run_c02", "c_init", "c_ellipse"],
    "C03": ["c_ellipse"],
    "C04": ["c_astron"],
    "C05": ["c_harm", "c_astron"],
    "C08": ["c_cnst", "c_init", "c_harm:run_lin", "c_solve:run_c08", "c_diag:run_order"],
    "C09": ["c_diag:run_order"],
    "C10": ["c_diag"],
    "C06": ["c_time"],
    "C07": ["c_init", "c_recon:run_wrapper", "c_time"],
    "C11": ["c_recon", "c_recon:run_wrapper", "c_diag"],
    "C12": ["c_solve:run_c12", "c_cnst", "c_ellipse", "c_recon"],
    "C13": ["c_linci", "c_solve:run_c13", "c_conf:run_linear", "c_psd"],
    "C14": ["c_weights", "c_small:run_rnormed", "c_robust"],
    "C15": ["c_psd"],
    "C16": ["c_small:run_cluster", "c_small:run_spd", "c_ellipse", "c_conf:run_mc", "c_psd"],
    "C17": ["c_frame"],
    "C18": ["c_opts", "c_solve:run_solve", "c_solve:run_c18", "c_init", "c_diag:run_rejected", "c_time:run_rejected"],
    "C19": ["c_phys", "c_psd:lemma_unit", "c_init", "c_ellipse"],
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=300)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from . import prove
    s = prove.Suite(a.pid, a.tier, a.seed, a.seconds)
    mods = [a.only] if a.only else PLAN.get(a.pid, [])
    for m in mods:
        mod = importlib.import_module("pyvc.contracts." + m.split(":")[0])
        fn = getattr(mod, m.split(":")[1]) if ":" in m else mod.run
        fn(s)
    r = s.result()
    if not a.only:
        from . import fidelity
        sys.stdout, out = sys.stderr, sys.stdout
        try:
            r["fidelity"] = f = fidelity.check(r["functions"], a.seed, seconds={"quick": 12, "thorough": 120}[a.tier], heavy=a.tier == "thorough")
        finally:
            sys.stdout = out
        r["undecided_units"] = r["undecided_units"] + [f"the verifier disagrees with CPython: {x}"[:400] for x in f["mismatches"]]
    if a.v:
        for o in r["obligations"]:
            print(f"{o['status']:10s} {o['by'] or '':14s} {o['name']}  {o['detail'] if o['status'] != 'proved' else ''}"[:int(__import__('os').environ.get('PYVC_W', 400))])
        for u in r["undecided_units"]:
            print("UNDECIDED", u[:int(__import__('os').environ.get('PYVC_W', 400))])
        print({k: r[k] for k in ("functions", "backends", "solver_seconds", "vacuity", "seconds")})
        return
    print(json.dumps(r, default=str))


if __name__ == "__main__":
    main()
