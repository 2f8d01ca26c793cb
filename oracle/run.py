"""Concrete contract runner:  python -m oracle.run C05 --n 200 --seed 1 --jobs 8 --seconds 20 [--case SEED:IDX]"""
import argparse
import json
import os
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True


def one(pid, seed, idx):
    import numpy as np

    from . import props
    from .common import Fail, Skip
    rng = np.random.default_rng([seed, idx, int(pid[1:])])
    old = sys.stdout
    sys.stdout = open(os.devnull, "w")
    try:
        with np.errstate(all="ignore"):
            d = props.ALL[pid](rng, idx)
        return ("ok", d)
    except Skip as e:
        return ("skip", str(e))
    except Fail as e:
        return ("fail", (e.key, e.msg))
    except Exception:
        return ("fail", ("result-shape", traceback.format_exc(limit=-4)))
    finally:
        sys.stdout.close()
        sys.stdout = old


def work(a):
    pid, seed, lo, hi, deadline = a
    out = []
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        out.append((i,) + one(pid, seed, i))
        if out[-1][1] == "fail" and sum(o[1] == "fail" for o in out) >= 4:
            break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seconds", type=float, default=20)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--case")
    a = ap.parse_args()
    if a.case:
        seed, idx = a.case.split(":")
        st, d = one(a.pid, int(seed), int(idx))
        print(json.dumps({"status": st, "detail": d}))
        sys.exit(1 if st == "fail" else 0)
    t0 = time.time()
    deadline = t0 + a.seconds
    import multiprocessing as mp

    from . import props  # noqa: F401  (import before forking)
    chunks = [(a.pid, a.seed, i, min(i + 3, a.start + a.n), deadline) for i in range(a.start, a.start + a.n, 3)]
    res = []
    if a.jobs > 1:
        with mp.get_context("fork").Pool(a.jobs) as p:
            for r in p.imap_unordered(work, chunks):
                res.extend(r)
    else:
        for c in chunks:
            res.extend(work(c))
    res.sort(key=lambda r: r[0])
    ok = [r for r in res if r[1] == "ok"]
    fails = [{"case": f"{a.seed}:{r[0]}", "key": r[2][0], "msg": r[2][1]} for r in res if r[1] == "fail"]
    print(json.dumps({"property": a.pid, "evaluations": len(res), "ok": len(ok), "skipped": sum(r[1] == "skip" for r in res),
                      "distinct": len({r[2] for r in ok}), "samples": [r[2] for r in ok[:3]], "fails": fails,
                      "wall": time.time() - t0}))


if __name__ == "__main__":
    main()
