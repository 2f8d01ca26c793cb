"""History: every call gives the result it gives in a fresh process, whatever was called before (python -m oracle.history SEED).

One call and many variations of it, each differing in a single argument, are run (a) each in a process of its own that made no other call and
(b) one after another in one process, in several orders; the results have to be identical."""
import contextlib
import io
import json
import os
import pickle
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True

import numpy as np  # noqa: E402

from .common import deep_eq, reconstruct, solve  # noqa: E402


def variations(rng):
    n = 24 * 15
    t = 736000.25 + np.arange(n) / 24
    w = 2 * np.pi * 24 * np.array([0.0805114, 0.0833333, 0.0417807, 0.0387307])
    amp, ph = np.array([1.0, 0.4, 0.3, 0.2]), rng.random(4) * 6
    u = (amp * np.cos(np.outer(t - t[0], w) - ph)).sum(1) + 0.05 * rng.normal(size=n) + 0.3
    v = (0.5 * amp * np.sin(np.outer(t - t[0], w) - ph)).sum(1) + 0.05 * rng.normal(size=n)
    infer = dict(inferred_names=["P1"], reference_names=["K1"], amp_ratios=[0.33, 0.3], phase_offsets=[5.0, -3.0])
    base = dict(t=t, u=u, v=v, lat=41.3, epoch="python", constit=["M2", "S2", "K1", "O1"], verbose=False, conf_int="linear", white=False)
    out = [("base", {})]

    def add(label, **k):
        out.append((label, k))
    add("t shifted by a thousandth of a day", t=t + 1e-3)
    add("t shifted by a nanoday", t=t + 1e-9)
    add("t shifted by a day", t=t + 1)
    add("t shifted by 366 days", t=t + 366)
    add("other sampling, same start and length", t=t[0] + np.arange(n) / 20)
    add("other sampling, same middle time", t=t.mean() + (t - t.mean()) * 1.1)
    irr = t.copy()
    irr[1:-1] += (rng.random(n - 2) - 0.5) / 60
    add("irregular times, same first and last", t=irr)
    add("irregular times, others", t=np.concatenate([irr[:1], irr[1:-1] + (rng.random(n - 2) - 0.5) / 90, irr[-1:]]))
    add("reversed", t=t[::-1], u=u[::-1], v=v[::-1])
    add("shorter", t=t[:-30], u=u[:-30], v=v[:-30])
    add("shorter at the start", t=t[30:], u=u[30:], v=v[30:])
    g = u.copy()
    g[40:55] = np.nan
    add("gap in u", u=g)
    add("gap in u as a mask", u=np.ma.masked_invalid(g))
    g2 = u.copy()
    g2[100:115] = np.nan
    add("another gap of the same size", u=g2)
    add("no v", v=None)
    add("v zero", v=0 * v)
    add("u scaled", u=2 * u)
    add("u with other noise", u=u + 0.1 * rng.normal(size=n))
    add("latitude south", lat=-41.3)
    add("latitude near", lat=41.30001)
    add("latitude small", lat=2.0)
    add("matlab epoch", epoch="matlab")
    add("date epoch", epoch="2015-01-01", t=t - 735000)
    add("another date epoch", epoch="2015-01-02", t=t - 735000)
    for k, v_ in dict(nodal=[False, "linear_time"], phase=["raw", "linear_time"], trend=[False], method=["robust"], conf_int=["none", "MC"], white=[True], Rayleigh_min=[0.7, 2],
                      order_constit=["frequency", "SNR", ["O1", "K1", "S2", "M2"]], infer=[infer, dict(infer, amp_ratios=[0.2, 0.25]), dict(infer, approximate=True)],
                      constit=["auto", ["M2", "S2", "K1", "N2"], ["S2", "M2", "O1", "K1"], ["M2", "S2", "K1"]]).items():
        for x in v_:
            add(f"{k}={x}", **{k: x})
    add("auto, Rayleigh 0.7", constit="auto", Rayleigh_min=0.7)
    add("auto, no v", constit="auto", v=None)
    add("robust huber", method="robust", robust_kw=dict(weight_function="huber"))
    add("robust, tuning", method="robust", robust_kw=dict(weight_function="cauchy", tune=1.0))
    add("no v, no nodal", v=None, nodal=False)
    add("no v, infer", v=None, infer=dict(infer, amp_ratios=[0.33], phase_offsets=[5.0]))
    add("fails: latitude", lat=None)
    add("fails: name", constit=["M2", "NOPE"])
    add("fails: option", method="nope")
    return base, out


def run(base, change):
    a = dict(base)
    a.update(change)
    t, u, v = a.pop("t"), a.pop("u"), a.pop("v")
    np.random.seed(5)
    try:
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
            c = solve(t, u, v, **a)
            res = {"coef": c}
            tt = np.concatenate([np.asarray(np.ma.getdata(t), float)[::7], np.asarray(np.ma.getdata(t), float)[::11] + 3.3])
            for i, kw in enumerate(({}, dict(min_SNR=0), dict(constit=["M2", "K1"]), dict(min_PE=5))):
                o = reconstruct(tt, c, epoch=a["epoch"], verbose=False, **kw)
                res[f"series {i}"] = {k: o[k] for k in ("h", "u", "v") if k in o}
    except Exception as e:
        res = {"exception": f"{type(e).__name__}: {e}"}
    return res


def cold(base, change):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            data = pickle.dumps(plain(run(base, change)))
        except Exception as e:
            data = pickle.dumps({"error": repr(e)})
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in dict.items(x)}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def main(seed):
    rng = np.random.default_rng([seed, 17])
    base, out = variations(rng)
    fresh = [cold(base, ch) for _, ch in out]
    n = 0
    orders = [[x for i in range(1, len(out)) for x in (0, i)], list(rng.permutation(len(out))), list(range(len(out)))[::-1]]
    prev = "nothing"
    for order in orders:
        for i in order:
            r = plain(run(base, out[i][1]))
            n += 1
            d = deep_eq(fresh[i], r, "result")
            if d is not None:
                return {"fail": f"the call [{out[i][0]}] gives another result after the call [{prev}] (and others) than in a fresh process: {d}", "calls": n}
            prev = out[i][0]
    return {"ok": n, "failing calls": sum("exception" in f for f in fresh)}


if __name__ == "__main__":
    print(json.dumps(main(int(sys.argv[1]) if len(sys.argv) > 1 else 1)))
