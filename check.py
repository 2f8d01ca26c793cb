#!/usr/bin/env python3
"""Driver of one property:  python3 check.py C05

Two parts, both working on /repo's current tree:
  1. deductive: contracts on the real functions, verification conditions generated from /repo's current source
     by pyvc and discharged by its normaliser and by z3/cvc5 (see DESIGN.md);
  2. bounded: the same contracts evaluated on concrete executions of the public entry points (never counted as
     proved; it stands in for what is not under contract and finds the failing input of a failed obligation).
Exit status 0 (held) or 1 with a VIOLATION line.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("UTIDE_REPO", "/repo")
VENV = "/opt/venv/bin/python"
PROVER = "/opt/veriftools/pyvenv/bin/python"
NCASES = {"quick": 400, "thorough": 2400}
SECONDS = {"quick": 90, "thorough": 480}
DEDUCT_SECONDS = {"quick": 420, "thorough": 700}


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[k] = "1"
    e["UTIDE_REPO"] = REPO
    e["PYTHONHASHSEED"] = "0"
    return e


def known():
    out = {}
    for line in open(os.path.join(HERE, "known-findings.txt")):
        line = line.strip()
        if line.startswith("finding:"):
            # finding: property=C12 key=approximate-inference  text
            parts = line.split(None, 3)
            pid = parts[1].split("=")[1]
            key = parts[2].split("=")[1]
            out.setdefault(pid, {})[key] = parts[3] if len(parts) > 3 else key
    return out


def run_json(cmd, timeout):
    try:
        p = subprocess.run(cmd, cwd=HERE, env=env(), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return None, "timeout: " + str((e.stderr or b"")[-1000:])
    lines = [x for x in p.stdout.splitlines() if x.startswith("{")]
    if not lines:
        return None, (p.stdout[-1500:] + "\n" + p.stderr[-3000:])
    try:
        return json.loads(lines[-1]), p.stderr[-2000:]
    except ValueError as e:
        return None, str(e)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in NCASES:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    kn = known().get(pid, {})

    # ---- bounded part (started first, it runs while the prover works)
    import threading
    orc = {}

    def runo():
        r, err = run_json([VENV, "-m", "oracle.run", pid, "--n", str(NCASES[tier]), "--seed", str(seed),
                           "--jobs", "8", "--seconds", str(SECONDS[tier])], SECONDS[tier] + 120)
        orc["r"], orc["err"] = r, err

    def runh():
        # history: calls in one process against the same calls in fresh processes
        hs = [seed] if tier == "quick" else [seed, seed + 1, seed + 2]
        orc["h"] = [(h, run_json([VENV, "-m", "oracle.history", str(h)], 300)[0]) for h in hs]

    th = threading.Thread(target=runo)
    th.start()
    thh = threading.Thread(target=runh) if pid == "C17" else None
    if thh:
        thh.start()
    ded, derr = None, ""
    if os.path.exists(os.path.join(HERE, "pyvc", "run.py")):
        ded, derr = run_json([PROVER, "-m", "pyvc.run", pid, "--tier", tier, "--seed", str(seed),
                              "--seconds", str(DEDUCT_SECONDS[tier] - 60)], DEDUCT_SECONDS[tier])
    th.join()
    if thh:
        thh.join()
    orac = orc["r"]
    fails, known_hits = [], {}
    if orac is None:
        # the package cannot even be imported or driven: the entry points do not produce any result
        msg = orc["err"] or ""
        fails.append({"case": "-", "key": "no-result", "msg": msg[-1500:]})
        orac = {"evaluations": 0, "ok": 0, "skipped": 0, "distinct": 0, "samples": [], "fails": []}
    for h, r in orc.get("h", []):
        if r and "fail" in r:
            fails.append({"case": "-", "key": "history", "msg": r["fail"] + f" (cd /verif && PYTHONPATH=/verif {VENV} -m oracle.history {h})"})
        elif r and "ok" in r:
            orac["evaluations"] += r["ok"]
    for f in orac["fails"]:
        if f["key"] in kn:
            known_hits.setdefault(f["key"], f)
        else:
            fails.append(f)
    refuted = [o for o in (ded or {}).get("obligations", []) if o["status"] == "refuted"
               and o.get("known") not in kn]
    known_obl = [o for o in (ded or {}).get("obligations", []) if o["status"] == "refuted" and o.get("known") in kn]

    # ---- a refuted (or undecided) obligation: look harder for a failing input on the real code
    searched = 0
    undecided = (ded or {}).get("undecided_units", []) + [o for o in (ded or {}).get("obligations", []) if o["status"] == "undecided"]
    if (refuted or undecided) and not fails:
        for extra in range(1, 4 if tier == "quick" else 8):
            r, _ = run_json([VENV, "-m", "oracle.run", pid, "--n", str(4 * NCASES["quick"]), "--seed",
                             str(seed * 1000 + extra), "--jobs", "8", "--seconds", "50"], 120)
            if r is None:
                continue
            searched += r["evaluations"]
            new = [f for f in r["fails"] if f["key"] not in kn]
            if new:
                fails.extend(new)
                break

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = evidence(pid, tier, seed, orac, ded, derr, fails, refuted, known_hits, known_obl, searched, time.time() - t0)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1, default=str)

    for key, text in kn.items():
        print(f"KNOWN-FINDING: property={pid} {text}")
    if fails or refuted:
        rp = os.path.join("evidence", f"replay-{pid}.json")
        rep = {"property": pid, "seed": seed,
               "failing_inputs": fails[:10],
               "replay_cmd": [f"cd /verif && PYTHONPATH=/verif {VENV} -m oracle.run {pid} --case {f['case']}"
                              for f in fails[:10] if f["case"] != "-"],
               "failed_obligations": refuted[:20]}
        with open(os.path.join(HERE, rp), "w") as fo:
            json.dump(rep, fo, indent=1, default=str)
        for f in fails[:5]:
            print(f"{pid}: contract violated on the real code: case {f['case']}: {f['key']}: {f['msg']}"[:600])
        for o in refuted[:10]:
            print(f"{pid}: obligation refuted: {o['name']}: {o.get('detail', '')}"[:600])
        found = fails or any(o.get("replayed") for o in refuted)
        print(f"VIOLATION property={pid} replay={rp}" + ("" if found else " no-failing-input-found"))
        return 1
    d = ev["coverage"]
    print(f"{pid}: held; obligations {d.get('discharged', 0)}/{d.get('obligations', 0)} discharged, "
          f"{d['evaluations']} bounded evaluations ({d['distinct_nontrivial']} distinct), {ev['wall_s']:.1f} s")
    for u in d.get("undecided", [])[:10]:
        print(f"  undecided: {u}"[:300])
    return 0


def evidence(pid, tier, seed, orac, ded, derr, fails, refuted, known_hits, known_obl, searched, wall):
    level = "exploration"
    for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
        if c["property"] == pid:
            level = c["level"]
    cov = {"evaluations": orac["evaluations"], "distinct_nontrivial": orac["distinct"],
           "rule": "seeded random records/options/parameters made by oracle/props.py for this property; a case counts "
                   "as distinct and non-trivial when its description differs from all others and every clause of the "
                   "contract was evaluated on it (ill-conditioned draws are skipped and not counted)",
           "samples": orac["samples"] or ["none"], "skipped": orac["skipped"],
           "bounded_extra_search": searched}
    assumptions = []
    if ded is not None:
        obl = ded["obligations"]
        # a unit the verifier could not finish counts as one obligation that is not discharged
        known = {o["name"] for o in known_obl}
        cov["obligations"] = sum(o["name"] not in known for o in obl) + len(ded.get("undecided_units", []))
        cov["discharged"] = sum(o["status"] == "proved" for o in obl)
        cov["refuted"] = [o["name"] for o in refuted]
        cov["known_refuted"] = [o["name"] for o in known_obl]
        cov["undecided"] = ded.get("undecided_units", []) + [o["name"] + ": " + str(o.get("detail", ""))[:200] for o in obl
                                                             if o["status"] == "undecided"]
        cov["checker_cmd"] = f"cd /verif && PYTHONPATH=/verif {PROVER} -m pyvc.run {pid}"
        cov["trusted_base"] = ded.get("trusted", []) + [
            "pyvc: extraction of the functions' syntax trees, symbolic execution, normal forms (spot-checked against CPython: coverage.fidelity)",
            "z3 and cvc5 (unsat answers), Lean's kernel and Mathlib (lemmas)", "numpy semantics of elementwise and structural operations (pyvc/npmodel.py)"]
        cov["functions_under_contract"] = ded.get("functions", [])
        cov["back_ends"] = ded.get("backends", {})
        cov["solver_seconds"] = ded.get("solver_seconds", 0)
        proved = [o["name"] for o in obl if o["status"] == "proved"]
        cov["discharged_bounded"] = sum("(bounded)" in n for n in proved)      # unrolled stand-ins, not proofs
        by_unit, by_text = {}, {}
        for n in proved:
            u, _, w = n.partition(": ")
            by_unit[u] = by_unit.get(u, 0) + 1
            by_text[w] = by_text.get(w, 0) + 1
        cov["obligations_by_unit"] = dict(list(by_unit.items())[:600])
        cov["obligations_by_text"] = dict(list(by_text.items())[:1500])
        cov["vacuity"] = ded.get("vacuity", {})
        cov["fidelity"] = ded.get("fidelity", {})
        assumptions = ded.get("assumptions", [])
    else:
        cov["obligations"] = 0
        cov["discharged"] = 0
        cov["checker_cmd"] = "none: the deductive part did not run"
        cov["trusted_base"] = []
        if derr:
            cov["deductive_error"] = derr[-1500:]
    assumptions = assumptions + [
        "machine arithmetic is treated as mathematical (exact reals and integers) in the deductive part",
        "the bounded part samples inputs and settles nothing outside the sampled cases; floating-point results are "
        "compared with tolerances scaled by the conditioning of the case"]
    return {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
            "assumptions": assumptions, "wall_s": wall,
            "violations": len(fails) + len(refuted)}


if __name__ == "__main__":
    sys.exit(main())
