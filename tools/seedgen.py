"""Generates /verif/seeded/<id>/ from textual edits, after confirming in a scratch copy that the edit builds, passes
the stable tests, and that the demonstration passes without and fails with it.   python3 tools/seedgen.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "seeds.py")).read())
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("passing", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)

def main(ids):
    scratch = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    tree = os.path.join(scratch, "repo")
    for sid, s in SEEDS.items():
        if ids and sid not in ids:
            continue
        shutil.rmtree(tree, ignore_errors=True)
        shutil.copytree("/repo", tree, symlinks=True)
        sh("git checkout -q -- .", tree)
        ok = True
        for f, a, b in s["edits"]:
            p = os.path.join(tree, "utide", f)
            txt = open(p).read()
            if txt.count(a) != 1:
                print(sid, "EDIT does not match once:", f, txt.count(a), repr(a)); ok = False; break
            open(p, "w").write(txt.replace(a, b))
        if not ok:
            continue
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", tree).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip("\n") + '\nprint("ok")\n')
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/sh\n# run in the repository; exits 0 when the behaviour is right\n'
            'here=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        bad = sh(f"sh {d}/demo.sh", tree)
        good = sh(f"sh {d}/demo.sh", "/repo")
        t = sh("MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -x tests -p no:cacheprovider" % tree, tree)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        print(sid, "demo clean", good.returncode, "demo bug", bad.returncode, "|", last, "|", (bad.stderr.strip().splitlines() or [""])[-1][:100])
        if good.returncode or not bad.returncode or "failed" in last or "error" in last:
            print("   REJECTED", good.stderr[-300:])
            shutil.rmtree(d)
    shutil.rmtree(scratch)

PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import utide
from utide import solve, reconstruct
assert os.path.abspath(utide.__file__).startswith(os.getcwd()), utide.__file__
rng = np.random.default_rng(5)
T0 = 730000.0


def grid(days=40, dt=1 / 24):
    return T0 + np.arange(0, days, dt)


def wave(t, frq, a, ph):
    return a * np.cos(2 * np.pi * frq * 24 * (t - T0) - ph)


def sea(t, noise=0.05, seed=1):
    r = np.random.default_rng(seed)
    return (wave(t, 0.0805114007, 1.0, 0.4) + wave(t, 0.0833333333, 0.4, 1.9) + wave(t, 0.0417807462, 0.3, 2.7)
            + wave(t, 0.0387306544, 0.2, 5.1) + noise * r.standard_normal(t.size))


def cur(t, noise=0.05, seed=1):
    r = np.random.default_rng(seed)
    u = (wave(t, 0.0805114007, 1.0, 0.4) + wave(t, 0.0833333333, 0.4, 1.9) + wave(t, 0.0417807462, 0.3, 2.7)
         + noise * r.standard_normal(t.size))
    v = (wave(t, 0.0805114007, 0.5, 1.4) + wave(t, 0.0833333333, 0.3, 3.9) + wave(t, 0.0417807462, 0.2, 4.7)
         + noise * r.standard_normal(t.size))
    return u, v


KW = dict(epoch="python", verbose=False)
'''
main(sys.argv[1:])
