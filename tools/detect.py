"""Run the checks against every seeded change (in scratch copies):  python3 tools/detect.py [--all] [--jobs N] [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
every = "--all" in sys.argv
scratch = tempfile.mkdtemp(prefix="det", dir="/tmp")
verif = os.path.join(scratch, "verif")
shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]

def run(sid):
    d = os.path.join(HERE, "seeded", sid)
    tree = os.path.join(scratch, "t_" + sid)
    shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(".git"))
    subprocess.run(["patch", "-p1", "-s", "-i", os.path.join(d, "patch.diff")], cwd=tree, check=True)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    v2 = os.path.join(scratch, "v_" + sid)
    shutil.copytree(verif, v2)
    out = []
    for p in (props if every else [pid]):
        r = subprocess.run(["python3", "check.py", p], cwd=v2, capture_output=True, text=True, env=dict(os.environ, UTIDE_REPO=tree))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        why = [l for l in r.stdout.splitlines() if l.startswith(p + ":")]
        if p == pid or v or r.returncode not in (0, 1):
            out.append((p, r.returncode, v, why, r.stderr[-300:]))
    shutil.rmtree(tree); shutil.rmtree(v2)
    return sid, pid, out

ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
jobs = int(next((a.split("=")[1] for a in sys.argv if a.startswith("--jobs=")), "2"))
with ThreadPoolExecutor(jobs) as ex:
    for sid, pid, out in ex.map(run, ids):
        own = [o for o in out if o[0] == pid][0]
        obl = sum("obligation refuted" in w for w in own[3]); con = sum("contract violated" in w for w in own[3])
        print(f"{sid:20s} {pid} {'CAUGHT' if own[1] == 1 else 'MISSED rc=%d' % own[1]}  concrete {con} obligations {obl}  "
              f"{'also ' + ','.join(o[0] for o in out if o[0] != pid) if every else ''} {own[3][-1][:150] if own[3] else own[4]}", flush=True)
shutil.rmtree(scratch)
