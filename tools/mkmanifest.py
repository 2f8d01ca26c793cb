import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LV = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    lv = LV[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "technique": lv["technique"], "level": lv["level"], "level_note": lv["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
     "notes": "see DESIGN.md; no hooks in /repo are needed (contracts are kept beside the code, VCs are generated from /repo's source on every run)"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
