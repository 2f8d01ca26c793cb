"""Snapshot of the constituent tables at the pinned commit (the tables are part of the specification)."""
import json, os, sys
sys.path.insert(0, "/repo")
import numpy as np
from utide import ut_constants as u
out = {}
for g in ("const", "sat", "shallow"):
    out[g] = {}
    for k, v in u[g].items():
        v = np.asarray(v)
        out[g][k] = {"kind": v.dtype.kind, "data": [None if isinstance(x, float) and x != x else x for x in v.ravel().tolist()],
                     "shape": list(v.shape)}
        print(g, k, v.dtype, v.shape)
with open(os.path.join(os.path.dirname(__file__), "..", "spec", "tables.json"), "w") as f:
    json.dump(out, f)
