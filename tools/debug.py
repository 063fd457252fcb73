"""debug: debug.py C09 harness [unroll] -- prints failures of one harness"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pyvc"))
import main
req = {"mode": "sym", "property": sys.argv[1], "names": [sys.argv[2]], "workers": 2}
if len(sys.argv) > 3:
    req["unroll"] = {sys.argv[2]: int(sys.argv[3])}
r = main.worker(req)()
if "results" not in r:
    print(r); sys.exit()
r = r["results"][sys.argv[2]]
if r.get("crash"):
    print(r["crash"]); sys.exit()
for f in r["failures"]:
    print(f["kind"], f["label"], f["inputs"], f["detail"][-1500:])
print(r["unsupported"], r["undecided"], "paths", r["paths"], "wall", r["wall"], "obl", sum(v[0] for v in r["obligations"].values()), r["cross"])
