"""conc.py C09 harness [factor]: samples one harness on the real code, prints the outcome."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pyvc"))
import main
r = main.worker({"mode": "conc", "property": sys.argv[1], "names": [sys.argv[2]], "seed": "1", "factor": float(sys.argv[3]) if len(sys.argv) > 3 else 1, "workers": 1})()
print(json.dumps(r, indent=1)[:4000])
