#!/bin/bash
python3 - "$1" <<'P'
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for n,h in d['coverage']['harnesses'].items():
    print(n,h['status'],h['kind'],'paths',h['paths'],'wall',h['wall'],'obl',sum(v[0] for v in (h['obligations'] or {}).values()),(h['unsupported'] or [])[:2],(h['undecided'] or [])[:2],(h['crash'] or '')[-600:])
P
