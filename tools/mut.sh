#!/bin/bash
# mut.sh PROP FILE 'old' 'new' : run a check against a scratch copy with one replacement
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/. $d/
python3 - "$d/harmonic_inference/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:]
a=a.encode().decode('unicode_escape'); b=b.encode().decode('unicode_escape')
s=open(p).read()
assert s.count(a)>=1,"not found"
open(p,'w').write(s.replace(a,b,1))
P
PYVC_REPO=$d /verif/check.sh $1 | cut -c1-400; tools/status.sh $1 2>/dev/null | grep -v " proved " | cut -c1-300
rm -rf "$d"
