#!/bin/bash
# bash tools/stable.sh : runs the repository's tests, lists stable ones that fail
o=$(mktemp); bash /opt/vp/test.sh $o >/dev/null 2>&1
python3 - $o <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
bad=set(b)-set(o['passed']); print("stable",len(b),"not passing:",sorted(bad)); sys.exit(bool(bad))
P
