#!/bin/bash
# build /repo, run its tests, and check that every stable test passes
bash /opt/vp/build.sh 2>&1 | tail -1; bash /opt/vp/test.sh /tmp/stable.$$.json >/dev/null 2>&1
python3 - /tmp/stable.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in o['passed']]
print("stable ok" if not m else "STABLE FAILURES: %s"%m[:10])
sys.exit(bool(m))
P
r=$?
rm -f /tmp/stable.$$.json
exit $r
