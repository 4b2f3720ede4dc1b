#!/bin/bash
# stable.sh DIR: runs the stable tests in a copy of the repository; prints those that do not pass, exits 1 if there are any
sed "s#^cd /repo#cd $1#" /opt/vp/test.sh > /tmp/test.$$.sh
bash /tmp/test.$$.sh /tmp/test.$$.json >/tmp/test.$$.out 2>&1
python3 - /tmp/test.$$.json "$1" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: t=json.load(open(sys.argv[1]))
except Exception as e: print('no test result', e); sys.exit(1)
p={x.split('/packages',1)[-1] for x in t.get('passed',[])}; import os; p={('packages'+x if not x.startswith('packages') else x) for x in p}
bad=[x for x in b if x not in p]
for x in bad[:3]: print(x)
sys.exit(1 if bad else 0)
PY
rc=$?; rm -f /tmp/test.$$.sh /tmp/test.$$.json /tmp/test.$$.out; exit $rc
