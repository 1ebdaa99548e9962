#!/bin/bash
# runs the repository's suite and compares with the baseline
O=$(mktemp /tmp/suite.XXXXXX)
bash /opt/vp/build.sh >/tmp/suite.build.log 2>&1 || { tail /tmp/suite.build.log; exit 1; }
bash /opt/vp/test.sh $O >/tmp/suite.log 2>&1
python3 - $O <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
m=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',m,'flaky',b['flaky'])
sys.exit(1 if m else 0)
P
