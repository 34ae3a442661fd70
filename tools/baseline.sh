#!/bin/bash
# run the repository's tests and compare with the recorded stable set
out=/tmp/baseline.$$.json
bash /opt/vp/test.sh $out >/tmp/baseline.$$.log 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); miss=[t for t in b['stable'] if t not in p]
print('stable',len(b['stable']),'passed',len(p),'missing',miss)
sys.exit(1 if miss else 0)
P
