#!/bin/bash
# Builds /repo, runs its tests and compares with the baseline.
bash /opt/vp/build.sh >/tmp/basetest.log 2>&1 || { tail -20 /tmp/basetest.log; exit 1; }
bash /opt/vp/test.sh /tmp/basetest.json >>/tmp/basetest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/basetest.json'))
m=[x for x in b if x not in t['passed']]
print('baseline tests missing:', m)
P
