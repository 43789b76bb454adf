#!/bin/bash
# runs the repository's tests and prints the stable tests that fail
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/stable.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('stable tests failing:', set(b['stable'])-set(o['passed']))
P
