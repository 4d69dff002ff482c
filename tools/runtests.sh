#!/bin/bash
# run the repository's own tests and list stable ones that no longer pass
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/out.json'))
print(len(b), "stable; failing now:", [t for t in b if t not in o['passed']])
P
