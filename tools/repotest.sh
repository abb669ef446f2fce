#!/bin/bash
# builds and tests /repo in a clean environment; prints differences to the baseline
cd /repo
env -i PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root bash -c 'bash /opt/vp/build.sh >/tmp/b.log 2>&1; grep -E "^error" -A8 /tmp/b.log | head -40; bash /opt/vp/test.sh /tmp/t.json 2>/dev/null | grep passed'
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
p=set(t['passed']); print('missing', sorted(b-p)); print('failed in stable', [x for x in t['failed'] if x in b])
P
