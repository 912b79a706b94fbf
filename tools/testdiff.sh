#!/bin/bash
# build /repo, run its tests, and print stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))
m=sorted(set(b)-set(o['passed'])); print('missing', len(m)); print('\n'.join(m[:20]))
P
