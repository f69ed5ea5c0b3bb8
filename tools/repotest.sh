#!/bin/bash
# build /repo, run its tests, compare with the baseline of reliably passing tests
bash /opt/vp/build.sh >/tmp/rt.build 2>&1 || { echo BUILD FAILED; tail -20 /tmp/rt.build; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt.out 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
bp=set(b.get('pass') or b.get('passed') or b.get('tests') or b.get('stable')); rp=set(r.get('pass') or r.get('passed'))
print('regressions:', sorted(bp-rp), len(bp), len(rp))
P
