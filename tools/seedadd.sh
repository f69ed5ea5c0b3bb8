#!/bin/bash
# seedadd.sh ID: turn the working-tree change of /tmp/seed into /verif/seeded/ID/patch.diff, after confirming it:
# demo passes without, fails with it, builds, stable tests pass.
id=$1; S=/tmp/seed; V=/verif/seeded/$id
[ -f $V/demo.c ] && cp /verif/tools/seed_common.h $V/common.h && { [ -f $V/demo.sh ] || cp /verif/tools/seed_demo.sh $V/demo.sh; }
git -C $S diff > /tmp/seed.$id.diff; [ -s /tmp/seed.$id.diff ] || { echo "$id: empty"; exit 1; }
git -C $S checkout -q -- .
[ -f /tmp/sb.sh ] || { sed 's,/repo,/tmp/seed,g' /opt/vp/build.sh > /tmp/sb.sh; sed 's,/repo,/tmp/seed,g; s,/opt/vp/build.sh,/tmp/sb.sh,g' /opt/vp/test.sh > /tmp/st.sh; }
bash /tmp/sb.sh >/tmp/sb.log 2>&1 || { echo "$id: clean build failed"; exit 1; }
(cd $S && sh $V/demo.sh) >/tmp/sd0.log 2>&1 || { echo "$id: demo fails on the clean tree"; cat /tmp/sd0.log; git -C $S apply /tmp/seed.$id.diff; exit 1; }
git -C $S apply /tmp/seed.$id.diff
bash /tmp/sb.sh >/tmp/sb.log 2>&1 || { echo "$id: patched build failed"; tail -5 /tmp/sb.log; exit 1; }
(cd $S && sh $V/demo.sh) >/tmp/sd1.log 2>&1; rc=$?
[ $rc = 0 -o $rc = 4 ] && { echo "$id: demo rc=$rc on the patched tree"; cat /tmp/sd1.log; exit 1; }
echo "$id: demo ok ($rc: $(tail -1 /tmp/sd1.log))"
if [ "$2" != notest ]; then
bash /tmp/st.sh /tmp/st.json >/tmp/st.out 2>&1
python3 - <<'P' || { echo "$id: TESTS CATCH IT"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/st.json'))
bp=set(b.get('pass') or b.get('passed') or b.get('tests') or b.get('stable')); rp=set(r.get('pass') or r.get('passed'))
print(sorted(bp-rp)[:8]); sys.exit(1 if bp-rp else 0)
P
fi
cp /tmp/seed.$id.diff $V/patch.diff; git -C $S checkout -q -- .; echo "$id: KEPT"
