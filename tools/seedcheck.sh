#!/bin/bash
# seedcheck.sh ID...: apply each seeded change to a scratch copy and run its property's check (plus any in $ALSO) there
S=/tmp/sc; [ -d $S ] || cp -a /repo $S
mkdir -p /tmp/vfull; rsync -a --delete --exclude .git --exclude build/replays --exclude evidence /verif/ /tmp/vfull/ 2>/dev/null || { rm -rf /tmp/vfull; cp -a /verif /tmp/vfull; }
mkdir -p /tmp/vfull/evidence
for id in "$@"; do
git -C $S checkout -q -- . ; git -C $S fetch -q /repo HEAD && git -C $S reset -q --hard FETCH_HEAD
[ $id = clean ] || git -C $S apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])" 2>/dev/null)
for p in ${ONLY:-$P} $ALSO; do
( cd /tmp/vfull; VERIF_REPO=$S VERIF_TIER=quick VERIF_SEED=1 python3 check.py $p $EXTRA >/tmp/sw.$id.$p.log 2>&1; rc=$?; echo "$id $p rc=$rc $(grep -m1 violated: /tmp/sw.$id.$p.log | cut -c1-150) wall=$(grep -o 'wall [0-9.]*s' /tmp/sw.$id.$p.log | tail -1)" )
done; done
git -C $S checkout -q -- .
