#!/bin/bash
# tryseed.sh [id...]: run the check of each planted bug's property on a private copy of /repo with the bug applied
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  rm -rf /tmp/try_$i; cp -a /repo /tmp/try_$i; git -C /tmp/try_$i apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  s=$(date +%s)
  unshare -m sh -c "mount --bind /tmp/try_$i /repo; cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 checks/run.py $p quick" > /tmp/try_$i.log 2>&1; r=$?
  echo "$i $p exit=$r $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/try_$i.log) violations: $(grep '^VIOLATION' /tmp/try_$i.log | head -1)"
  rm -rf /tmp/try_$i
done
