#!/bin/bash
# runs the check of each planted bug's property against it.  seedrun.sh ID...
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick /verif/bin/check $p > /tmp/seedrun_$id.log 2>&1; r=$?
  git -C /repo checkout -- .
  echo "$id ($p): exit $r $(( $(date +%s) - s ))s: $(grep VIOLATION /tmp/seedrun_$id.log | head -2 | cut -c1-150)"
done
git -C /repo status --short
