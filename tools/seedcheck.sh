#!/bin/bash
# confirms planted bugs: builds, passes the stable tests, demo passes without and fails with the change.  seedcheck.sh ID...
T=/tmp/seeddemo
for id in "$@"; do
  D=/verif/seeded/$id
  /bin/rm -rf /tmp/seeddemo; cp -a $D /tmp/seeddemo; /bin/rm -f /tmp/seeddemo/patch.diff /tmp/seeddemo/meta.json
  # demos run in /repo: bind by running against /repo itself, patch applied and undone
  cd /repo
  (timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/seed_base.log 2>&1); b=$?
  git -C /repo apply --check $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  git -C /repo apply $D/patch.diff
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1; bb=$?
  bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_test.json'))
f=set(b['stable']); x=set(r['passed']) if isinstance(r.get('passed'),list) else None; print('all stable pass' if x is not None and f<=x else ('MISSING %s'%sorted(f-x)[:3] if x is not None else list(r)))
P
)
  (timeout 300 bash /tmp/seeddemo/demo.sh > /tmp/seed_bug.log 2>&1); m=$?
  git -C /repo checkout -- .
  bash /opt/vp/build.sh > /dev/null 2>&1
  echo "$id: build=$bb tests=[$t] demo clean=$b bug=$m"
  [ $b = 0 ] || tail -5 /tmp/seed_base.log
  [ $m = 0 ] && tail -5 /tmp/seed_bug.log
  [ $bb = 0 ] || tail -5 /tmp/seed_build.log
done
/bin/rm -rf /tmp/seeddemo
git -C /repo status --short
