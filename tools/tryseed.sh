#!/bin/bash
# tryseed.sh <id>...: in a copy of /repo, apply each seeded bug, run the baseline tests and its demo (before/after), then the property's check against it.
# Needs /repo clean. The check runs against /repo itself (patch applied, then undone).
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo dirty"; exit 3; }
  bash seeded/$id/demo.sh >/tmp/ts.$id.0 2>&1; d0=$?
  git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
  bash seeded/$id/demo.sh >/tmp/ts.$id.1 2>&1; d1=$?
  bash /opt/vp/test.sh /tmp/ts.$id.json >/tmp/ts.$id.t 2>&1
  np=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.$id.json'))
def names(x):
    for k in ('passed','stable'):
        if k in x: return set(x[k])
    return set()
print(len(names(b)-names(r)))
P
)
  t0=$SECONDS
  timeout 900 ./check.sh $p quick >/tmp/ts.$id.c 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id $p demo=$d0/$d1 lost_tests=$np check=$c ($((SECONDS-t0))s) $(grep -m1 VIOLATION /tmp/ts.$id.c)"
  rm -f /tmp/ts.$id.json /tmp/ts.$id.t
done
