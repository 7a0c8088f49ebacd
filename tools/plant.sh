#!/bin/bash
# plant.sh <id>... : apply each seeded change to /repo in turn, build, run the stable tests, the demonstration and the check, undo
cd /verif/seeded
for id in "$@"; do
  p=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$p/meta.json'))['property'])")
  git -C /repo status --porcelain | grep -q . && { echo "dirty repo"; exit 1; }
  (cd /repo && timeout 290 bash $p/demo.sh >/tmp/plant/$id.demo0 2>&1); d0=$?
  git -C /repo apply $p/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd /repo && bash /opt/vp/build.sh >/tmp/plant/$id.build 2>&1); b=$?
  (cd /repo && timeout 290 bash $p/demo.sh >/tmp/plant/$id.demo1 2>&1); d1=$?
  t=skip
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/plant/$id.json >/dev/null 2>&1
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/plant/$id.json'))
p=set(o.get('passed') or [k for k,v in o.items() if v=='passed']); m=sorted(b-p); print(len(m), m[:2])")
  fi
  c=skip
  if [ -z "$NOCHECK" ]; then c=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 /verif/check.sh $prop quick 2>&1 | cut -c1-250 | tail -4); fi
  git -C /repo checkout -q -- .
  echo "== $id [$prop] build=$b demo0=$d0 demo1=$d1 tests-missing=$t"; echo "$c"
done
