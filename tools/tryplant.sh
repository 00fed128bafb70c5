#!/bin/bash
# tryplant.sh ID...: apply a seeded change to /repo, build, run the stable tests and the demo, run its check, undo
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if [ -z "$NOTEST" ]; then
  bash /opt/vp/build.sh >/tmp/tp.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/tp.json >/tmp/tp.test 2>&1
  t=$(python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/tp.json'))
def names(x):
    for k in ('stable','pass','passed','tests'):
        if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return set(str(k) for k,v in x.items() if v in ('pass','passed',True))
print('missing', sorted(names(base)-names(out))[:5])
P
)
  (cd /repo; timeout 300 bash $d/demo.sh >/tmp/tp.demo 2>&1); dm=$?
  fi
  if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3-vt vc/check.py $prop >/tmp/tp.check.$id 2>&1); c=$?; fi
  git checkout -q -- .
  echo "$id ($prop): build=$b tests: $t demo(patched)=$dm check=$c $(grep VIOLATION /tmp/tp.check.$id)"
  [ -n "$NODEMO" ] || { timeout 300 bash $d/demo.sh >/tmp/tp.demo0 2>&1; echo "   demo(clean)=$?"; }
done
