#!/bin/bash
# tryseed.sh ID...: apply each planted bug to /repo, build, run the stable tests, its demo and the check of its
# property (plus those named in CHECKS), and undo it.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cp -a $d /tmp/seed.$id
  bash /tmp/seed.$id/demo.sh >/tmp/seed.$id.clean 2>&1; clean=$?
  if ! git -C /repo apply $d/patch.diff; then echo "$id: does not apply"; continue; fi
  b=ok; bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || b=FAILS
  t=$(bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1; python3 - <<P
import json
base=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set(k for k,v in x.items() if v in ('passed','pass'))
m=set(base['stable'])-names(r); print('ok' if not m else 'FAIL %s'%sorted(m)[:3])
P
)
  (cd /repo && bash /tmp/seed.$id/demo.sh >/tmp/seed.$id.demo 2>&1); demo=$?
  out="$id [$prop] build=$b tests=$t demo clean=$clean bug=$demo"
  for p in $prop $CHECKS; do
    s=$(date +%s); python3 /verif/check.py $p quick >/tmp/seed.$id.check.$p 2>&1; rc=$?
    out="$out | $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/seed.$id.check.$p)"
  done
  git -C /repo checkout -q -- .
  rm -rf /tmp/seed.$id
  echo "$out"
done
bash /opt/vp/build.sh >/dev/null 2>&1
