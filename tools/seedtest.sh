#!/bin/bash
# seedtest.sh ID... : in a private mount namespace with a copy of /repo: demo on the clean tree, patch, build, tests, demo, check.
# result line in /tmp/seedres/ID
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p /tmp/seedres
for id in "$@"; do
  W=/tmp/seedwork.$id; rm -rf "$W"; mkdir -p "$W"
  [ -z "$SKIPTEST" ] && cp -a /repo "$W/repo" || { cp -a /repo "$W/repo"; }
  mkdir -p $W/build; [ -d $V/build ] && cp -a $V/build/. $W/build/
  prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  cp -a $V/seeded/$id $W/demo
  unshare -Urm bash -c "
    mount --bind $W/repo /repo || exit 9
    cd /repo
    bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo 'BUILD0 FAILED'
    bash $W/demo/demo.sh >$W/d0.log 2>&1; echo demo0=\$?
    git apply $W/demo/patch.diff || echo APPLY FAILED
    if [ -z '$SKIPTEST' ]; then
      bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
      python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
ref=set(b['stable'])
print('tests: missing', sorted(ref-set(t['passed']))[:5], 'of', len(ref))
P
    else bash /opt/vp/build.sh >$W/b1.log 2>&1 || echo 'BUILD FAILED'
    fi
    bash $W/demo/demo.sh >$W/d1.log 2>&1; echo demo1=\$?
    cd $V; s=\$(date +%s); MC_BUILD=$W/build VERIF_EVID=$W timeout 1500 bin/check $prop >$W/c.log 2>&1; echo check=\$? in \$((\$(date +%s)-s)) s
  " >/tmp/seedres/$id 2>&1
  [ -f $W/c.log ] && grep -a -h VIOLATION $W/c.log | head -2 >>/tmp/seedres/$id
  for l in d0 d1; do [ -f $W/$l.log ] && { echo "-- $l"; tail -n 3 $W/$l.log; } >>/tmp/seedres/$id; done
  [ -f $W/c.log ] && tail -n 12 $W/c.log >/tmp/seedres/$id.check
  rm -rf "$W"
  echo "$id $prop: $(grep -aE 'demo0|demo1|check=|tests|FAILED' /tmp/seedres/$id | tr '\n' ' ')"
done
