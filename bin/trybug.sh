#!/bin/bash
# developer aid: trybug.sh BUG...: the demo on the clean tree and with the patch, then the check with the patch (on /repo itself, undone afterwards)
for b in "$@"; do
  d=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then cd /repo; bash $d/demo.sh >/tmp/demo.out 2>&1; a=$?; fi
  git -C /repo apply $d/patch.diff || { echo "$b does not apply"; continue; }
  if [ -z "$NODEMO" ]; then cd /repo; bash $d/demo.sh >/tmp/demo2.out 2>&1; c=$?; bash /opt/vp/build.sh >/dev/null 2>&1; e=$?; bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; n=$(python3 -c "import json;print(len(json.load(open('/tmp/t.json'))['failed']), len(json.load(open('/tmp/t.json'))['passed']))"); fi
  cd /verif; timeout 900 python3 bin/check.py $p >/tmp/bug.$b.out 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$b property=$p demo clean=$a bug=$c build=$e failed/passed=$n check=$r: $(grep -m1 -E 'VIOLATION|ERROR' /tmp/bug.$b.out)"
done
