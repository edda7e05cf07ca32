#!/bin/bash
# seedtest.sh ID...: confirms a planted change (demo on clean, build, tests, demo with patch) and runs its property's check against it
. /opt/vp/env.sh
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
 (cd /repo && bash $d/demo.sh >/tmp/sd0.log 2>&1); c=$?
 git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 if bash /opt/vp/build.sh >/tmp/sb.log 2>&1; then b=0; else b=1; fi
 t=""; [ -z "$NOTEST" ] && t=$(bash /opt/vp/test.sh /tmp/so.json 2>/dev/null | tail -1)
 (cd /repo && bash $d/demo.sh >/tmp/sd1.log 2>&1); x=$?
 (cd /verif && ./check.sh $p quick >/tmp/sk.log 2>/dev/null); k=$(grep -c "^VIOLATION" /tmp/sk.log)
 n=$(grep "^VIOLATION" /tmp/sk.log | head -1)
 git -C /repo checkout -- .
 echo "$id [$p] clean-demo=$c build=$b tests='$t' patched-demo=$x caught=$k $n"
done
