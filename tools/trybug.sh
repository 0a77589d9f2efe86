#!/bin/bash
# tools/trybug.sh <seeded id> [check ids...]: apply, build, test, demo, checks, undo.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/tb.log 2>&1
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
fi
git -C /repo apply $d/patch.diff || exit 8
if [ -z "$NODEMO" ]; then
bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
t=$(tail -1 /tmp/tb.log)
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
echo "$id: tests: $t; demo clean=$a buggy=$b ($(tail -1 /tmp/demo1.log))"
fi
for c in ${@:-$prop}; do
  /verif/check.sh $c quick > /tmp/chk.$c.log 2>&1; echo "  $c exit $? $(grep -m1 '^seed' /tmp/chk.$c.log) $(tail -1 /tmp/chk.$c.log | cut -c1-120)"
done
