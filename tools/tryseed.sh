#!/bin/bash
# tryseed.sh <id> [notest] : demo on clean tree, apply in /repo, build+tests, demo, check of its property, undo
id=$1; s=/verif/seeded/$id
[ -n "$(git -C /repo status --short)" ] && { echo "repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
if [ "$2" != notest ]; then (cd /repo && bash $s/demo.sh >/tmp/demo-$id.log 2>&1); rc=$?; echo "$id demo clean rc=$rc"; [ $rc != 0 ] && cat /tmp/demo-$id.log; fi
git -C /repo apply $s/patch.diff || exit 2
if [ "$2" != notest ]; then
 (cd /repo && bash $s/demo.sh >/tmp/demo2-$id.log 2>&1); rc=$?; echo "$id demo patched rc=$rc"; tail -2 /tmp/demo2-$id.log
 (bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/out.json) >/tmp/t.log 2>&1; python3 /tmp/cmp.py
fi
for p in ${3:-$prop}; do
bash /verif/run.sh $p quick | grep -A1 -i "first viol\|VIOLATION\|FATAL" | cut -c1-400; echo "$id check $p rc=${PIPESTATUS[0]}"
done
git -C /repo checkout -- .
