#!/bin/bash
# trybug.sh ID [check ids...] : apply seeded/ID to /repo, confirm tests+demo, run checks, revert
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id patch fails"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.log 2>&1; b=$?
t=$(bash /tmp/rt.sh)
out=""
for p in ${@:-$prop}; do
  (cd /verif && timeout 900 ./check $p >/tmp/chk.$p.log 2>&1); rc=$?
  out="$out $p:rc=$rc:$(grep -c '^VIOLATION' /tmp/chk.$p.log)"
done
git checkout -q -- .
echo "$id demo clean=$a patched=$b tests=[$t] checks:$out"
