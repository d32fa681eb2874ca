#!/bin/bash
# tools/runseeds.sh [id...]: the check of each planted bug's property, on a copy of /repo with the bug applied
cd /verif
d=$(mktemp -d /tmp/runseeds.XXXXXX) || exit 2
trap "rm -rf $d" EXIT
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  rm -rf "$d/repo"; cp -a /repo "$d/repo"
  git -C $d/repo checkout -q -- .
  git -C $d/repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s); out=$(GOSYM_REPO=$d/repo bash check.sh $p 2>&1); rc=$?; e=$(date +%s)
  v=$(echo "$out" | grep -m1 "^VIOLATION property=$p" ); r=$(echo "$out" | grep -m1 -o "label=.*" | cut -c1-100)
  if [ $rc = 1 ] && [ -n "$v" ]; then echo "$i $p CAUGHT $((e-s))s $r"; else echo "$i $p MISSED rc=$rc $((e-s))s"; echo "$out" | grep WARN | head -3; fi
done
