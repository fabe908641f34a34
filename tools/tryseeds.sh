#!/bin/bash
# runs the check of each named seed's property against a scratch copy with the seed applied
cd "$(dirname "$0")/.."
for s in "$@"; do
  s=$(basename "$s")
  w=$(mktemp -d /tmp/tryseed.XXXX)
  cp -a /repo/. $w/
  git -C $w apply $PWD/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  t=$(date +%s)
  o=$(PYDV_REPO=$w python3-vt -m pydv.check $p quick 2>&1); rc=$?
  echo "$s: exit $rc in $(( $(date +%s) - t )) s"; echo "$o" | grep -E "VIOLATION|^#|Error" | cut -c1-220 | head -4
  rm -rf $w
done
