#!/bin/bash
# seedcheck.sh NAME... : runs each planted bug's own check on a scratch copy with the bug applied.
cd "$(dirname "$0")/.."
for n in "$@"; do
  T=$(mktemp -d /tmp/sc.XXXX); mkdir "$T/r"; cp -a /repo/libensemble "$T/r/"; (cd "$T/r" && git init -q . && git apply "/verif/seeded/$n/patch.diff") || echo "$n: patch does not apply"
  id=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  o=$(python3 -m sa.check $id --root "$T/r" --no-write 2>&1); rc=$?
  echo "$n $id rc=$rc $(echo "$o" | grep -m1 -A1 ' @ ' | cut -c1-180 | tr '\n' ' ')"
  rm -rf "$T"
done
