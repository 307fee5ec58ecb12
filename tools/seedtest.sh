#!/bin/bash
# seedtest.sh SEED_DIR : validates one planted bug in a scratch copy bound over /repo in a private mount namespace.
S=$(realpath "$1"); N=$(basename "$S")
T=$(mktemp -d /tmp/seed.$N.XXXX); trap 'rm -rf "$T"' EXIT
cp -a /repo "$T/repo"; git -C "$T/repo" checkout -q -- libensemble; mkdir "$T/seed"; cp "$S"/* "$T/seed/"; rm -f "$T/seed/patch.diff" "$T/seed/meta.json"
unshare -Urm --propagation private bash -c '
mount --bind "$1/repo" /repo || exit 9
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash "$1/seed/demo.sh" >"$1/d0" 2>&1; echo "$3 demo clean rc=$?"
cd /repo; git apply "$2/patch.diff" || { echo "$3 APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$3 BUILD FAILED"
timeout 300 bash "$1/seed/demo.sh" >"$1/d1" 2>&1; echo "$3 demo patched rc=$?"
tail -4 "$1/d1"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh "$1/out.json" >/dev/null 2>&1
python3 - "$1/out.json" "$3" <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1]))
def ok(d):
    for k in ("passed","pass","stable"):
        if k in d: return set(d[k])
    return {k for k,v in d.items() if v in ("pass","passed",True)}
print(sys.argv[2],"stable tests failing:",sorted(ok(b)-ok(o)))
P
fi
' _ "$T" "$S" "$N"
