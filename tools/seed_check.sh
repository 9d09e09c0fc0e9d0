#!/bin/bash
# usage: tools/seed_check.sh ID   -- confirms a planted bug in a scratch copy of /repo:
# the patch applies to HEAD, builds, stable tests pass, demo exits 0 without and non-zero with it.
# The build and test scripts are fixed to /repo, so the patch is applied there and undone straight afterwards.
ID=$1; D=/verif/seeded/$ID
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
undo() { git -C /repo checkout -q -- . ; }
trap undo EXIT
T=$(mktemp -d); cp "$D"/* "$T"/; rm -f "$T"/patch.diff "$T"/meta.json
(cd /repo && timeout 300 bash "$T"/demo.sh >"$T"/o1 2>&1); a=$?
git -C /repo apply "$D"/patch.diff || { echo "$ID: does not apply"; exit 1; }
bash /opt/vp/build.sh >"$T"/ob 2>&1; b=$?
(cd /repo && timeout 300 bash "$T"/demo.sh >"$T"/o2 2>&1); c=$?
if [ -n "$2" ]; then st=skip; else
bash /opt/vp/test.sh "$T"/t.json >"$T"/ot 2>&1
st=$(python3 - "$T"/t.json <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
print('ok' if s<=p else 'BROKEN '+str(sorted(s-p)))
P
); fi
echo "$ID: clean=$a build=$b patched=$c stable=$st"
[ $a = 0 ] || cat "$T"/o1; tail -3 "$T"/o2
for f in "$T"/*; do rm -f "$f"; done; rmdir "$T"
