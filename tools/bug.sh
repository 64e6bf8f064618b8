#!/bin/bash
# bug.sh ID [PROPERTY...]: validate a planted bug in a scratch copy of /repo mounted over /repo in a private mount
# namespace (applies, builds, stable tests pass, demo 0 unpatched / nonzero patched) and run the given properties' quick checks on it.
# SKIP_TESTS=1 leaves the test suite out. Development tool only; no check uses it.
id=$1; shift
W=/tmp/bugwt/$id
mkdir -p /tmp/bugwt && rm -rf "/tmp/bugwt/$id" && mkdir -p "$W"
cp -a /repo "$W/repo"
mkdir -p "$W/verif" && cp -a /verif/check.py /verif/mc /verif/harness /verif/tools /verif/known_findings.txt /verif/properties.jsonl /verif/MANIFEST.json "$W/verif/"
[ -d /verif/custom ] && cp -a /verif/custom "$W/verif/"
cp -a "${SEED:-/verif/seeded}/$id" "$W/seed"
unshare -m bash -s "$id" "$W" "$@" <<'N'
id=$1; W=$2; shift 2
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif || exit 3
cd /repo
if [ -z "$SKIP_TESTS" ]; then
bash "$W/seed/demo.sh" >"$W/demo0.log" 2>&1; d0=$?
git apply "$W/seed/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh "$W/o.json" >"$W/test.log" 2>&1
bash "$W/seed/demo.sh" >"$W/demo1.log" 2>&1; d1=$?
echo "$id: demo unpatched=$d0 patched=$d1 ($(tail -1 "$W/demo1.log" | cut -c1-150)) tests: $(tail -1 "$W/test.log")"
python3 - "$W/o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open(sys.argv[1]))['passed'])
m=[t for t in b if t not in o]
if m: print('   FAILING TESTS', len(m), m[:4])
P
else git apply "$W/seed/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
fi
cd /verif
for p in "$@"; do
  timeout 900 python3 check.py $p --tier quick >"$W/$p.log" 2>&1; r=$?
  echo "$id: $p exit=$r $(grep -m1 VIOLATION "$W/$p.log" | cut -c1-100) $(grep -v VIOLATION "$W/$p.log" | head -1 | cut -c1-200)"
done
N
rm -rf "/tmp/bugwt/$id/repo" "/tmp/bugwt/$id/verif/build"
