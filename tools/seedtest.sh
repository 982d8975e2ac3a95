#!/bin/bash
# Development aid: confirm a planted bug in a scratch copy of /repo (demo quiet without it, loud with it, tests pass), then run its check on the copy.
# usage: seedtest.sh ID [notests] [nocheck]
id=$1; shift; S=/verif/seeded/$id; W=/tmp/seedtest.$id
mkdir -p "$W"; trap 'find "$W" -depth -delete' EXIT
cp -a /repo "$W/repo"; find "$W/repo/_build" -depth -delete
cd "$W/repo" || exit 9
mkdir "$W/d"; cp -r "$S/." "$W/d"; rm -f "$W/d/patch.diff" "$W/d/meta.json"
bash "$W/d/demo.sh" >"$W/demo0" 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 "$W/demo0"; }
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash "$W/d/demo.sh" >"$W/demo1" 2>&1 && echo "$id: demo PASSES with the patch"
if [[ " $* " != *" notests "* ]]; then
  mkdir "$W/vp"; for f in build.sh test.sh run_tests.py results.py; do sed "s#/repo#$W/repo#g;s#/opt/vp#$W/vp#g" /opt/vp/$f > "$W/vp/$f"; done
  OMP_WAIT_POLICY=passive bash "$W/vp/test.sh" "$W/r.json" >"$W/tlog" 2>&1
  python3 - "$W/r.json" "$id" <<'PY'
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in r['passed']]
print(sys.argv[2]+': tests', 'ok' if not m else 'FAIL %s'%m)
PY
fi
if [[ " $* " != *" nocheck "* ]]; then
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /verif/evidence "$W/ev" 2>/dev/null
  VERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/tools/check.py $p >"$W/clog" 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(grep -m1 VIOLATION "$W/clog")"
fi
