#!/bin/bash
# seed.sh ID [nocheck|fast]: confirm a planted change (applies, builds, stable tests pass, the demo distinguishes) and run
# its property's check on it. R (default /repo) may be a copy of /repo, with BUILD and TEST the build and test scripts for it.
set -u
R=${R:-/repo}; BUILD=${BUILD:-/opt/vp/build.sh}; TEST=${TEST:-/opt/vp/test.sh}; export PBC_REPO=$R
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
L=$(mktemp -d); 
cd $R || exit 2
[ -z "$(git status --porcelain)" ] || { echo "$R dirty"; exit 2; }
bash $BUILD >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
bash "$d/demo.sh" >$L/demo0 2>&1 && echo "$id demo base: 0" || { echo "$id demo FAILS on base"; tail -5 $L/demo0; exit 1; }
git apply "$d/patch.diff" || exit 1
trap 'git -C $R checkout -q -- . ; bash $BUILD >/dev/null 2>&1; rm -rf "$L"' EXIT
bash $BUILD >$L/build 2>&1 || { echo "$id BUILD FAILS"; tail -5 $L/build; exit 1; }
bash "$d/demo.sh" >$L/demo1 2>&1; r=$?; [ $r -ne 0 ] && echo "demo patched: $r ($(tail -1 $L/demo1))" || { echo "$id demo does NOT fail with patch"; exit 1; }
if [ "${2:-}" != fast ]; then
bash $TEST $L/t.json >/dev/null 2>&1
python3 - $L/t.json <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
base=set(b.get('passed') or b.get('stable') or b)
miss=base-set(t['passed'])
print('tests: %d/%d stable pass'%(len(base)-len(miss),len(base)), sorted(miss)[:5])
raise SystemExit(1 if miss else 0)
P
fi
[ "${2:-}" = nocheck ] && exit 0
cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $prop quick > $L/chk 2>&1; r=$?
[ $r -eq 1 ] && grep -q "^VIOLATION property=$prop " $L/chk && echo "CAUGHT $id by $prop" || echo "MISSED $id by $prop (exit $r)"
tail -2 $L/chk | cut -c1-300
