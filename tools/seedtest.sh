#!/bin/bash
# tools/seedtest.sh [-t] seed...: confirm planted bugs in a scratch copy of /repo (demo 0 without, nonzero with;
# -t: also the stable tests), then run the property's check
# on that patched copy (VERIF_REPO), so /repo itself is never touched.
T=; [ "$1" = -t ] && { T=1; shift; }
export PYTHONDONTWRITEBYTECODE=1
V=$(dirname "$(dirname "$(readlink -f "$0")")")
for id in "$@"; do
S=$(readlink -f "$V/seeded/$id"); P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX)
git clone -q /repo "$W/repo"; mkdir "$W/demo"; cp "$S"/demo* "$W/demo/"
cd "$W/repo"
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$id: DOES NOT APPLY"; rm -rf "$W"; continue; }
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
tr=skipped
if [ -n "$T" ]; then
  MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml="$W/u.xml" rdtools >"$W/t" 2>&1
  python3 /opt/vp/results.py "$W/o.json" "junit:$W/u.xml" >/dev/null 2>&1
  tr=$(tail -1 "$W/t")
fi
cd "$V"; t0=$(date +%s)
VERIF_REPO="$W/repo" ./check "$P" >"$W/c" 2>&1; rc=$?
echo "$id $P demo=$d0/$d1 check=$rc ($(( $(date +%s)-t0 ))s) tests: $tr"
[ $d0 != 0 ] && tail -5 "$W/d0"
[ $rc != 1 ] && tail -3 "$W/c"
rm -rf "$W"
done
