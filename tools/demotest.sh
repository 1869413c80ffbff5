#!/bin/bash
# tools/demotest.sh seed...: demo exit status without / with the patch, in a scratch copy
V=$(dirname "$(dirname "$(readlink -f "$0")")")
for id in "$@"; do cd /
W=$(mktemp -d /tmp/seed.XXXXXX); git clone -q /repo "$W/repo"; mkdir "$W/demo"; cp "$V/seeded/$id"/demo* "$W/demo/"; cd "$W/repo"
bash "$W/demo/demo.sh" >"$W/d0" 2>&1; d0=$?; git apply "$V/seeded/$id/patch.diff"; bash "$W/demo/demo.sh" >"$W/d1" 2>&1; d1=$?
echo "$id $d0/$d1"; [ $d0 != 0 ] && tail -4 "$W/d0"; [ $d1 = 0 ] && tail -4 "$W/d1"; rm -rf "$W"; done
