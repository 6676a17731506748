#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator from /repo's working
# tree and decides one property. check.sh replay FILE: replays a violation.
here=$(cd "$(dirname "$0")/.." && pwd)
prop=${1:?}; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
out=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
t0=$(date +%s.%N)
"$here/bin/build.sh" "$out" >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; echo "build failed" >&2; exit 2; }
if [ "$prop" = replay ]; then
  if grep -q '^ "Race": true' "$2"; then
    "$here/bin/build.sh" "$out" race >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; exit 2; }
  fi
  TMPDIR=$out "$out/sim" replay "$2" "$out/sim-race"; exit
fi
args=()
secs=50; [ "$tier" = thorough ] && secs=600
if [ "$prop" = C15 ]; then
  "$here/bin/build.sh" "$out" race >"$out/build.log" 2>&1 || { cat "$out/build.log" >&2; echo "race build failed" >&2; exit 2; }
  args+=("-race=$out/sim-race"); secs=40; [ "$tier" = thorough ] && secs=400
fi
t1=$(date +%s.%N)
TMPDIR=$out "$out/sim" check "$prop" "-tier=$tier" "-seed=$seed" "-verif=$here" "-seconds=${VERIF_SECONDS:-$secs}" "-build=$(echo "$t1 - $t0" | bc 2>/dev/null || echo 0)" "${args[@]}"
