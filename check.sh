#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulator around /repo's current sources and
# decides one property by seeded search. Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
# check.sh build: only builds. check.sh replay FILE: repeats the run of a replay file.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$here/sim" || exit 2
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
src=${BCALC_SRC:-/repo/src}
if grep -qE '^[[:space:]]*(#!\[|//!|/\*!)' "$src/main.rs"; then
  # An included file cannot start with inner attributes.
  mkdir -p "$CARGO_TARGET_DIR" || exit 2
  rm -rf "$CARGO_TARGET_DIR/ut-src" && cp -a "$src" "$CARGO_TARGET_DIR/ut-src" || exit 2
  sed -i -E 's,^([[:space:]]*)(#!\[|//!|/\*!),\1// \2,' "$CARGO_TARGET_DIR/ut-src/main.rs" || exit 2
  src="$CARGO_TARGET_DIR/ut-src"
fi
export BCALC_SRC=$src
# Cargo goes by modification times; go by content instead.
now=$(find "$src" -type f -name '*.rs' -print0 | sort -z | xargs -0 sha256sum | sha256sum)
mkdir -p "$CARGO_TARGET_DIR" || exit 2
if [ "$now" != "$(cat "$CARGO_TARGET_DIR/built-from" 2>/dev/null)" ]; then
  rm -f "$CARGO_TARGET_DIR/built-from"
  touch bcalc-ut/src/lib.rs
fi
log="$CARGO_TARGET_DIR/build.log"
if ! cargo build --offline --locked -p harness >"$log" 2>&1; then
  tail -n 60 "$log" >&2
  echo "check.sh: the build failed" >&2
  exit 2
fi
echo "$now" >"$CARGO_TARGET_DIR/built-from"
sim="$CARGO_TARGET_DIR/debug/bcalcsim"
case "$1" in
  build) exit 0 ;;
  replay) exec "$sim" replay "$2" ;;
esac
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
# Runs per check: a fixed number, so that one seed explores the same runs everywhere; the time
# limit only matters on a much slower machine.
if [ "$tier" = thorough ]; then
  runs=100000000 secs=${VERIF_SECS:-600}
else
  case "$prop" in
    T03) runs=200000 ;;
    T01 | T02 | T04 | T05) runs=120000 ;;
    C01 | C02) runs=80000 ;;
    R01) runs=60000 ;;
    *) runs=40000 ;;
  esac
  secs=${VERIF_SECS:-100}
fi
mkdir -p "$here/evidence" "$here/replays" || exit 2
exec "$sim" check "$prop" "$tier" "$seed" "$here/evidence/$prop.json" "$here/replays" "${VERIF_RUNS:-$runs}" "$secs" "${VERIF_JOBS:-0}"
