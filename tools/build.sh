#!/bin/bash
# Builds the simulator against /repo's current working tree, with tower's
# guarded switch points. Should a change to tower not compile with them (they
# stand in for std::sync types), builds against the plain tree instead: then
# only the interleavings inside tower's own locks and atomics are not explored.
# The binary to run is named in sim/target/current.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
cd "$here/sim" || exit 2
export CARGO_TERM_COLOR=never
log="$(mktemp)"
mkdir -p target
if RUSTFLAGS="--cfg tower_sim" cargo build --offline >"$log" 2>&1; then
  echo "$here/sim/target/debug/sim" >target/current
  rm -f "$log"
  exit 0
fi
if CARGO_TARGET_DIR="$here/sim/target/plain" RUSTFLAGS="" cargo build --offline >"$log.2" 2>&1; then
  echo "note: built without --cfg tower_sim (does not compile with it)"
  echo "$here/sim/target/plain/debug/sim" >target/current
  rm -f "$log" "$log.2"
  exit 0
fi
grep -E '^error' -A 12 "$log" | head -60
echo "build failed"
rm -f "$log" "$log.2"
exit 2
