#!/bin/bash
# replay.sh FILE: re-executes a recorded run; exit 1 if the same violation and
# the same event log appear again, 0 if the run is clean, 3 if it differs.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$here"
bash "$here/tools/build.sh" || exit 2
ulimit -v 12000000 2>/dev/null
ulimit -c 0 2>/dev/null
exec "$(cat "$here/sim/target/current")" replay "$@"
