#!/bin/bash
# check.sh ID [quick|thorough]: rebuild from /repo's working tree, then search.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
export VERIF_ROOT="$here"
bash "$here/tools/build.sh" || exit 2
ulimit -v 12000000 2>/dev/null
ulimit -c 0 2>/dev/null
exec "$(cat "$here/sim/target/current")" check "$1" "${2:-quick}"
