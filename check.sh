#!/bin/bash
# check.sh <property> [quick|thorough]   |   check.sh replay <file>
cd "$(dirname "$0")" || exit 2
export MC_VERIF="$PWD"
./build.sh || { echo "check error: the harness does not build against /repo" >&2; exit 2; }
ulimit -v 16000000
ulimit -c 0
exec "${MC_TARGET:-$PWD/target}/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}" ${3:+"$3"}
