#!/bin/bash
# ./check.sh <PROPERTY> [quick|thorough]     run a check
# ./check.sh replay <PROPERTY> <seed> <case> re-run one case verbosely
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_harness || exit 2
if [ "$1" = replay ]; then
    exec "$BIN" case "$2" "$3" "$4"
fi
exec "$BIN" run "$1" "${2:-${VERIF_TIER:-quick}}"
