#!/bin/sh
# check.sh ID [quick|thorough] : builds the simulator from /repo's current tree and decides one property.
# Exit 0: held on everything explored. Exit 1 + "VIOLATION property=ID replay=FILE": broken. Anything else: no answer.
cd "$(dirname "$0")" || exit 2
KSIM_ROOT="$(pwd)"; export KSIM_ROOT
[ -n "$2" ] && { VERIF_TIER="$2"; export VERIF_TIER; }
tools/build.sh || { echo "check.sh: the build failed"; exit 2; }
exec target/debug/ksim run "$1"
