#!/bin/bash
# check.sh PROP            build the simulator from /repo's working tree and decide PROP (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE     reproduce a recorded violation exactly
cd "$(dirname "$0")" || exit 3
out=$(bash build.sh 2>&1) || { echo "$out"; echo "build of the simulator failed"; exit 3; }
if [ "$1" = replay ]; then exec .build/sim replay "$2"; fi
exec .build/sim check "$1" "${VERIF_TIER:-quick}"
