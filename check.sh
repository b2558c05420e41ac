#!/bin/bash
# check.sh ID [quick|thorough]   or   check.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
if [ "$1" = replay ]; then shift; exec python3 -m sim.run replay "$@"; fi
exec python3 -m sim.run check "$1" --tier "${2:-${VERIF_TIER:-quick}}"
