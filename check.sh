#!/bin/bash
# check.sh ID quick|thorough
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec python3 "$(dirname "$0")/vx/check.py" "$1" --tier "$VERIF_TIER"
