#!/bin/sh
# check.sh <property> [tier]
cd "$(dirname "$0")" && exec python3 tools/run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
