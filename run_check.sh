#!/bin/bash
# run_check.sh PID [quick|thorough]
cd "$(dirname "$0")" || exit 1
exec python3 tools/check/check.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
