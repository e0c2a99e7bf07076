#!/bin/sh
# run.sh <property id> <quick|thorough>: runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" OMP_NUM_THREADS=1
id="$1"; tier="${2:-quick}"; shift; [ $# -gt 0 ] && shift
exec /opt/venv/bin/python -m checks.run "$id" --tier "$tier" "$@"
