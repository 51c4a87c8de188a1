#!/bin/sh
# check.sh <property> [options]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m zv "$@"
