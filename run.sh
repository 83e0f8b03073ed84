#!/bin/bash
# run.sh <PROPERTY> <quick|thorough>   -- decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent/pycache   # never read a stale .pyc
unset PYTHONPATH
PY=/opt/venv/bin/python
exec "$PY" -B -W ignore -m mc "$1" "${2:-${VERIF_TIER:-quick}}"
