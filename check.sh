#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [options]
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="${VERIF_REPO:-/repo}:$(pwd)" OMP_NUM_THREADS=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -c 'import sys; from mc.core import main; sys.exit(main(sys.argv[1:]))' "$@"
