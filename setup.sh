#!/bin/bash
# nothing to build: the checks import the library from /repo's working tree.  Verify that this works.
cd "$(dirname "$0")" && mkdir -p evidence
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}:." "$PY" -c 'import aalpy, mc.core, mc.props; print("ok")'
