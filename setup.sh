#!/bin/sh
# Nothing to build: checks that the interpreter and the code under test can be imported.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3-vt
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}:$(pwd)" "$PY" -c 'import attr, typedload, mc.universe; print("ready")'
