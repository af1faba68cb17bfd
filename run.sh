#!/bin/sh
# run.sh <property id> [quick|thorough]
# Explores the code in /repo (or $VERIF_REPO) directly: there is nothing to build, Python
# imports the current working tree. Nothing is written in /repo.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3-vt
export PYTHONPATH="${VERIF_REPO:-/repo}:$(pwd)"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX=/nonexistent
# The iteration order of sets is a source of nondeterminism, so it is fixed for every run
export PYTHONHASHSEED="${VERIF_HASHSEED:-$(( ${VERIF_SEED:-1} % 1000 ))}"
exec "$PY" -m mc.main "$@"
