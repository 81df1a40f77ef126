#!/bin/bash
# usage: run.sh <PROPERTY> [--replay FILE]
# Runs one runtime-monitoring check against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VX_REPO:-/repo}/src:$PWD"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX=/nonexistent-vx-pycache
export LC_ALL=C.UTF-8 PYTHONUTF8=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m vx.main "$@"
