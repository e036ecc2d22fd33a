#!/bin/bash
# usage: run.sh ID [--tier quick|thorough] [--seed N] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
PY="${VP_PYTHON:-/opt/venv/bin/python}"
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" -W ignore "$here/vp/run.py" "$@"
