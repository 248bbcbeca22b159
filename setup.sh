#!/bin/bash
# Nothing has to be built: the monitors import the code from /repo's working tree.
cd "$(dirname "$(realpath "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence/replay
exec /opt/venv/bin/python -W ignore -c 'import curvemon.load, curvemon.engine; print("ok")'
