#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs the monitors of one property against /repo's working tree.
cd "$(dirname "$(realpath "$0")")" || exit 3
unset PYTHONPATH PYTHONHOME
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m curvemon "$@"
