#!/bin/bash
# usage: run.sh <property> [quick|thorough | --replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset PYTHONPATH
exec /opt/veriftools/pyvenv/bin/python -B harness/main.py "$@"
