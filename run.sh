#!/bin/bash
# run.sh check PROP | replay FILE | selftest PROP N
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
exec /opt/venv/bin/python -B -W ignore -m sim.main "$@"
