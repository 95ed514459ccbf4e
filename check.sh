#!/bin/bash
# usage: check.sh PROPERTY [job prefix...]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
exec /opt/venv/bin/python -m pysym.run "$@"
