#!/bin/bash
# check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" run.py "$1" --tier "$2"
