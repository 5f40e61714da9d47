#!/bin/bash
# run.sh <property> [--tier quick|thorough] [--replay file]: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -P mon/main.py "$@"
