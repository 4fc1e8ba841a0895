#!/bin/bash
# check.sh <PROPERTY> [args of run.py]  -- runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -X faulthandler "$PWD/run.py" "$@"
