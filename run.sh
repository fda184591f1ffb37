#!/bin/bash
# ./run.sh C01 quick|thorough     or    ./run.sh --replay out/C01/0.json
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset PYTHONPATH
export PYTHONPATH="$PWD"
exec /opt/venv/bin/python -m mon "$@"
