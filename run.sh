#!/bin/bash
# usage: run.sh Cxx [quick|thorough | --replay FILE]
cd "$(dirname "$0")" || exit 3
c=$1; shift
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/lib"
exec /opt/venv/bin/python -B "checks/$c.py" "$@"
