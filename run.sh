#!/bin/bash
# usage: run.sh PROPERTY [--tier quick|thorough] [--replay FILE] ...
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
exec /opt/venv/bin/python -B "$here/harness/run.py" "$@"
