#!/bin/bash
# unpack the vendored wheels (the checks do this themselves too, if it was not done)
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/harness/bootstrap.py"
