#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/demo.py"
