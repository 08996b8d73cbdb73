#!/bin/bash
# Run with cwd /repo; exit 0 when the behaviour is right.
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$HERE" exec /opt/venv/bin/python "$HERE/demo.py"
