#!/bin/sh
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
