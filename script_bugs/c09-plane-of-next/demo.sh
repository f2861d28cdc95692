#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"
