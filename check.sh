#!/bin/bash
# Usage: check.sh <property> [--tier quick|thorough] [--seed N] [--replay FILE]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$(dirname "$0")/harness/run.py" "$@"
