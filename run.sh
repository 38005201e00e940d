#!/bin/bash
# run.sh <PROPERTY> [--thorough] [--replay FILE]
exec /opt/venv/bin/python "$(dirname "$0")/run.py" "$@"
