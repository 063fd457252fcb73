#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]: decides one property on /repo's current working tree
exec /opt/venv/bin/python -B "$(dirname "$0")/pyvc/main.py" check "$1" --tier "${2:-quick}"
