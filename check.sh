#!/bin/bash
# usage: ./check.sh <PROPERTY> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -m oamc.run "$@"
