#!/bin/bash
# cwd: the repository; exit 0: behaviour intact, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
NUMBA_CACHE_DIR="$(mktemp -d)"; export NUMBA_CACHE_DIR
trap 'rm -rf "$NUMBA_CACHE_DIR"' EXIT
PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT="${DEMO_NOJIT:-1}" PYTHONPATH="$PWD:$here" /opt/venv/bin/python "$here/demo.py"
