#!/bin/bash
# Nothing to build: the checks import the package from /repo. Only verifies the interpreter.
cd "$(dirname "$0")" || exit 2
PYTHONPATH=/repo NUMBA_CACHE_DIR=$(mktemp -d) PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import openamundsen, numba, xarray, netCDF4; print('ok', openamundsen.__file__)"
