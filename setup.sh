#!/bin/bash
# Nothing to compile: the checks read /repo's working tree directly. Fail early when an interpreter is missing.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python -c "import numpy, xarray, dask"
python3-vt -c "import z3"
