#!/bin/bash
# Nothing to build: the package is pure Python and the checks import it from /repo. This verifies the interpreter.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore - <<'P'
import ast, glob, sys
for f in glob.glob('harness/*.py') + glob.glob('harness/props/*.py'):
    ast.parse(open(f).read(), f)
import numpy, scipy, netCDF4, numba
print('ok', sys.version.split()[0], 'numpy', numpy.__version__)
P
