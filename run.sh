#!/bin/bash
# run.sh ID [check.py options]: runs one check against /repo's working tree (pure Python: nothing to build)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/tmp/aeolisvt-mpl}
mkdir -p "$MPLCONFIGDIR"
export PYTHONPATH=${AEOLIS_REPO:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore "$here/harness/check.py" "$@"
