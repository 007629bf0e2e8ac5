#!/bin/bash
# usage: run.sh <property id> [--replay FILE]
# Runs the check of one property against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH
cd "$here" || exit 2
exec /opt/venv/bin/python -W ignore -m pbt.run "$@"
