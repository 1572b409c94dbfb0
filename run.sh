#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   |   run.sh PROPERTY replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export PYTHONPATH="$here:/repo" MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/.vm-mpl}" NUMBA_CACHE_DIR=
unset NUMBA_CACHE_DIR
exec /opt/venv/bin/python -W ignore -m vm.run "$@"
