#!/bin/bash
# check.sh <ID> [quick|thorough]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} LANG=C.UTF-8 PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=agg HDF5_USE_FILE_LOCKING=FALSE
export MPLCONFIGDIR=${TMPDIR:-/tmp}/verif_mpl
unset PYTHONPATH
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -W ignore harness/main.py check "$@"
