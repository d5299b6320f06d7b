#!/bin/bash
# usage: run.sh check C01 quick | replay FILE | build | selftest ...
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/venv/mplconfig} PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -B -m dst.main "$@"
