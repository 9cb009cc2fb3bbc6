#!/bin/bash
# usage: check.sh <property> [options]: run the check of one property against /repo
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -m pbt.run "$@"
