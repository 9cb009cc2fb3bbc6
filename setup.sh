#!/bin/bash
# Nothing is built: only make sure that what the checks need can be imported
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore -c "import pbt.boot, hypothesis, moirae, numpy, scipy; print('ready')"
