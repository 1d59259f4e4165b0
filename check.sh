#!/bin/bash
# usage: bash /verif/check.sh PROPERTY [quick|thorough]
#        bash /verif/check.sh PROPERTY --replay FILE
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -W ignore checks/run.py "$@"
