#!/bin/bash
# run.sh <ID> : run one check against /repo's working tree
cd "$(dirname "$0")/.." || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="$PWD/lib:$PWD/checks:/repo/src"
exec /opt/venv/bin/python -W ignore "checks/$1.py"
