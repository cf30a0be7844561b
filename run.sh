#!/bin/sh
# usage: run.sh <property id> [--tier quick|thorough] [--replay FILE] [--jobs N]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m mc.main "$@"
