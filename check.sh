#!/bin/bash
# usage: check.sh P01 quick|thorough   (run from anywhere)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python run.py "$1" --tier "${2:-quick}"
