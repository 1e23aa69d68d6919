#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough] -- runs one check with the interpreter surfalize is installed in
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python run.py "$@"
