#!/bin/bash
# usage: run.sh ID [--tier quick|thorough] [--replay FILE]
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec timeout -k 10 880 /opt/venv/bin/python "$(dirname "$(realpath "$0")")/lib/runner.py" "$@"
