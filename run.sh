#!/bin/bash
# usage: run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one check of /verif against the working tree of /repo (pure Python: nothing to build).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= \
       OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 TORCHDYN_REPO="${TORCHDYN_REPO:-/repo}"
exec /opt/venv/bin/python -W ignore::SyntaxWarning -m lib.run "$@"
