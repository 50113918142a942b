#!/bin/bash
# nothing to build; shows that the interpreter, the code under test and the harness import
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg exec /opt/venv/bin/python -c "import torch, scipy, torchdyn.numerics, torchdyn.core, torchdyn.models, torchdyn.nn, torchdyn.datasets, lib.core; print('ok', torch.__version__)"
