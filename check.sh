#!/bin/bash
# check.sh <PROPERTY> [--replay FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED)
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.run "$@"
