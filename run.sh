#!/bin/bash
# usage: run.sh CHECK_ID [quick|thorough]      run one check
#        run.sh replay FILE                    re-run a saved failing case
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$HERE" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PIP_NO_INDEX=1
PY=/opt/venv/bin/python
exec "$PY" -B -m vlib.runner "$@"
