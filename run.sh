#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE] -- runs a check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg HDF5_USE_FILE_LOCKING=FALSE TQDM_DISABLE=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
if [ "$1" = --setup ]; then exec "$PY" -W ignore -c "import numpy, scipy, pandas, h5py, pydantic, battdat; print(\"ready\")"; fi
exec "$PY" -W ignore run.py "$@"
