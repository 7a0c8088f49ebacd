#!/bin/bash
# ./check.sh <property id> [--replay FILE]
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
cd / && exec /opt/venv/bin/python -W ignore "$here/check.py" "$@"
