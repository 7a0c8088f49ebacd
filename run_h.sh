#!/bin/bash
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd / && PYTHONPATH=${FT_REPO:-/repo} exec /opt/venv/bin/python -W ignore /verif/harness/run1.py "$@"
