#!/bin/bash
# developer entry: run the verifier on some properties
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd / && exec /opt/venv/bin/python /verif/fv/main.py "$@"
