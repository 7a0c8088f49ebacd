#!/bin/bash
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cd / && PYTHONPATH=${FT_REPO:-/repo} exec /opt/venv/bin/python -W ignore /verif/tools/gen_design.py 2>/dev/null
