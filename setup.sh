#!/bin/bash
# nothing to build: checks read /repo's sources directly.  Confirms the interpreter and the solvers are there.
cd "$(dirname "$0")" && mkdir -p evidence replays
export DASK_DATAFRAME__QUERY_PLANNING=False MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
cd / && /opt/venv/bin/python -W ignore -c "
import sys; sys.path[:0]=['/repo','$OLDPWD/fv']
import pandas, values, featuretools
print('ok')" || exit 1
FT_REPO=/repo exec /opt/venv/bin/python -W ignore "$OLDPWD/fv/selftest.py"
