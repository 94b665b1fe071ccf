#!/bin/bash
# usage: run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--family NAME]
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLBACKEND=Agg
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$here"
exec "$PY" -W ignore "$here/run.py" "$@"
