#!/bin/bash
# Nothing to build: check that the interpreter, Hypothesis and the code under test can be imported.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
cd "$here" && exec "$PY" -W ignore -c "
from vlib import core
core.specula_init()
print('ready')"
