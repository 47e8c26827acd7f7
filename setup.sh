#!/bin/bash
# Nothing to build: checks that the interpreter, z3 and the engine work.
cd "$(dirname "$0")"
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python -W ignore -m symx.selftest
