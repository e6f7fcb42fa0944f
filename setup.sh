#!/bin/sh
# Nothing to build: the simulator is Python and runs on the interpreter of the repository's own environment.
cd "$(dirname "$0")" || exit 2
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c 'import sim.runner, numpy, scipy; print("ready")'
