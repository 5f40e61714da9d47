#!/bin/bash
# The monitors are plain Python: verify that the interpreter, the code under test and the oracles load.
cd "$(dirname "$0")/.." || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=mon:/repo/src exec /opt/venv/bin/python -P -c 'import numpy, scipy, sleplet, core, oracle, regions; print("ok", sleplet.__file__)'
