#!/bin/bash
# Nothing has to be built; check that the interpreter and the code are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" /opt/venv/bin/python -c 'import numpy, scipy, h5py, mpnum.povm, pbt.engine; print("ok")'
