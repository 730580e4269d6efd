#!/bin/bash
# usage: bash run.sh <PROPERTY> [quick|thorough] [--replay FILE] [--cases N] ...
# Runs the generated-input check of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
PROP=$1; shift
TIER=${VERIF_TIER:-quick}
case "$1" in quick|thorough) TIER=$1; shift;; esac
export VERIF_TIER=$TIER VERIF_SEED=${VERIF_SEED:-1}
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
# never read byte code that lies around next to the sources
export PYTHONPYCACHEPREFIX=/nonexistent-pycache
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" PYTHONNOUSERSITE=1
unset PYTHONOPTIMIZE
exec /opt/venv/bin/python -m pbt.main "$PROP" "$@"
