#!/bin/bash
# usage: check.sh <property id> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; shift; shift
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 QISKIT_IN_PARALLEL=TRUE
export QISKIT_PARALLEL=FALSE VERIF_TIER=$TIER
# the code under test is always /repo's working tree
export PYTHONPATH=/repo
SCRATCH=$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID-XXXXXX") || exit 2
export VERIF_SCRATCH=$SCRATCH HOME=$SCRATCH MPLCONFIGDIR=$SCRATCH
trap 'rm -rf -- "$SCRATCH"' EXIT
/opt/venv/bin/python -W ignore run.py "$ID" "$TIER" "$@"
rc=$?
exit $rc
