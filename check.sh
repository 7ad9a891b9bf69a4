#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] [--replay FILE]
# Runs one model-checking run against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
unset PYTHONPATH PYTHONHOME
scratch=$(mktemp -d /tmp/verif-mc.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export VERIF_SCRATCH=$scratch MPLCONFIGDIR=$scratch/mplconfig
mkdir -p "$MPLCONFIGDIR"
# a ready-made font cache saves a few seconds (only copied, never written)
cp /opt/vp/mplconfig/* "$MPLCONFIGDIR"/ 2>/dev/null
cd "$here" || exit 2
/opt/venv/bin/python -B -W ignore -m mc.main "$@"
rc=$?
exit $rc
