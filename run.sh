#!/bin/bash
# ./run.sh C01 [quick|thorough] [-v]      run one check
# ./run.sh replay replays/C01-quick.json  re-execute recorded violations
cd "$(dirname "$(realpath "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
MPLCONFIGDIR=$(mktemp -d /tmp/mc-mpl.XXXXXX)
export MPLCONFIGDIR
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore -m mc "$@"
