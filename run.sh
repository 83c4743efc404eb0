#!/bin/bash
# bash run.sh <property> [quick|thorough]            run one check
# bash run.sh <property> --replay FILE               re-run one saved failing case
# Everything the run writes outside /verif/evidence and /verif/replays goes to
# a scratch directory that is removed when the run ends.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?usage: run.sh PROPERTY [quick|thorough|--replay FILE]}
work=$(mktemp -d "${TMPDIR:-/tmp}/hpyverif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
export PIP_NO_INDEX=1 MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPYCACHEPREFIX="$work/pyc" NUMBA_CACHE_DIR="$work/numba"
export MPLCONFIGDIR="$work/mpl" HYPOTHESIS_STORAGE_DIRECTORY="$work/hyp"
export HPY_SCRATCH="$work/scratch" HPY_REPO="${HPY_REPO:-/repo}"
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset PYTHONPATH PYTEST_ADDOPTS PYTHONSTARTUP
mkdir -p "$work/scratch" "$work/mpl" "$work/numba"
shift
cd "$work/scratch" || exit 2
/opt/venv/bin/python -W ignore "$here/harness/main.py" "$prop" "$@"
