#!/bin/bash
# run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE]
# Runs one check against the working tree of /repo (or of $MC_REPO) with a
# home directory of its own, as popsynth writes to ~/.config and ~/.log.
here=$(cd "$(dirname "$0")" && pwd)
repo=${MC_REPO:-/repo}
work=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/home"
export HOME=$work/home MC_WORK=$work MC_REPO=$repo MC_VERIF=$here
export PYTHONPATH=/opt/vp/compat:$repo:$here
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export NUMBA_DISABLE_JIT=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE
cd "$work" || exit 2
/opt/venv/bin/python -W ignore -m mc.main "$@"
