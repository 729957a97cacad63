#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
#        check.sh --replay FILE
# Runs the model checker for one property against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=${DISPERSION_REPO:-/repo}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/dispersion-mc.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/home/.config" "$scratch/mpl" "$scratch/work"
export HOME="$scratch/home" MC_SCRATCH="$scratch/work" MC_REPO="$repo"
export PYTHONPATH="$repo/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MC_PYC="$scratch/pyc" MPLCONFIGDIR="$scratch/mpl" MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C.UTF-8 TMPDIR="$scratch/work"
cd "$scratch/work" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
"$py" -W ignore -m mc.main "$@"
