#!/bin/bash
# bash check.sh C01 [--tier T] [--seed N] [--replay FILE]
# Runs one property's monitors against the code in /repo's working tree.
cd "$(dirname "$(realpath "$0")")" || exit 2
export VF_REPO="${VF_REPO:-/repo}"
export PYTHONPATH="$VF_REPO:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
scratch=$(mktemp -d /tmp/vf.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch" MPLCONFIGDIR="$scratch/mpl" VF_SCRATCH="$scratch"
export HOME="$scratch/home" XDG_CONFIG_HOME="$scratch/home/.config"
mkdir -p "$HOME" "$MPLCONFIGDIR"
/opt/venv/bin/python -X faulthandler -m vf "$@"
