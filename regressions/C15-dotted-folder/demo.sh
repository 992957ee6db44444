#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds, nonzero when it is broken
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/numba" "$S/mpl" "$S/work"
export NUMBA_CACHE_DIR="$S/numba" MPLCONFIGDIR="$S/mpl" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export SCRATCH="$S/work" PYTHONPATH="$PWD"
export NUMBA_DISABLE_JIT=1
timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py"
