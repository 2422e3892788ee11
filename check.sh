#!/bin/bash
# usage: check.sh <property> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="${EC_REPO:-/repo}:$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python -m vk.run "$@"
