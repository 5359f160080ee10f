#!/bin/bash
# Usage: check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--runs N] ...
# Runs one deterministic simulation check against the working tree of /repo.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
# one thread and one code path in the numerical libraries: nothing outside of
# the simulator may influence a run
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export OPENBLAS_CORETYPE=Haswell
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
# never read compiled files which might be older than the sources
export PYTHONPYCACHEPREFIX=/nonexistent/pycache
export LC_ALL=C.UTF-8 LANG=C.UTF-8 TZ=UTC
export PYTHONPATH="$here"
cd "$here"
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -s -m sim.main "$@"
