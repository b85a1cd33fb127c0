#!/bin/bash
# usage: run.sh <property-id> [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
REPO="${VF_REPO:-/repo}"
PY="${VF_PYTHON:-/opt/venv/bin/python}"
[ -x "$PY" ] || PY=python3
export VF_REPO="$REPO"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD:$REPO"
export JAX_PLATFORMS=cpu MPLBACKEND=Agg
export XLA_FLAGS="--xla_backend_optimization_level=0 --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$PY" -m vf.core "$@"
