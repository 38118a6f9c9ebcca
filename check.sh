#!/bin/bash
# Usage: check.sh <property id> [quick|thorough] [replay file]
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export VERIF_SEED=${VERIF_SEED:-1} PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1" JAX_PLATFORMS=cpu
export PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/harness/main.py" "$@"
