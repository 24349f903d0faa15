#!/bin/bash
# Usage: check.sh PROPERTY [--replay FILE]      (environment: VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1
export XLA_FLAGS="--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
unset JAX_DISABLE_JIT JAX_COMPILATION_CACHE_DIR
exec /opt/venv/bin/python harness/check.py "$@"
