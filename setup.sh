#!/bin/bash
# Nothing to compile: the checks import cyjax from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
mkdir -p evidence
/opt/venv/bin/python -c "import mc.core, mc.oracle, jax, sympy, numpy, flax, optax, hydra; print('ready', jax.__version__)"
