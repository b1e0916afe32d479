#!/bin/sh
# ./check.sh C01 [--tier thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 JAX_PLATFORMS=cpu exec /opt/venv/bin/python -c 'import sys; from symex import runner; sys.exit(runner.main(sys.argv[1:]))' "$@"
