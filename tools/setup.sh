#!/bin/sh
# Nothing to build: checks the interpreter, the solver bindings and that the modules of /repo load in the engine.
cd "$(dirname "$0")/.." || exit 1
PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu /opt/venv/bin/python - <<'PY'
from symex import z3path  # noqa
import z3
print("z3", z3.get_version_string())
PY
