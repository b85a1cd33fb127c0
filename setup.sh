#!/bin/bash
# Smoke test of the framework: all modules compile, the code under test can be imported.
cd "$(dirname "$0")" || exit 2
PY="${VF_PYTHON:-/opt/venv/bin/python}"
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
export PYTHONPATH="$PWD:${VF_REPO:-/repo}"
"$PY" - <<'PY'
import importlib, pathlib
for p in sorted(pathlib.Path("vf/checks").glob("c*.py")):
    importlib.import_module(f"vf.checks.{p.stem}")
import skillmodels, jax, pandas
print("ok", skillmodels.__file__)
PY
