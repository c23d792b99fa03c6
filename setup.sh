#!/bin/bash
# nothing to build: the checks are Python, the encoding is regenerated from /repo at every run
cd "$(dirname "$0")" || exit 1
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c "import sys; sys.path.insert(0,'.'); import jax, numpy; import symx.api, symx.harness; import z3; print('ready', z3.get_version_string())"
