#!/bin/bash
# Nothing is built ahead of a check: checks import pysad from /repo's sources. This only verifies the tools.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "harness")
import boot
boot.install()
import hypothesis, numpy, scipy, sklearn
print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)
PY
