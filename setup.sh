#!/bin/bash
# Offline set-up: unpack hypothesis (a pure Python wheel) beside the harness, and smoke-test the harness.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$here" || exit 1
/opt/venv/bin/python - <<'PY'
import sys; sys.path.insert(0, ".")
from vh import deps
deps.ensure()
import hypothesis
print("hypothesis", hypothesis.__version__)
PY
