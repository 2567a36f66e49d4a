#!/bin/bash
# Nothing to build: the checks import /repo directly. Verify the solver loads.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, ".")
from symex.core import z3
x = z3.Real("x")
s = z3.Solver(); s.add(x * x == 4, x > 0)
assert s.check() == z3.sat
print("z3", z3.get_version_string())
P
