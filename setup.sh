#!/bin/bash
# nothing to compile: check that the interpreter, z3 and sympy load
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, sympy, numpy
sys.path.insert(0, '.')
from pyvc import terms, nf, sym
print('pyvc ready: z3', z3.get_version_string(), 'sympy', sympy.__version__, 'numpy', numpy.__version__)
PY
