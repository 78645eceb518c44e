#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  This
# only verifies that the interpreter and the tooling packages are present.
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
PY
