#!/bin/bash
# nothing to build: the checks are Python and import pyproximal from /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY="$(command -v python3)"
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "
import sys; sys.path.insert(0, '/repo'); sys.path.append('$here/vendor')
import hypothesis, numpy, scipy, pylops, numba, pyproximal
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__, 'pylops', pylops.__version__)"
