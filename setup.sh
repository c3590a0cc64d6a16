#!/bin/bash
# Nothing has to be built: the checks are Python and compile acoular's numba kernels themselves
# (into a scratch directory) from /repo's working tree.  This only verifies that the pieces exist.
here="$(cd "$(dirname "$0")" && pwd)"
"${VERIF_PYTHON:-/opt/venv/bin/python}" - "$here" <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from vlib import boot
boot.add_hypothesis()
import hypothesis, numpy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)
P
