#!/bin/sh
# Nothing to build: check that the interpreter, z3 and the models load.
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -B -c "
import sys
sys.path[:0] = ['.']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, scipy, h5py
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'scipy',
      scipy.__version__, 'h5py', h5py.__version__)
"
