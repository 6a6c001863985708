#!/bin/bash
# nothing to build: check the interpreter and the solvers are there
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
. /opt/vp/env.sh 2>/dev/null
/opt/venv/bin/python - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, astropy, z3
print("python", sys.version.split()[0], "numpy", numpy.__version__, "z3", z3.get_version_string())
P
