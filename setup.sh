#!/bin/bash
# Nothing is built ahead: every check generates and compiles what it needs from /repo. Only see
# that the tools are there.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
set -e
g++ --version >/dev/null
/opt/venv/bin/python -c "import numpy, scipy, h5py, pystencils, pyfftw"
chmod +x "$here/run.sh"
mkdir -p "$here/evidence"
