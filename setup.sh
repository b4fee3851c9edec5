#!/bin/bash
# Nothing to build: the simulator imports the package from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, sympy, awkward, networkx; print('ok')"
