#!/bin/sh
# Everything the checks need is installed already; see that it is
set -e
python=/opt/venv/bin/python
[ -x "$python" ] || python=python3
"$python" - <<'END'
import sys
assert sys.version_info >= (3, 12), 'needs sys.monitoring'
import numpy, Cython, pydispatch, simpleparse
END
echo ready
