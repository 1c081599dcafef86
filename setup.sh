#!/bin/bash
# the framework is interpreted: check that the tools it needs answer
cd "$(dirname "$0")" || exit 2
set -e
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "harness")
sys.dont_write_bytecode = True
import numpy, scipy, lib
print("numpy", numpy.__version__, "scipy", scipy.__version__)
P
echo ready
