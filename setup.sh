#!/bin/sh
# Nothing is built: the specification is interpreted by TLC and the harness by /opt/venv's Python. This only checks the tools.
cd "$(dirname "$0")" || exit 1
command -v java >/dev/null || { echo "java missing"; exit 1; }
test -f /opt/veriftools/tla/tla2tools.jar || { echo "TLC missing"; exit 1; }
/opt/venv/bin/python -B -c "import numpy" || exit 1
mkdir -p evidence
