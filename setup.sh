#!/bin/bash
# Everything is built by the checks themselves (Java sources are compiled per run); this only verifies the tools.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
javac -nowarn -d "$d" -cp /opt/veriftools/tla/tla2tools.jar java/vreal/*.java
/opt/venv/bin/python -c 'import numpy, numba, sklearn, scipy'
mkdir -p evidence
echo setup ok
