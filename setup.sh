#!/bin/bash
# nothing to build: checks run the specifications and /repo's sources directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
java -version >/dev/null 2>&1 && /opt/venv/bin/python -c "import rustworkx, numpy" && test -f /opt/veriftools/tla/tla2tools.jar
