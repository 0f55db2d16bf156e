#!/bin/bash
# Checks that the toolchain is there; nothing is built ahead of the checks.
cd "$(dirname "$0")" || exit 1
[ -f /opt/veriftools/tla/tla2tools.jar ] || exit 1
java -version >/dev/null 2>&1 || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import json; json.load(open('MANIFEST.json')); json.load(open('known_findings.json'))" || exit 1
echo setup ok
