#!/bin/bash
# Nothing needs pre-building: every check compiles its harness from /repo and runs TLC itself.
# This only verifies that the tools the checks rely on are present.
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
g++ --version | head -1
test -f /opt/veriftools/tla/tla2tools.jar
python3 -c 'import json, concurrent.futures'
mkdir -p evidence .work
