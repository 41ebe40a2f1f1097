#!/bin/sh
# The checks build what they need from /repo themselves; here only the tools are checked.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
python3 -c 'import json, fcntl, resource'
test -f /opt/veriftools/tla/tla2tools.jar
mkdir -p build work evidence
echo ready
