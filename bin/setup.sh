#!/bin/bash
# Nothing has to be prepared: every check builds what it needs. This only shows that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence .work replays
php8.3 -n -r 'exit(0);'
java -version >/dev/null 2>&1
python3 -c 'import json'
test -f /opt/veriftools/tla/tla2tools.jar
