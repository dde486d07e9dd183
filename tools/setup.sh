#!/bin/bash
# Nothing to prebuild: every check compiles its monitors from /repo's working tree.  Verify the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p build/cache evidence
g++ --version | head -1
python3 -c 'import json; json.load(open("MANIFEST.json"))'
