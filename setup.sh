#!/bin/bash
# Nothing is prebuilt: every check compiles its harness from /repo's working
# tree.  This only verifies that the toolchain is there.
set -e
cd "$(dirname "$0")"
g++ --version >/dev/null
python3 -c "import json" 
mkdir -p evidence build replays
echo ready
