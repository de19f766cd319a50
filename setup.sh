#!/bin/bash
# nothing has to be prepared: every check builds what it needs. See that the tools are there.
set -e
cd "$(dirname "$0")"
for t in g++ gcc python3 java tlc; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p build evidence replays
echo ready
