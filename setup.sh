#!/bin/bash
# Nothing to install: every check compiles its own harness from /repo's working tree into build/ (git-ignored).
set -e
cd "$(dirname "$0")"
for t in g++ gcc python3; do command -v $t > /dev/null; done
mkdir -p build evidence replays
