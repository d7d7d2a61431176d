#!/bin/bash
# Nothing to compile ahead of time: every check transpiles /repo's working tree
# itself. This only checks that the tools the checks rely on are present.
cd "$(dirname "$0")" || exit 2
export NODE_PATH=/opt/veriftools/node/node_modules
mkdir -p evidence replays
node -e 'require("fast-check"); require("typescript")' && command -v perl >/dev/null
