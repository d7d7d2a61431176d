#!/bin/bash
# bash run.sh <ID> [quick|thorough|replay FILE]
cd "$(dirname "$0")" || exit 2
export NODE_PATH=/opt/veriftools/node/node_modules
exec node lib/runner.js "$@"
