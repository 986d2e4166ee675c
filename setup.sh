#!/bin/bash
# Builds the model checker once, so that a broken setup shows before the checks run.
set -eu
cd "$(dirname "$0")"
./run.sh C01 -list >/dev/null
echo "setup ok"
