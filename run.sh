#!/bin/sh
# run.sh <property id> : decide one property on /repo's current tree
cd "$(dirname "$0")" && exec python3 analysis/run.py "$@"
