#!/bin/bash
# run.sh PROPERTY [quick|thorough]: decide one property for the tree in /repo
cd "$(dirname "$0")" || exit 2
exec python3 engine/check.py "$@"
