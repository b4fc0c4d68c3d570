#!/bin/bash
# replay.sh PROPERTY FILE: run the recorded input of a violation against /repo's current tree
cd "$(dirname "$0")/.." || exit 1
exec python3-vt tools/replay.py "$@"
