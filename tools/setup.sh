#!/bin/bash
# builds the extractor from the committed sources
cd "$(dirname "$0")/.." || exit 1
mkdir -p build replays evidence
exec python3-vt -c "import sys; sys.path.insert(0,'.'); from tools import check; print(check.build_extractor())"
