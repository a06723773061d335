#!/bin/bash
# Build the extractor and warm the fact cache (both are rebuilt on demand by every check).
cd "$(dirname "$0")/.." || exit 2
python3 tool/warm.py
