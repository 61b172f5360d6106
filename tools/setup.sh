#!/bin/bash
# Builds the analysis driver into .build/.
set -e
cd "$(dirname "$0")/.."
exec python3 tools/check.py --setup
