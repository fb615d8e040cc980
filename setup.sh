#!/bin/bash
# Builds the symbolic executor and extracts the bitcode of the standard library. Offline.
set -e
cd "$(dirname "$0")"
python3 check.py P01 --setup
