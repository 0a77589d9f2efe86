#!/bin/bash
# Build the simulated extension once; every check rebuilds what changed.
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
exec env PYTHONDONTWRITEBYTECODE=1 /opt/macposts-venv/bin/python sim/build.py
