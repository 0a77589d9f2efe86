#!/bin/bash
# check.sh <property> quick|thorough      or      check.sh replay <file>
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/macposts-venv/bin/python "$here/sim/driver.py" "$@"
