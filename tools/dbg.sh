#!/bin/bash
# tools/dbg.sh <replay file> : execute it under faulthandler (or under gdb with GDB=1)
here="$(cd "$(dirname "$0")/.." && pwd)"
PY=/opt/macposts-venv/bin/python
eval "$($PY -c "
import sys; sys.path.insert(0,'$here/sim'); import build; b=build.build(); print('EXT=%s SHIM=%s' % (b['ext'], b['shim']))")"
export PYTHONPATH=/repo:$EXT:$here/sim SIM_SHIM=$SHIM PYTHONHASHSEED=0
if [ -n "$GDB" ]; then
  exec gdb -batch -ex "set environment LD_PRELOAD $SHIM" -ex run -ex bt --args $PY $here/tools/dbg.py "$@"
fi
LD_PRELOAD=$SHIM exec $PY $here/tools/dbg.py "$@"
