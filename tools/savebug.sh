#!/bin/bash
# tools/savebug.sh <id> <property> <needs> <what>: save /tmp/bugwt's diff; demo.py must already be in seeded/<id>
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/bugwt diff > $d/patch.diff
git -C /tmp/bugwt checkout -q -- .
cp /verif/sim/gen.py $d/net.py; cp /verif/tools/demo/demolib.py $d/demolib.py
cat > $d/demo.sh <<'X'
#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo:/repo/_build:"$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/macposts-venv/bin/python "$here/demo.py"
X
python3 - "$@" <<'P'
import json,sys
_,i,p,n,w=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
