"""Run one replay file in a single debuggable process: tools/dbg.sh <replay>"""
import faulthandler, json, sys, tempfile, os
faulthandler.enable()
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sim"))
import props
rp = json.load(open(sys.argv[1]))
root = tempfile.mkdtemp(prefix="dbg_")
print(props.PROPS[rp["property"]].execute(props.world(), rp["plan"], root)["v"])
