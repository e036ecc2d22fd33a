"write vp/constants.json: the constants of the pinned tree, see gen.mine"
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vp import gen
ints, strings, parts = gen.constants(sys.argv[1] if len(sys.argv) > 1 else "/repo")
with open(os.path.join(here, "vp", "constants.json"), "w") as f:
    json.dump(dict(ints=sorted(ints), strings=sorted(parts)), f, indent=0, sort_keys=True)
    f.write("\n")
