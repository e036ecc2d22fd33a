"""writes MANIFEST.json from the check modules and properties.jsonl"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    res = {}
    with open(path) as f:
        for n in ast.parse(f.read()).body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                try:
                    res[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
    return res


checks, missing = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f]
for p in props:
    path = os.path.join(HERE, "vp", "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append(dict(property=p["id"], reason="the monitor for this property is not built yet"))
        continue
    c = consts(path)
    checks.append(dict(
        property=p["id"],
        quick_cmd="./run.sh %s --tier quick" % p["id"],
        thorough_cmd="./run.sh %s --tier thorough" % p["id"],
        technique=c["TECHNIQUE"],
        level=c["LEVEL"],
        level_note=c["NOTE"],
    ))
m = dict(version=1, setup_cmd="true",
         checks=checks, not_applicable=missing,
         notes="No hooks in /repo: all monitors attach from outside (audit events, wrapped backends, patched clocks "
               "and locks). Every check runs the code of /repo's working tree directly; there is nothing to build.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
