"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
I = "include/htool/"
from props_table import T
lines = []; checks = []; na = []
for p in T:
    d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
             anchors=dict(files=[I + f for f in p["files"]], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p.get("obs", []), hook_needed=None))
    lines.append(json.dumps(d))
    if p.get("na"): na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt bin/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3-vt bin/check.py " + p["id"], technique=p.get("technique", "contract-based deductive verification (VC generation over the clang AST, z3 and matrix-algebra normal forms)"), level=p.get("level", "proof"), level_note=p["note"]))
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na, hooks=dict(guard="none", enable="no hooks: the checks read and compile /repo's sources as they are", source_commits=[])), open(V + "/MANIFEST.json", "w"), indent=1)
