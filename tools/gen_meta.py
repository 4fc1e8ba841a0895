import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from spec import PROPS
root = os.path.dirname(here)
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None),
        ), ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")):
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} --tier quick", thorough_cmd=f"./check.sh {p['id']} --tier thorough", evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration", level_note=p["note"]))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes="All checks run in the repository's own interpreter against /repo's working tree; nothing is compiled. See DESIGN.md.")
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
for p in PROPS:
    n = p["statement"].count(". ") + 1
    if n > 3: print(p["id"], "statement has", n, "sentences")
