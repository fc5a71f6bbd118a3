#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tools/props_*.py."""
import json, os, re, sys, importlib, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/tools")
P, NA = [], []
for f in sorted(os.listdir(f"{V}/tools")):
    m = re.match(r"(props_\w+)\.py$", f)
    if m:
        mod = importlib.import_module(m.group(1))
        P += mod.P
        NA += getattr(mod, "NA", [])
checks = json.load(open(f"{V}/checks.json"))
ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
na = {x["id"]: x["reason"] for x in NA}
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = len(re.findall(r"[.!?](?:\s|$)", x["statement"]))
    if n > 3: print("statement longer than 3 sentences:", x["id"], n)
    for f in x["files"]:
        if not os.path.exists(f"/repo/{f}"): print("no such file:", x["id"], f)
    assert (x["id"] in checks) != (x["id"] in na), x["id"]
for k in checks:
    assert k in ids, k
with open(f"{V}/properties.jsonl", "w") as o:
    for x in P:
        o.write(json.dumps(dict(id=x["id"], title=x["title"], statement=x["statement"],
            quantifier=dict(over=[o.replace(' ', '_') for o in x["over"]], text=x["text"]), why_tests_cant=x["why"],
            anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]], observe_at=x["observe"], hook_needed=None)),
            ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./run.py --setup",
    checks=[dict(property=x["id"], quick_cmd=f"./run.py {x['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.py {x['id']}",
        evidence_file=f"evidence/{x['id']}.json", technique="runtime monitoring: " + x["tech"], level=x["level"], level_note=x["note"]) for x in P if x["id"] in checks],
    not_applicable=[dict(property=k, reason=v) for k, v in na.items()])
hooks = f"{V}/tools/hooks.json"
if os.path.exists(hooks): m["hooks"] = json.load(open(hooks))
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
d = open(f"{V}/DESIGN.md").read() if os.path.exists(f"{V}/DESIGN.md") else "<!-- per property -->\n<!-- end -->\n"
out = []
for x in P:
    if x["id"] in checks:
        out.append(f"**{x['id']} {x['title']}.** {x['how']} *Holds:* {x['note']}. *Beyond tests:* {x['why']}\n")
    else:
        out.append(f"**{x['id']} {x['title']}.** Not decided: {na[x['id']]}\n")
d = re.sub(r"(<!-- per property -->\n).*?(<!-- end -->)", lambda k: k.group(1) + "\n".join(out) + k.group(2), d, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(d)
print(len(P), "properties,", len(m["checks"]), "checks")
