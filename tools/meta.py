#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. A property is claimed
once harness/props/<ID>_*.cpp exists; run after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
I = "include/phasar/"
P = []
def prop(id, title, statement, over, text, cant, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, cant=cant,
                  files=files, mech=mech, tech=tech, note=note, observe=observe or []))

exec(open("tools/props.py").read())

have = {f[:3] for f in os.listdir("harness/props")}
with open("properties.jsonl", "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["cant"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in have:
        checks.append({"property": p["id"],
                       "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
