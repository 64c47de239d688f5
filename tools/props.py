"""Writes properties.jsonl and MANIFEST.json from the table below.  python3 tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, technique=None, note=None, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, level=level, na=na))


SC = "src/compiler/"
exec(open(os.path.join(V, "tools", "proptable.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"]}}) + "\n")

checks, na = [], []
for p in P:
    if p["technique"] and os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "the check for this property is still being built"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import jsonschema
for line in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not claimed")
