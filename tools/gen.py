#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import registry as r

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(r.P + r.NOT_APPLICABLE, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p.get("observe", []), "hook_needed": None}
        if p.get("state"):
            a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in r.P:
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 checks/check.py {p['id']} quick",
                        "thorough_cmd": f"python3 checks/check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                        "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
for p in r.NOT_APPLICABLE:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import subprocess
S = "/opt/veriftools/pyvenv/bin/python"
code = '''import json,jsonschema
s=json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(json.load(open("%s/MANIFEST.json")),s)
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("%s/properties.jsonl"): jsonschema.validate(json.loads(l),s)
print("valid")''' % (V, V)
if os.path.exists(S):
    subprocess.run([S, "-c", code], check=True)
