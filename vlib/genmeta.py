#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in props.py."""
import json
import os
import subprocess
import props

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(d) + "\n")

m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "CURRENT_VERIF_HOOKS", "enable": "-DCURRENT_VERIF_HOOKS (passed by vlib/runner.py to every harness build; no source hook was needed so far)",
              "source_commits": []},
    "checks": [],
    "not_applicable": props.NOT_APPLICABLE,
    "notes": props.NOTES,
}
for p in props.PROPS:
    if not p.get("claimed", True):
        continue
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 vlib/runner.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 vlib/runner.py %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": p.get("level", "exploration"),
        "level_note": p["level_note"],
    })
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
subprocess.run(["python3-vt", "-c", """
import json,jsonschema
s=json.load(open('/root/.vp/MANIFEST.schema.json'));jsonschema.validate(json.load(open('%s/MANIFEST.json')),s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('valid')
""" % (VERIF, VERIF)], check=True)
