#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json, os, sys
sys.path.insert(0, "/verif")
from catalog import PROPS, NOT_APPLICABLE
PROPS = [p for p in PROPS if not p.get('draft')]
TECH = "property-based testing: generated cases against an independent oracle, with shrinking and replay"
with open("/verif/properties.jsonl", "w") as f:
    for p in PROPS + NOT_APPLICABLE:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's headers and sources as they are", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": f"python3 run.py {p['id']} quick", "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p.get("technique", TECH), "level": "exploration",
        "level_note": p.get("level_note", "Every generated case agreed with the oracle, under AddressSanitizer; says nothing beyond the generated cases. ") + " Trusts: the oracle in harness/" + p["id"] + ".cpp, the engine in pbt/, the compiler. Counts of generated and non-trivial cases are in the evidence file.",
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "One harness per property; run.py rebuilds it from /repo's working tree. See DESIGN.md.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open("/verif/properties.jsonl"): jsonschema.validate(json.loads(line), s)
    print("schemas ok", len(PROPS))
except ImportError: print("no jsonschema; run with python3-vt")
for p in PROPS + NOT_APPLICABLE:
    for f in p["files"]:
        if not os.path.exists("/repo/" + f): print("missing file", p["id"], f)
