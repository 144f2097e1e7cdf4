#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; its behaviours replayed into the real code"
NOTE = {
 "default": "TLC enumerates the specification's cases within the bounds named in DESIGN.md, checks the specification's "
            "own theorems on each, and each is replayed through the public API; nothing is claimed beyond those bounds.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
have = [i for i in ids if os.path.exists(os.path.join(H, "harness", "props", i.lower() + ".py"))]
notes = {}
p = os.path.join(H, "tools", "level_notes.json")
if os.path.exists(p):
    notes = json.load(open(p))
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "model_checking",
                 "level_note": notes.get(i, NOTE["default"])} for i in have],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in have],
     "notes": "No hooks: everything is observed through the public API. TLC needs only the pre-installed jar."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(have), "checks;", [i for i in ids if i not in have])
