#!/usr/bin/env python3
"""MANIFEST.json from checks.json, properties.jsonl and tools/na.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/checks.json"))
na = json.load(open(V + "/tools/na.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
nal = []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append({
            "property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py %s quick" % i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % i,
            "technique": c.get("technique", "contract-based deductive verification of the extracted real code (Verus/Z3)"),
            "level": c.get("level", "proof"),
            "level_note": c.get("note", "Every obligation of the functions under contract is discharged for all inputs on every run, or the check does not call it proved.")
                + " Assumes: " + "; ".join(c.get("assumptions", []) + ["the trusted base listed in the evidence"]) + ". "
                + "A bounded run of the same contracts on the real crate finds failing inputs and cross-checks the assumed contracts."})
    else:
        nal.append({"property": i, "reason": na.get(i, "no check yet")})
m = {"version": 1,
     "setup_cmd": "cd tools/vx && cargo build --offline --target-dir ../../target/vx && cd ../../native && cargo build --offline --target-dir ../target/native && cd ../kani && cargo build --offline --target-dir ../target/bits",
     "checks": checks, "not_applicable": nal,
     "notes": "No hooks: private items are reached by extracting their source text. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(nal), "n/a")
