"""Regenerates MANIFEST.json from properties.jsonl and the drivers present."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read(), NOTES)
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "props", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": NOTES["TECH"].get(i, NOTES["TECH_DEFAULT"]),
            "level": "model_checking",
            "level_note": NOTES["LEVEL"].get(i, NOTES["LEVEL_DEFAULT"]),
        })
    else:
        na.append({"property": i, "reason": NOTES["NA"].get(i, "specification and conformance driver not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; conformance drivers in harness/props/. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
