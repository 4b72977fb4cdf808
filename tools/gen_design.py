#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the drivers' own descriptions, and tools/catches.json."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from design_notes import NOTES  # noqa: E402


def const(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("MC", "TRACE", "RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


props = [json.loads(x) for x in open(f"{V}/properties.jsonl")]
catches = json.load(open(f"{V}/tools/catches.json"))
md = [open(f"{V}/tools/design_head.md").read().rstrip(), ""]
for p in props:
    i = p["id"]
    c = const(f"{V}/harness/props/{i}.py")
    spec, oracle, why = NOTES[i]
    md += [f"### {i} {p['title']}", "",
           f"* **Specified** (`spec/{spec.split(':')[0]}.tla`, model `{c['MC'][0][0]}`, traces `{c['TRACE']}`):{spec.split(':', 1)[1]}",
           f"* **Explored and replayed**: {c['RULE']}",
           f"* **Oracle**: {oracle}",
           f"* **Bounds and assumptions**: {'; '.join(c['ASSUMPTIONS'])}.",
           f"* **Beyond the tests**: {why}"]
    mine = [(k, v) for k, v in sorted(catches.items()) if v["property"] == i]
    if mine:
        md.append("* **Planted bugs**: " + "; ".join(f"`{k}` ({v['result']})" for k, v in mine) + ".")
    md.append("")
md.append(open(f"{V}/tools/design_tail.md").read().rstrip())
open(f"{V}/DESIGN.md", "w").write("\n".join(md) + "\n")
