#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na_reason=None, level="proof"):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m} for n, m in state],
                     "observe_at": list(observe), "hook_needed": None}}
    props.append(p)
    if na_reason:
        na.append({"property": id, "reason": na_reason})
        return
    checks.append({"property": id, "quick_cmd": "./check.sh %s quick" % id, "thorough_cmd": "./check.sh %s thorough" % id,
        "technique": "contract-based deductive verification (symbolic execution of the real SSA against Go contracts, z3/cvc5)",
        "level": level, "level_note": note})

exec(open(os.path.join(root, "tools", "props.py")).read())

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, f, indent=1, ensure_ascii=False)
    f.write("\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p, s)
jsonschema.validate(json.load(open(os.path.join(root, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
