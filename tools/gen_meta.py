#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py (one source, so they stay in step)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
out, checks, na = [], [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    out.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
            "observe_at": p["observe"], "hook_needed": None}})
    if p.get("crate"):
        checks.append({"property": p["id"],
            "quick_cmd": f"./run.sh {p['crate']} {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['crate']} {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na + NOT_APPLICABLE,
      "notes": "Generated by tools/gen_meta.py from tools/props.py. No hooks in /repo: every check uses public interfaces. Each check replays with `.build/<crate>/debug/<crate> replay <file>`."}, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json")); ms = json.load(open("/root/.vp/MANIFEST.schema.json"))
    for o in out: jsonschema.validate(o, ps)
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))), ms)
    print("valid", len(out), "properties", len(checks), "checks")
except ImportError: print("jsonschema missing; not validated")
