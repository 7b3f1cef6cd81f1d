#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props.py from tools/props_data.py (run by hand after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props_data import NA, PROPS, HOOKS  # noqa: E402

ROOT = os.path.dirname(HERE)
TECH = "contract-based deductive verification (pyvc: contracts on the real functions, obligations discharged by z3/cvc5)"


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS + [n["prop"] for n in NA if "prop" in n]:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    checks = []
    for p in PROPS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                       "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p.get("technique", TECH), "level": p.get("level", "proof"), "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
         "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NA],
         "notes": "No guarded hooks in /repo; only fix: commits (known_findings.txt). See DESIGN.md."}
    if HOOKS:
        m["hooks"] = HOOKS
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    with open(os.path.join(ROOT, "props.py"), "w") as f:
        f.write("# generated by tools/gen.py\nMODULES = {\n" + "".join("    %r: %r,\n" % (p["id"], p["module"]) for p in PROPS) + "}\n")
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for ln in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(ln), sch)
    print(len(PROPS), "properties")


if __name__ == "__main__":
    main()
