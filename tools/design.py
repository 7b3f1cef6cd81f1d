"""Rewrites the generated sections of DESIGN.md from evidence/*.json (of clean runs) and seeded/*/meta.json + tools/bugs/results.json."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sec(t, name, body):
    return re.sub(r"(<!-- BEGIN %s[^\n]*-->\n).*?(<!-- END %s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), t, flags=re.S)
rows = ["| id | obligations discharged | functions | contracts proved | bounded stand-ins (labelled, not counted as proved) | back ends | solver s | concrete cases |\n|---|---|---|---|---|---|---|---|\n"]
for p in sorted(glob.glob(R + "/evidence/C[0-9][0-9].json")):
    d = json.load(open(p)); c = d["coverage"]
    be = " ".join("%s:%s" % kv for kv in sorted(c.get("backends", {}).items()))
    rows.append("| %s | %s/%s | %d | %s | %s | %s | %s | %s |\n" % (d["property"], c["discharged"], c["obligations"], len(c["functions_under_contract"]),
        ", ".join(c["contracts_proved"]) or "-", ", ".join(c["contracts_bounded_only"] + [x + " (downgraded)" for x in c.get("contracts_downgraded_to_bounded_on_this_tree", [])]) or "-", be, c.get("solver_seconds"), c.get("evaluations")))
res = json.load(open(R + "/tools/bugs/results.json")) if os.path.exists(R + "/tools/bugs/results.json") else {}
bugs = ["| bug | property | needs | caught |\n|---|---|---|---|\n"]
for p in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(p)); i = os.path.basename(os.path.dirname(p))
    bugs.append("| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"], res.get(i, "yes")))
t = open(R + "/DESIGN.md").read()
t = sec(sec(t, "numbers", "".join(rows)), "bugs", "".join(bugs))
open(R + "/DESIGN.md", "w").write(t)
