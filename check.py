#!/usr/bin/env python3
"""check.py <PROPERTY>: decide one property on /repo's current working tree.

exit 0: every obligation discharged (or, where the front end cannot reach the
current code, the labelled bounded stand-in found nothing); exit 1 with a
VIOLATION line otherwise.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", LANG=e.get("LANG", "C.UTF-8"), HOME=e.get("HOME", "/root"))
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.pop("PYTHONPATH", None)
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e


def findings(prop):
    """known_findings.txt: lines 'finding: property=<id> contract=<name> obligation=<name> match=<substring> | <what fails>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln.startswith("finding:"):
                continue
            head, _, text = ln[len("finding:"):].partition("|")
            d = dict(x.split("=", 1) for x in head.split())
            if d.get("property") == prop:
                d["text"] = text.strip()
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    from props import MODULES
    modname = MODULES[prop]
    e = env()
    e["VERIF_TIER"] = tier
    if tier == "thorough":
        e["PYVC_BUDGET"] = e.get("PYVC_BUDGET", "3")
    sym, symerr, conc, concerr = [], None, [], None
    with tempfile.TemporaryDirectory(prefix="pyvc_") as td:
        so, co, cf = os.path.join(td, "s.json"), os.path.join(td, "c.json"), os.path.join(td, "cand.json")
        try:
            p = subprocess.run([PY, "-m", "pyvc.symrun", prop, modname, so], cwd=HERE, env=e, capture_output=True, text=True,
                               timeout=480 if tier == "quick" else 3000)
            if os.path.exists(so):
                sym = json.load(open(so))
            else:
                symerr = (p.stderr or p.stdout)[-3000:]
        except subprocess.TimeoutExpired:
            symerr = "deductive run timed out"
        json.dump({r["name"]: r["candidates"] for r in sym}, open(cf, "w"))
        try:
            p = subprocess.run([PY, "-m", "pyvc.concrun", prop, modname, cf, co], cwd=HERE, env=e, capture_output=True, text=True,
                               timeout=330 if tier == "quick" else 3000)
            if os.path.exists(co):
                conc = json.load(open(co))
            else:
                concerr = (p.stderr or p.stdout)[-3000:]
        except subprocess.TimeoutExpired:
            concerr = "concrete run timed out"
    # what is under contract
    meta = subprocess.run([PY, "-m", "pyvc.meta", prop, modname], cwd=HERE, env=e, capture_output=True, text=True)
    try:
        meta = json.loads(meta.stdout)
    except Exception:
        meta = {"contracts": [], "assumptions": [], "trusted": []}
    bounded_decl = {c["name"] for c in meta["contracts"] if c["bounded"]}

    kf = findings(prop)
    printed = set()

    def known(cname, oname, detail):
        for f in kf:
            if f.get("contract", cname) == cname and f.get("obligation", oname) == oname and f.get("match", "").replace("_", " ") in detail:
                if f["text"] not in printed:
                    printed.add(f["text"])
                    print("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
                return True
        return False

    violations = []
    cviol = {}
    for r in conc:
        vi = r.get("violation")
        if vi:
            if not known(r["name"], vi["obligation"], vi["detail"]):
                cviol[r["name"]] = vi
                violations.append({"contract": r["name"], "kind": "replayed", **vi})
    n_obl = n_dis = n_ref = n_unk = 0
    solver_s = 0.0
    backends = {}
    downgraded, proved, problems = [], [], {}
    for r in sym:
        refuted = [o for o in r["obligations"] if o["status"] == "refuted"]
        unknown = [o for o in r["obligations"] if o["status"] == "unknown"]
        n_obl += len(r["obligations"])
        n_dis += sum(o["status"] == "discharged" for o in r["obligations"])
        n_ref += len(refuted)
        n_unk += len(unknown)
        solver_s += r.get("solver_s", 0)
        for k, v in r.get("backends", {}).items():
            backends[k] = backends.get(k, 0) + v
        refuted = [o for o in refuted if not known(r["name"], o["name"], o.get("detail", ""))]
        if refuted and r.get("opaque") and r["name"] not in cviol:
            # the counter-model may owe its existence to an uninterpreted network layer; not reproduced => undecided
            r["problems"] = r["problems"] + ["counter-model over uninterpreted layers not reproduced: " + o["name"] for o in refuted[:2]]
        elif refuted and r["name"] not in cviol:
            violations.append({"contract": r["name"], "kind": "obligation", "obligation": refuted[0]["name"],
                               "detail": refuted[0].get("detail", ""), "verifier_output": refuted[:5]})
        if r["problems"] or unknown or not r["ensured_paths"]:
            downgraded.append(r["name"])
            problems[r["name"]] = (r["problems"][:3] + ["undischarged: " + o["name"] for o in unknown[:3]]
                                   + ([] if r["ensured_paths"] else ["no path reached a postcondition"]))
        elif not refuted:
            proved.append(r["name"])
    if symerr:
        downgraded = [c["name"] for c in meta["contracts"] if not c["bounded"]]
        problems["*"] = [symerr[-800:]]
    evals = sum(r["evaluations"] for r in conc)
    distinct = sum(r["distinct"] for r in conc)
    samples = [{"contract": r["name"], "input": s} for r in conc for s in r["samples"][:1]][:6]

    level = "proof" if (proved and not downgraded and not symerr) else "other"
    funcs = sorted({f for c in meta["contracts"] for f in c["funcs"]})
    ev = {
        "property": prop, "tier": tier, "seed": int(e["VERIF_SEED"]), "level": level,
        "coverage": {
            "obligations": n_obl, "discharged": n_dis, "refuted": n_ref, "unknown": n_unk,
            "checker_cmd": "%s -m pyvc.symrun %s %s OUT.json (cwd /verif)" % (PY, prop, modname),
            "trusted_base": meta["trusted"],
            "functions_under_contract": funcs,
            "contracts_proved": proved,
            "contracts_bounded_only": sorted(bounded_decl),
            "contracts_downgraded_to_bounded_on_this_tree": downgraded,
            "downgrade_reasons": problems,
            "paths_explored": sum(r["paths"] for r in sym),
            "backends": backends, "solver_seconds": round(solver_s, 2),
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "bounded stand-in / replay layer: each contract executed on concrete inputs (counter-models, one model per explored "
                    "path condition, then seeded random draws); a case counts when its preconditions hold, distinct by its drawn inputs",
            "samples": samples or [{"note": "no concrete sample"}],
            "explanation": "obligations are generated by executing the functions of /repo's working tree on symbolic inputs; "
                           "contracts listed as bounded are exercised only on the concrete inputs counted here",
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)

    if os.environ.get("PYVC_VERBOSE"):
        for r in sym:
            print("%-40s paths=%d obl=%d ref=%d unk=%d %.1fs %s" % (
                r["name"], r["paths"], len(r["obligations"]), sum(o["status"] == "refuted" for o in r["obligations"]),
                sum(o["status"] == "unknown" for o in r["obligations"]), r["wall_s"], r["problems"][:2]))
            for o in r["obligations"]:
                if o["status"] != "discharged":
                    print("     ", o["status"], o["name"], o.get("detail", ""), o.get("model", "")[:600].replace("\n", " "))
            if r["problems"]:
                print(r.get("trace", ""))
        for r in conc:
            print("conc %-36s ok=%d rej=%d viol=%s" % (r["name"], r["evaluations"], r["rejected"], r["violation"]), r.get("error", ""))
        if symerr:
            print("SYMERR", symerr)
        if concerr:
            print("CONCERR", concerr)

    if violations:
        rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
        json.dump({"property": prop, "violations": violations,
                   "how_to_replay": "%s -m pyvc.replay %s (cwd /verif) re-runs the recorded inputs on the code in /repo" % (PY, rp)},
                  open(rp, "w"), indent=1, default=str)
        for v in violations:
            print("%s: contract %s, obligation %s: %s" % (v["kind"], v["contract"], v["obligation"], str(v.get("detail"))[:300]))
        tail = "" if any(v["kind"] == "replayed" for v in violations) else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    if concerr or (not conc):
        print("check could not run: %s" % (concerr or "no concrete result"))
        if symerr or downgraded or not proved:
            return 2
    print("property=%s held: %d/%d obligations discharged, %d contracts proved, %d downgraded, %d bounded; %d concrete evaluations (%.1fs)" % (
        prop, n_dis, n_obl, len(proved), len(downgraded), len(bounded_decl), evals, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
