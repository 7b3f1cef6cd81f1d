#!/usr/bin/env python3
"""Runs the property's check against every planted bug on scratch copies; writes tools/bugs/results.json.  tools/recheck.py [ids]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAR = int(os.environ.get("MUT_PAR", "3"))
def one(i):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    w = "/tmp/mut_re_%s_%d" % (i, os.getpid()); ev = w + "_v"
    try:
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        subprocess.run(["git", "-C", w, "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)], check=True)
        c = subprocess.run(["python3", "check.py", m["property"]], cwd=ev, env=dict(os.environ, PYVC_REPO=w), capture_output=True, text=True, timeout=1500)
        v = "yes" if c.returncode == 1 else "NO (exit %d)" % c.returncode
        if "no-failing-input-found" in c.stdout: v += ", by obligation only"
        print("%-26s %s | %s" % (i, v, (c.stdout.strip().splitlines() or [c.stderr[-200:]])[0][:150]), flush=True)
        return i, v
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(ev, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
with ThreadPoolExecutor(PAR) as ex:
    r = dict(ex.map(one, ids))
p = ROOT + "/tools/bugs/results.json"
old = json.load(open(p)) if os.path.exists(p) else {}
old.update(r)
json.dump(dict(sorted(old.items())), open(p, "w"), indent=1)
