#!/usr/bin/env python3
"""Mutation runs on scratch copies: tools/mutate.py <spec.py> [ids...].  MUT = [(id, prop, file, old, new)], one textual edit each.
Prints CAUGHT / CAUGHT-nfi / missed; never touches /repo."""
import importlib.util
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PAR = int(os.environ.get("MUT_PAR", "3"))


def one(args):
    mid, prop, edits = args
    w = "/tmp/mut_%s_%d" % (re.sub(r"\W", "_", mid), os.getpid())
    ev = w + "_v"
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(ev, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), w], check=True)
    subprocess.run(["rsync", "-a", "--exclude=.git", "--exclude=seeded", ROOT + "/", ev + "/"], check=False)
    if not os.path.exists(ev):
        shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) == 0:  # tolerate blank lines between the statements
                rx = r"\n(?:[ \t]*\n)*".join(re.escape(q) for q in re.sub(r"\n+", "\n", old).split("\n"))
                hits = re.findall(rx, s)
                old = hits[0] if len(hits) == 1 else old
            if s.count(old) != 1:
                return "%-28s %s EDIT matches %d times" % (mid, prop, s.count(old))
            open(p, "w").write(s.replace(old, new))
        t0 = time.time()
        e = dict(os.environ, PYVC_REPO=w, PYVC_JOBS=os.environ.get("PYVC_JOBS", "3"))
        out = []
        for pr in prop.split(","):
            c = subprocess.run(["python3", "check.py", pr], cwd=ev, env=e, capture_output=True, text=True, timeout=1500)
            v = "CAUGHT" if c.returncode == 1 else ("quiet" if c.returncode == 0 else "NOANSWER")
            if "no-failing-input-found" in c.stdout:
                v += "-nfi"
            lines = c.stdout.strip().splitlines()
            out.append("%-34s %s %s %4ds | %s" % (mid, pr, v, time.time() - t0, (lines[0][:170] if v.startswith("CAUGHT") else " ".join(lines[-1:])[:170]) if lines else c.stderr[-300:]))
        return "\n".join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(ev, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location("mut", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    jobs = []
    for t in m.MUT:
        mid, prop = t[0], t[1]
        edits = t[2] if isinstance(t[2], list) else [(t[2],) + tuple(e) for e in t[3]] if isinstance(t[3], list) else [tuple(t[2:5])]
        if len(sys.argv) > 2 and not any(a == mid or a == prop for a in sys.argv[2:]):
            continue
        jobs.append((mid, prop, edits))
    with ThreadPoolExecutor(PAR) as ex:
        for r in ex.map(one, jobs):
            print(r, flush=True)


if __name__ == "__main__":
    main()
