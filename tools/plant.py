#!/usr/bin/env python3
"""Plant bugs: tools/plant.py <spec.py> [ids...]  - confirm each in a scratch copy (builds, stable tests pass, demo fails with / passes
without the change), store under seeded/, then run the property's check against it on the scratch copy (PYVC_REPO)."""
import json
import os
import shutil
import subprocess
import sys
import importlib.util

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\n. /opt/vp/env.sh\nPYTHONPATH="$PWD" exec python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=e, timeout=timeout)


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    pid = str(os.getpid())
    for b in m.BUGS:
        if want and b["id"] not in want:
            continue
        if not want and os.path.exists(os.path.join(ROOT, "seeded", b["id"], "meta.json")):
            continue
        w = "/tmp/plant_work_%d" % os.getpid()
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", w], check=True)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT does not match once (%d):" % s.count(old), f, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        for n, src in b.get("files", {}).items():
            shutil.copy(os.path.join(ROOT, src), os.path.join(d, n))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r0 = sh("bash %s/demo.sh" % d, "/repo")
        r1 = sh("bash %s/demo.sh" % d, w)
        if r0.returncode or not r1.returncode:
            print(b["id"], "DEMO bad: clean=%d bug=%d" % (r0.returncode, r1.returncode), r0.stderr[-600:], r1.stderr[-300:])
            shutil.rmtree(d)
            continue
        if "--notest" not in os.environ.get("PLANT", ""):
            t = sh((". /opt/vp/env.sh; export PYTHONPATH=%s; python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 --continue-on-collection-errors "
                   "--ignore=tests/loss_fn/test_mse_lpips_loss.py -o junit_family=xunit2 --junitxml=/tmp/plant_j_{pid}.xml tests projects/torch_vct/tests; "
                   "python /opt/vp/results.py /tmp/plant_t_{pid}.json junit:/tmp/plant_j_{pid}.xml".replace("{pid}", pid)) % w, w)
            res = json.load(open("/tmp/plant_t_%s.json" % pid))
            miss = [x for x in stable if x not in set(res["passed"])]
            if miss:
                print(b["id"], "TESTS catch it:", miss[:4])
                shutil.rmtree(d)
                continue
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        c = sh("python3 check.py %s" % b["prop"], ROOT, env={"PYVC_REPO": w})
        print(b["id"], "kept; check exit", c.returncode, "|", "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s" % b["prop"] in c.stdout else "MISSED",
              "|", c.stdout.strip().splitlines()[-2:] if c.stdout.strip() else c.stderr[-500:], flush=True)
    shutil.rmtree("/tmp/plant_work_%d" % os.getpid(), ignore_errors=True)


if __name__ == "__main__":
    main()
