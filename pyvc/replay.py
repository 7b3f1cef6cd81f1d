"""python -m pyvc.replay <replay.json>: run the recorded inputs of a violation again on the code in /repo.

exit 1 when a recorded violation comes back, 0 when none does; obligations without a failing input are only printed."""
import importlib
import json
import os
import sys

from . import REPO


def main():
    rec = json.load(open(sys.argv[1]))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, REPO)
    sys.path.insert(0, here)
    import torch
    torch.set_num_threads(1)
    os.environ["PYVC_MODE"] = "conc"
    from props import MODULES
    importlib.import_module("contracts." + MODULES[rec["property"]])
    from . import api, concrun
    back = 0
    for v in rec["violations"]:
        print("contract %s, obligation %s" % (v["contract"], v["obligation"]))
        if v["kind"] != "replayed":
            print("  failed obligation without a failing input; verifier output:")
            print(json.dumps(v.get("verifier_output"), indent=1, default=str)[:4000])
            continue
        con = [c for c in api.REGISTRY[rec["property"]] if c.name == v["contract"]][0]
        st, info, drawn = concrun.run_one(con, v.get("forced") or {}, v.get("tensors") or {}, v["seed"])
        print("  inputs: %s" % json.dumps(drawn, default=str)[:2000])
        if st == "violation":
            back += 1
            print("  REPRODUCED %s: %s" % (info["obligation"], info["detail"]))
            print(info.get("trace", ""))
        else:
            print("  not reproduced (%s)" % st)
    return 1 if back else 0


if __name__ == "__main__":
    sys.exit(main())
