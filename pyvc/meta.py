"""static description of a property's contracts (for the evidence file)"""
import importlib
import json
import os
import sys
import warnings

from . import REPO

warnings.filterwarnings("ignore")

TRUSTED = [
    "CPython 3.12 executing the unmodified code objects of /repo (no extraction, no translation)",
    "torch.nn.Module / torch.distributions Python layer (executed, not modelled)",
    "pyvc.tensor / pyvc.nnops: contracts assumed for torch primitive operations (cross-checked against real torch by pyvc.conformance)",
    "pyvc.axioms: instantiated facts of real analysis (exp, log, erf, tanh, sqrt, ...)",
    "z3 5.3.2, cvc5",
]
ASSUME = [
    "machine floating point and fixed-width integers are treated as mathematical reals/integers in the deductive run",
    "inputs are finite (no NaN/inf) and tensors do not alias each other unless the contract says so",
    "hyper-parameters written as Python constants in a contract (channel counts, numbers of scales, ...) are the configurations covered; sizes, contents and the declared integer/real parameters are universally quantified",
]


def main():
    prop, modname = sys.argv[1:3]
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    os.environ["PYVC_MODE"] = "meta"
    m = importlib.import_module("contracts." + modname)
    from . import api
    cs = api.REGISTRY.get(prop, [])
    out = {"contracts": [{"name": c.name, "funcs": c.funcs, "bounded": c.bounded, "notes": c.notes} for c in cs],
           "trusted": TRUSTED + sorted({a for c in cs for a in c.assumes}),
           "assumptions": ASSUME + list(getattr(m, "ASSUMPTIONS", {}).get(prop, []))
           + ["contract %s: %s" % (c.name, c.notes) for c in cs if c.notes]}
    print(json.dumps(out))


if __name__ == "__main__":
    main()
