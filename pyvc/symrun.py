"""Deductive run of one property's contracts (own process, patched torch)."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

from . import REPO

warnings.filterwarnings("ignore")


def model_inputs(ctx, model, core):
    """concrete inputs out of a model of the current path"""
    z3 = core.z3
    forced, tens = {}, {}
    dims_env = {}
    for name, (kind, obj) in ctx.inputs.items():
        try:
            if kind == "int":
                forced[name] = model.eval(obj, model_completion=True).as_long()
            elif kind == "real":
                v = model.eval(obj, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(12)
                forced[name] = float(v.as_fraction())
            elif kind == "bool":
                forced[name] = bool(z3.is_true(model.eval(obj, model_completion=True)))
            elif kind == "choice":
                forced[name] = obj
        except Exception:
            pass
    for name, (kind, obj) in ctx.inputs.items():
        if kind != "tensor":
            continue
        t, dims, lo, hi = obj
        try:
            sizes = []
            for d in dims:
                sizes.append(d if isinstance(d, int) else model.eval(d, model_completion=True).as_long())
            live = [i for i, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]
            f = None
            for d in model.decls():
                if d.name() == name:
                    f = d
            pts = []
            if f is not None:
                import itertools
                n = 1
                for s in sizes:
                    n *= s
                if n <= 3000:
                    for idx in itertools.product(*[range(s) for s in sizes]):
                        e = f(*[z3.IntVal(idx[i]) for i in live]) if live else f()
                        v = model.eval(e, model_completion=True)
                        if z3.is_algebraic_value(v):
                            v = v.approx(12)
                        if z3.is_bool(v):
                            pts.append([list(idx), bool(z3.is_true(v))])
                        elif z3.is_int_value(v):
                            pts.append([list(idx), v.as_long()])
                        else:
                            pts.append([list(idx), float(v.as_fraction())])
            if pts:
                tens[name] = pts
        except Exception:
            pass
    return {"forced": forced, "tensors": tens}


def small_model(ctx, core, extra=()):
    """a model of path (+extra) preferring small integers"""
    z3 = core.z3
    ints = [o for k, o in ctx.inputs.values() if k == "int"]
    from . import axioms, solve
    base = list(ctx.path) + list(ctx.facts) + list(extra)
    ax = axioms.instances(base, ctx)
    for b in (4, 10, 40, 200, None):
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*base)
        s.add(*ax)
        if b is not None:
            s.add(*[z3.And(i <= b, i >= -b) for i in ints])
        r = s.check()
        if r == z3.sat:
            return s.model()
        if b is None:
            return None
    return None


def run_contract(args):
    prop, idx, modname, budget_scale = args
    from . import core, api, patch
    from .core import CTX
    con = api.REGISTRY[prop][idx]
    res = {"name": con.name, "paths": 0, "obligations": [], "candidates": [], "status": "ok", "problems": [], "ensured_paths": 0,
           "opaque": False, "contracts_used": []}
    t0 = time.time()
    CTX.reset_run()
    CTX.deadline = t0 + con.budget * budget_scale

    cands = res["candidates"]

    def one():
        v = api.SymV()
        patch.inject(patch.repo_modules())
        n0 = len(CTX.obls)
        state = {"unsup": None}
        try:
            con.fn(v)
            if len(CTX.obls) > n0:
                if vacuous():
                    # assumptions of this path contradict each other: nothing it "proves" counts
                    del CTX.obls[n0:]
                    res["vacuous_paths"] = res.get("vacuous_paths", 0) + 1
                else:
                    res["ensured_paths"] += 1
        except core.PathEnd:
            raise
        except (core.Unsupported, core.Undecided) as e:
            res["problems"].append("%s: %s" % (type(e).__name__, e))
            res.setdefault("trace", traceback.format_exc()[-1500:])
            if isinstance(e, core.Undecided):
                _cand()
                raise
        except (KeyboardInterrupt, SystemExit, GeneratorExit):
            raise
        except api.Inconclusive as e:
            res["problems"].append("internal name gone: %s" % e)
        except BaseException as e:
            # the code (or the front end) raised: only a concrete replay can tell
            res["problems"].append("exception on a path: %s: %s" % (type(e).__name__, str(e)[:300]))
            res.setdefault("trace", traceback.format_exc()[-2500:])
        finally:
            res["opaque"] = res["opaque"] or CTX.opaque_used
            _collect(n0)
        _cand()

    def vacuous():
        from . import solve, axioms
        base = list(CTX.path) + list(CTX.facts)
        uni = solve._univ_instances(CTX, base)
        r, _ = solve._fresh_check(CTX, base + axioms.instances(base + uni, CTX) + uni, 2500)
        return r == core.z3.unsat

    def _collect(n0):
        for o in CTX.obls[n0:]:
            d = {"name": o.name, "status": o.status, "secs": round(o.secs, 4), "backend": o.backend}
            if o.detail:
                d["detail"] = str(o.detail)[:300]
            if o.status == "refuted" or o.model is not None:
                try:
                    if o.model is not None:
                        d["model"] = str(o.model)[:1500]
                        cands.append(dict(model_inputs(CTX, o.model, core), why="counter-model of " + o.name))
                except BaseException:
                    pass
            res["obligations"].append(d)

    seen = set()

    def _cand():
        if len(cands) > 300 or (CTX.deadline and time.time() > CTX.deadline):
            return
        try:
            m = small_model(CTX, core)
            if m is not None:
                c = model_inputs(CTX, m, core)
                key = json.dumps(c["forced"], sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    cands.append(dict(c, why="model of a path condition"))
        except BaseException:
            pass

    try:
        res["paths"] = core.explore(one, CTX, con.max_paths)
    except core.Undecided as e:
        res["problems"].append("Undecided: %s" % e)
    except BaseException as e:
        res["problems"].append("engine: %s: %s" % (type(e).__name__, e))
        res.setdefault("trace", traceback.format_exc()[-2500:])
    res["solver_s"] = round(CTX.solver_time, 3)
    res["queries"] = CTX.queries
    res["wall_s"] = round(time.time() - t0, 3)
    res["backends"] = CTX.backends
    res["contracts_used"] = sorted(CTX.used_contracts)
    return res


def main():
    prop, modname, out = sys.argv[1:4]
    scale = float(os.environ.get("PYVC_BUDGET", "1"))
    only = os.environ.get("PYVC_ONLY")
    sys.setrecursionlimit(20000)
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import patch, api
    import torch
    torch.set_num_threads(1)
    patch.install()
    os.environ["PYVC_MODE"] = "sym"
    cm = importlib.import_module("contracts." + modname)
    patch.preload(getattr(cm, "PRELOAD", []))
    patch.inject(patch.repo_modules())
    for m in patch.repo_modules():
        assert m.__file__.startswith(REPO + "/")
    cons = api.REGISTRY.get(prop, [])
    jobs = [(prop, i, modname, scale) for i, c in enumerate(cons) if not c.bounded and (not only or only in c.name)]
    nproc = int(os.environ.get("PYVC_JOBS", "7"))
    results = []
    if nproc <= 1 or len(jobs) <= 1:
        for j in jobs:
            results.append(run_contract(j))
    else:
        with mp.get_context("fork").Pool(min(nproc, len(jobs)), maxtasksperchild=1) as pool:
            pend = [(j, pool.apply_async(run_contract, (j,))) for j in jobs]
            for j, r in pend:
                con = cons[j[1]]
                try:
                    results.append(r.get(timeout=con.budget * scale + 120))
                except BaseException as e:
                    results.append({"name": con.name, "paths": 0, "obligations": [], "candidates": [], "status": "error",
                                    "problems": ["worker: %s %s" % (type(e).__name__, e)], "ensured_paths": 0, "solver_s": 0,
                                    "queries": 0, "wall_s": con.budget, "backends": {}, "opaque": False, "contracts_used": []})
            pool.terminate()
    with open(out, "w") as f:
        json.dump(results, f)


if __name__ == "__main__":
    main()
