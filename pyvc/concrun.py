"""Concrete run of one property's contracts on the real code with the real torch."""
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import REPO

warnings.filterwarnings("ignore")


PER_RUN_S = 75


class _Late(BaseException):
    pass


def _contract_out_of_date(e, tb):
    """raised by the contract's own use of internal names or signatures that are gone (a refactoring), not by the code under contract"""
    if isinstance(e, (AttributeError, ImportError, NameError)):
        return True
    if isinstance(e, TypeError):
        return any(k in str(e) for k in ("unexpected keyword argument", "positional argument", "required keyword-only", "multiple values for argument"))
    if isinstance(e, KeyError):
        return bool(tb) and any(k in (tb[-1].line or "") for k in ("_buffers", "_parameters", "_modules", ".pop(", "del "))
    return False


def run_one(con, forced, tensors, seed):
    """returns None or dict(name, detail, input)"""
    from . import api
    import torch
    rng = random.Random(seed)
    torch.manual_seed(seed & 0x7fffffff)
    v = api.ConcV(forced, rng, tensors)

    def late(*a):
        raise _Late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, PER_RUN_S)
    try:
        con.fn(v)
        return ("ok", v.nensure, v.drawn)
    except _Late:
        return ("violation", {"obligation": "terminates", "detail": "no result within %d s" % PER_RUN_S, "inputs": v.drawn, "forced": forced,
                              "seed": seed}, v.drawn)
    except api.Reject:
        return ("reject", 0, None)
    except api.Inconclusive as e:
        return ("inconclusive", str(e), None)
    except api.ContractViolation as e:
        return ("violation", {"obligation": e.name, "detail": str(e.detail), "inputs": v.drawn, "forced": forced,
                              "seed": seed}, v.drawn)
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError:
        return ("reject", 0, None)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(REPO + "/" in (fr.filename or "") for fr in tb)
        if not inrepo and _contract_out_of_date(e, tb):
            return ("inconclusive", "%s: %s" % (type(e).__name__, e), None)
        return ("violation", {"obligation": "no-exception", "detail": "%s: %s" % (type(e).__name__, str(e)[:400]),
                              "inputs": v.drawn, "forced": forced, "seed": seed, "in_repo_frames": inrepo,
                              "trace": "".join(traceback.format_exception(e))[-2500:]}, v.drawn)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


NOW = mp.get_context("fork").Value("i", 0)


def _child(job, path, now):
    global NOW
    NOW = now
    try:
        r = work(job)
    except BaseException as e:
        r = {"error": "%s %s" % (type(e).__name__, e)}
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=str)
    os.replace(path + ".tmp", path)
    os._exit(0)


def run_all(jobs, names, nproc, limit):
    """one process per contract: a crash of the code under contract ends only its own contract, and is a violation"""
    import tempfile
    ctx = mp.get_context("fork")
    res = [None] * len(jobs)
    t_end = time.time() + limit
    with tempfile.TemporaryDirectory(prefix="pyvc_c_") as td:
        todo, live = list(range(len(jobs))), {}
        while todo or live:
            while todo and len(live) < nproc:
                k = todo.pop(0)
                now = ctx.Value("i", 0)
                p = ctx.Process(target=_child, args=(jobs[k], os.path.join(td, str(k)), now))
                p.start()
                live[k] = (p, now)
            for k, (p, now) in list(live.items()):
                late = time.time() > t_end
                if p.is_alive() and not late:
                    continue
                p.join(0) if not late else (p.kill(), p.join(5))
                del live[k]
                base = {"name": names[k], "evaluations": 0, "rejected": 0, "distinct": 0, "violation": None, "ensures": 0, "samples": []}
                f = os.path.join(td, str(k))
                if os.path.exists(f):
                    base.update(json.load(open(f)))
                elif late:
                    base["error"] = "time limit"
                elif p.exitcode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL):
                    i = now.value - 1
                    base["violation"] = {"obligation": "does-not-crash", "detail": "the process died with signal %d" % -p.exitcode, "inputs": {},
                                         "forced": {}, "tensors": {}, "seed": jobs[k][4] * 1000003 + 7919 * max(i, 0) + 17, "why": "random input"}
                else:
                    base["error"] = "worker ended with %r" % p.exitcode
                res[k] = base
            time.sleep(0.02)
    return res


def work(args):
    prop, idx, cands, runs, seed, tmax = args
    from . import api
    con = api.REGISTRY[prop][idx]
    t0 = time.time()
    out = {"name": con.name, "evaluations": 0, "rejected": 0, "distinct": 0, "violation": None, "ensures": 0, "samples": []}
    seen = set()

    def note(r, log):
        if r == "ok":
            out["evaluations"] += 1
            k = json.dumps(log, sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
                out["distinct"] += 1
                if len(out["samples"]) < 3:
                    out["samples"].append(log)
        elif r == "inconclusive":
            out["inconclusive"] = out.get("inconclusive", 0) + 1
        elif r == "reject":
            out["rejected"] += 1
    # replay candidates first
    for c in cands:
        if time.time() - t0 > tmax:
            break
        for rep in range(3):
            st, info, log = run_one(con, c.get("forced", {}), c.get("tensors", {}) if rep == 0 else {}, seed * 1000 + rep)
            if st == "ok":
                out["ensures"] += info
            note(st, log)
            if st == "violation":
                info["why"] = c.get("why")
                info["tensors"] = c.get("tensors", {}) if rep == 0 else {}
                out["violation"] = info
                return out
    i = 0
    NOW.value = 0
    while i < runs and time.time() - t0 < tmax:
        NOW.value = i + 1
        st, info, log = run_one(con, {}, {}, seed * 1000003 + 7919 * i + 17)
        note(st, log)
        if st == "ok":
            out["ensures"] += info
        if st == "violation":
            info["why"] = "random input"
            info["tensors"] = {}
            out["violation"] = info
            return out
        i += 1
    return out


def main():
    prop, modname, candfile, out = sys.argv[1:5]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    only = os.environ.get("PYVC_ONLY")
    sys.path.insert(0, REPO)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import torch
    torch.set_num_threads(1)
    os.environ["PYVC_MODE"] = "conc"
    importlib.import_module("contracts." + modname)
    from . import api
    cands = json.load(open(candfile)) if candfile != "-" else {}
    jobs = []
    for i, c in enumerate(api.REGISTRY.get(prop, [])):
        if only and only not in c.name:
            continue
        jobs.append((prop, i, cands.get(c.name, []), c.thorough_runs if thorough else c.runs, seed, 300 if thorough else 90))
    nproc = int(os.environ.get("PYVC_JOBS", "7"))
    res = run_all(jobs, [api.REGISTRY[prop][j[1]].name for j in jobs], max(1, min(nproc, len(jobs))), 2800 if thorough else 310)
    json.dump(res, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
