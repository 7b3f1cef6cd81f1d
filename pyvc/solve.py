"""Discharging obligations: z3 first, cvc5 as a second back end."""
import itertools
import os
import subprocess
import tempfile
import time
from .core import z3
from . import axioms
from .core import CTX, conc

CVC5_MS = 8000


def _fresh_check(ctx, conds, timeout):
    s = z3.Solver()
    s.set("timeout", int(timeout))
    for c in conds:
        s.add(c)
    t0 = time.time()
    r = s.check()
    ctx.solver_time += time.time() - t0
    ctx.queries += 1
    return r, s


def _cvc5(ctx, conds, timeout):
    s = z3.Solver()
    for c in conds:
        s.add(c)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[-1] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(f.name)
        ctx.solver_time += time.time() - t0


def consts_in(terms):
    seen, out = set(), {}
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.decl().name()] = t
        else:
            stack.extend(t.children())
    return out


def _apps_in(terms):
    """uninterpreted applications (arity > 0) by declaration"""
    seen, out = set(), {}
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(t.decl().name(), []).append(t)
            stack.extend(t.children())
    return out


def _solve_arg(pat, var_names, ground):
    """pattern argument against ground argument: (var, value) | True (no variable) | None (cannot be solved)"""
    vs = [n for n in consts_in([pat]) if n in var_names]
    if not vs:
        return True
    if len(vs) > 1:
        return None
    if z3.is_const(pat):
        return vs[0], ground
    if z3.is_add(pat):
        var, rest = None, []
        for c in pat.children():
            if z3.is_const(c) and c.decl().name() == vs[0]:
                if var is not None:
                    return None
                var = c
            else:
                rest.append(c)
        if var is None or any(vs[0] in consts_in([c]) for c in rest):
            return None
        return vs[0], z3.simplify(ground - z3.Sum(rest))
    return None


def _pattern(ctx, entry):
    """body of a universal fact over pattern variables and its usable trigger applications"""
    key = ("univpat", id(entry))
    hit = ctx.cache.get(key)
    if hit is not None:
        return hit
    dims, mk = entry
    vs = [z3.Int("p!%d!%d" % (len(ctx.cache), i)) for i in range(len(dims))]
    names = {v.decl().name() for v in vs}
    n0 = len(ctx.facts)
    body = mk(*vs)
    keep = []
    for f in ctx.facts[n0:]:
        if names & set(consts_in([f])):
            ctx.factset.discard(f.get_id())
        else:
            keep.append(f)
    if len(keep) != len(ctx.facts) - n0:
        ctx.facts[n0:] = keep
    trig = []
    for dn, apps in _apps_in([body]).items():
        for t in apps:
            cov = set()
            ok = True
            for c in t.children():
                r = _solve_arg(c, names, c)
                if r is None:
                    ok = False
                    break
                if r is not True:
                    cov.add(r[0])
            if ok and cov == names:
                trig.append((dn, t))
    hit = (vs, names, trig, entry)
    ctx.cache[key] = hit
    return hit


def _univ_instances(ctx, terms):
    """Instantiate recorded universal facts (reduction bounds etc.): at the index constants of the query and by matching
    the applications in the fact's body against those in the query."""
    out = []
    if not ctx.univ:
        return out
    import itertools
    done = set()
    for rnd in range(2):
        names = consts_in(terms)
        idx = [t for n, t in names.items() if n.startswith("k!") or n.startswith("w!") or "@" in n]
        apps = _apps_in(terms)
        new = []
        work = []
        for u, entry in enumerate(list(ctx.univ)):
            dims, mk = entry
            if not dims:
                if (u,) not in done:
                    done.add((u,))
                    new.append(mk())
                continue
            tups = []
            try:
                vs, pn, trig, _ = _pattern(ctx, entry)
            except Exception:
                trig = []
            for dn, pat in trig:
                for g in apps.get(dn, [])[:60]:
                    if g.num_args() != pat.num_args():
                        continue
                    sol = {}
                    bad = False
                    for pc, gc in zip(pat.children(), g.children()):
                        r = _solve_arg(pc, pn, gc)
                        if r is True:
                            continue
                        if r is None or (r[0] in sol and not sol[r[0]].eq(r[1])):
                            bad = True
                            break
                        sol[r[0]] = r[1]
                    if not bad:
                        tups.append(tuple(sol[v.decl().name()] for v in vs))
            work.append((0, u, dims, mk, tups))
            if rnd == 0 or not trig:
                cand = idx[-4:] if len(idx) ** len(dims) > 400 else idx
                work.append((1, u, dims, mk, list(itertools.product(*[cand for _ in dims]))))
        # matches of the fact's own terms first, blind instances as far as the budget goes
        for _, u, dims, mk, tups in sorted(work, key=lambda w: w[0]):
            for tup in tups:
                if len(done) > 700:
                    break
                key = (u,) + tuple(t.get_id() for t in tup)
                if key in done:
                    continue
                done.add(key)
                rng = z3.And(*[z3.And(t >= 0, t < d) for t, d in zip(tup, dims)])
                new.append(z3.Implies(rng, mk(*tup)))
                ctx.keep.append(tup)
        if not new:
            break
        out += new
        terms = list(terms) + new
    return out


def _sum_lemmas(ctx, terms, depth=0):
    """Congruence between reduction nodes: equal bounds and pointwise equal bodies => equal sums."""
    out = []
    if depth > 3:
        return out
    names = [n for n in consts_in(terms) if n in ctx.sums]
    nodes = [ctx.sums[n] for n in names]
    for n in nodes:
        out += n.lemmas(ctx)
    for i in range(len(nodes)):
        for j in range(i):
            a, b = nodes[i], nodes[j]
            if a.kind != b.kind or len(a.bounds) != len(b.bounds):
                continue
            key = (a.const.get_id(), b.const.get_id(), len(ctx.path))
            if key not in ctx.cong_done:
                ctx.cong_done[key] = False
                n = len(a.bounds)
                perms = [p for p in itertools.permutations(range(n)) if all(a.bounds[x].eq(b.bounds[y]) for x, y in enumerate(p))][:6] \
                    if n <= 5 else []
                if not perms and all(ctx.valid(x == y) for x, y in zip(a.bounds, b.bounds)):
                    perms = [tuple(range(n))]
                for p in perms:
                    ks = [ctx.new("k") for _ in a.bounds]
                    rng = [z3.And(k >= 0, k < d) for k, d in zip(ks, a.bounds)]
                    qs = [None] * n
                    for x, y in enumerate(p):
                        qs[y] = ks[x]
                    with ctx.under(rng):
                        ba, bb = a.mk(ks), b.mk(qs)
                    st, _, _ = prove(ctx, z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), ba == bb), depth + 1, timeout=4000)
                    if st == "discharged":
                        ctx.cong_done[key] = True
                        break
            if ctx.cong_done[key]:
                out.append(a.const == b.const)
    return out


def relevant(path_facts, goal):
    return path_facts


def prove(ctx, goal, depth=0, timeout=None):
    timeout = timeout or ctx.timeout_ms
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return "discharged", "z3-simplify", None
    base = list(ctx.path) + list(ctx.facts)
    neg = z3.Not(goal)
    # cheap attempt
    terms = base + [neg]
    ax = axioms.instances(terms, ctx)
    uni = _univ_instances(ctx, terms)
    r, s = _fresh_check(ctx, base + ax + uni + [neg], timeout)
    if r == z3.unsat:
        return "discharged", "z3", None
    base = list(ctx.path) + list(ctx.facts)
    lem = _sum_lemmas(ctx, [goal], depth)
    if lem:
        base = list(ctx.path) + list(ctx.facts)
        uni = _univ_instances(ctx, base + [neg] + lem)
        ax = axioms.instances(base + lem + uni + [neg], ctx)
        r, s = _fresh_check(ctx, base + ax + uni + lem + [neg], timeout)
        if r == z3.unsat:
            return "discharged", "z3", None
    if r == z3.sat:
        # a counter-model is definite only when the query contains no term that is merely axiomatised
        complete = not (uni or lem or ax or ctx.univ) and not any(n in ctx.sums for n in consts_in(base + [neg]))
        return ("refuted" if complete else "unknown"), "z3", s.model()
    if depth == 0:
        c = _cvc5(ctx, base + ax + uni + lem + [neg], CVC5_MS)
        if c == "unsat":
            return "discharged", "cvc5", None
    return "unknown", "z3+cvc5", None
