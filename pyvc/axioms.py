"""Transcendental functions: uninterpreted symbols + instantiated axioms.

All of these are standard facts of real analysis (trusted, listed in the
evidence).  Functions that are definable from others are *defined*, not
axiomatised (erfc, log1p, expm1, sigmoid, ...).
"""
from .core import z3
from fractions import Fraction
from .core import CTX, rv, zr, conc, Unsupported, rdiv

R = z3.RealSort()
exp_f = z3.Function("exp", R, R)
log_f = z3.Function("log", R, R)
erf_f = z3.Function("erf", R, R)
erfinv_f = z3.Function("erfinv", R, R)
tanh_f = z3.Function("tanh", R, R)
atanh_f = z3.Function("atanh", R, R)
sqrt_f = z3.Function("sqrt", R, R)
sin_f = z3.Function("sin", R, R)
cos_f = z3.Function("cos", R, R)
atan2_f = z3.Function("atan2", R, R, R)
pow_f = z3.Function("pow", R, R, R)
UN = {f.name(): f for f in (exp_f, log_f, erf_f, erfinv_f, tanh_f, atanh_f, sqrt_f, sin_f, cos_f)}
NAMES = set(UN) | {"atan2", "pow"}
PI_LO, PI_HI = Fraction(31415926535, 10**10), Fraction(31415926536, 10**10)


def exp(x):
    if conc(z3.simplify(x)) == 0:
        return rv(1)
    return exp_f(x)


def log(x):
    if conc(z3.simplify(x)) == 1:
        return rv(0)
    return log_f(x)


def sqrt(x):
    c = conc(z3.simplify(x))
    if c is not None and c in (0, 1):
        return rv(c)
    return sqrt_f(x)


def pow_(a, b):
    """a**b for real a, b (b python number or term)"""
    if isinstance(b, z3.ExprRef):
        c = conc(z3.simplify(b))
    else:
        c = b
    if c is not None:
        c = Fraction(c)
        if c.denominator == 1 and abs(c) <= 8:
            n = int(c)
            r = rv(1)
            for _ in range(abs(n)):
                r = a if conc(r) == 1 else r * a
            return r if n >= 0 else rdiv(rv(1), r)
        if c == Fraction(1, 2):
            return sqrt(a)
        b = rv(c)
    return pow_f(a, b)


_walk_cache = {}


def collect(terms):
    out = {}
    for t in terms:
        i = t.get_id()
        hit = _walk_cache.get(i)
        if hit is None:
            if len(_walk_cache) > 20000:
                _walk_cache.clear()
            hit = _walk_cache[i] = (t, _collect1(t))     # the term is kept alive, so its id stays its own
        for n, d in hit[1].items():
            out.setdefault(n, {}).update(d)
    return out


def _collect1(t):
    seen = set()
    out = {}
    stack = [t]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            n = t.decl().name()
            if n in NAMES and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(n, {})[i] = t
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            stack.append(t.body())
    return out


def _linear(arg):
    """arg = sum c_i * t_i (+ constant) with integer c_i, or None"""
    arg = z3.simplify(arg)
    parts = arg.children() if z3.is_add(arg) else [arg]
    out, const = [], Fraction(0)
    for p in parts:
        c = conc(p)
        if c is not None:
            const += Fraction(c)
            continue
        coef = Fraction(1)
        t = p
        if z3.is_mul(p) and p.num_args() == 2 and conc(p.arg(0)) is not None:
            coef, t = Fraction(conc(p.arg(0))), p.arg(1)
        if coef.denominator != 1 or abs(coef) > 2:
            return None
        out.append((int(coef), t))
    return out, const


def _exp_log_rules(apps, ax):
    """exp(a+b) = exp(a)exp(b), exp(-a) = 1/exp(a), exp(log t) = t - as instances; returns new terms"""
    new = []
    done = apps.setdefault("_done", set())
    for i, t in list(apps.get("exp", {}).items()):
        if i in done:
            continue
        done.add(i)
        lin = _linear(t.arg(0))
        if lin is None:
            continue
        parts, const = lin
        if len(parts) + (const != 0) < 2 and not (len(parts) == 1 and parts[0][0] != 1):
            continue
        if len(parts) > 5:
            continue
        lhs, rhs = t, rv(1)
        for c, u in parts:
            e = exp_f(u)
            for _ in range(abs(c)):
                if c > 0:
                    rhs = rhs * e
                else:
                    lhs = lhs * e
        if const:
            rhs = rhs * exp_f(rv(const))
        f = lhs == rhs
        ax.append(f)
        new.append(f)
    for i, t in list(apps.get("log", {}).items()):
        if ("l", i) in done:
            continue
        done.add(("l", i))
        a = t.arg(0)
        f = z3.Implies(a > 0, exp_f(t) == a)
        ax.append(f)
        new.append(f)
    return new


def instances(terms, ctx):
    key = tuple(t.get_id() for t in terms)
    # (terms are kept alive by ctx / caller during the query)
    apps = collect(terms)
    if not apps:
        return []
    ax = []
    for rnd in range(3):
        new = _exp_log_rules(apps, ax)
        if not new:
            break
        more = collect(new)
        grew = False
        for n, d in more.items():
            for i, t in d.items():
                if i not in apps.setdefault(n, {}):
                    apps[n][i] = t
                    grew = True
        if not grew:
            break
    apps.pop("_done", None)
    g = lambda n: list(apps.get(n, {}).values())
    one, zero = rv(1), rv(0)
    for t in g("exp"):
        a = t.arg(0)
        ax += [t > 0, t >= a + 1, log_f(t) == a, z3.Implies(a >= 0, t >= 1), z3.Implies(a <= 0, t <= 1),
               z3.Implies(a > 0, t > 1), z3.Implies(a < 0, t < 1)]
    for t in g("log"):
        a = t.arg(0)
        ax += [z3.Implies(a > 0, z3.And(exp_f(t) == a, t <= a - 1)), z3.Implies(z3.And(a > 0, a <= 1), t <= 0),
               z3.Implies(a >= 1, t >= 0), z3.Implies(z3.And(a > 0, a < 1), t < 0), z3.Implies(a > 1, t > 0)]
    for t in g("erf"):
        a = t.arg(0)
        ax += [t > -1, t < 1, erf_f(-a) == -t, z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0),
               z3.Implies(a == 0, t == 0)]
    for t in g("tanh"):
        a = t.arg(0)
        ax += [t > -1, t < 1, tanh_f(-a) == -t, z3.Implies(a > 0, t > 0), z3.Implies(a < 0, t < 0),
               z3.Implies(a == 0, t == 0), atanh_f(t) == a]
    for t in g("atanh"):
        a = t.arg(0)
        ax += [z3.Implies(z3.And(a > -1, a < 1), tanh_f(t) == a), atanh_f(-a) == -t, z3.Implies(a == 0, t == 0)]
    for t in g("sqrt"):
        a = t.arg(0)
        ax += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)), z3.Implies(a > 0, t > 0)]
    for t in g("sin"):
        a = t.arg(0)
        ax += [t >= -1, t <= 1, t * t + cos_f(a) * cos_f(a) == 1, sin_f(-a) == -t]
    for t in g("cos"):
        a = t.arg(0)
        ax += [t >= -1, t <= 1, cos_f(-a) == t]
    for t in g("atan2"):
        y, x = t.arg(0), t.arg(1)
        ax += [t >= -rv(PI_HI), t <= rv(PI_HI), z3.Implies(y > 0, t > 0), z3.Implies(y < 0, t < 0)]
    for t in g("pow"):
        a, b = t.arg(0), t.arg(1)
        ax += [z3.Implies(a > 0, t > 0), z3.Implies(z3.And(a == 0, b > 0), t == 0), z3.Implies(a == 1, t == 1),
               z3.Implies(z3.And(a >= 0, a <= 1, b >= 0), z3.And(t >= 0, t <= 1))]
    for n in ("exp", "log", "erf", "tanh", "sqrt"):
        ts = g(n)
        if 2 <= len(ts) <= 10:
            for i in range(len(ts)):
                for j in range(i):
                    a, b = ts[i].arg(0), ts[j].arg(0)
                    pre = z3.And(a > 0, b > 0) if n == "log" else (z3.And(a >= 0, b >= 0) if n == "sqrt" else z3.BoolVal(True))
                    if n in ("erf", "tanh"):
                        k = rv(Fraction(11284, 10000))
                        d, e = ts[i] - ts[j], a - b
                        ax += [z3.Implies(e >= 0, d <= k * e), z3.Implies(e <= 0, -d <= -k * e)]
                        ax += [(a < -b) == (ts[i] < -ts[j]), (a == -b) == (ts[i] == -ts[j])]
                    ax.append(z3.Implies(pre, z3.And((a < b) == (ts[i] < ts[j]), (a == b) == (ts[i] == ts[j]))))
    return ax
