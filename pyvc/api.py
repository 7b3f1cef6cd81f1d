"""Contract interface.

A contract is one Python function `f(v)` that declares arbitrary inputs,
states preconditions, calls the real repository code and states
postconditions.  It has two readings of the same text:

* SymV  - deductive: inputs are arbitrary (symbolic), every `ensure` is an
          obligation for the SMT back end, all paths are covered;
* ConcV - executable: inputs are concrete (from a counter-model, from the
          model of a path condition, or drawn at random), used to replay
          counterexamples against the real code with the real torch, and as
          the labelled *bounded* stand-in.
"""
import math
import random
import itertools

from . import REPO

REGISTRY = {}


class Reject(BaseException):
    """precondition not met by this concrete input"""


class ContractViolation(BaseException):
    def __init__(self, name, detail):
        super().__init__("%s: %s" % (name, detail))
        self.name, self.detail = name, detail


class Contract:
    def __init__(self, prop, name, fn, funcs, bounded, runs, notes, raises_ok, budget, assumes, thorough_runs, max_paths, cat):
        self.prop, self.name, self.fn, self.funcs, self.bounded = prop, name, fn, funcs, bounded
        self.runs, self.notes, self.raises_ok, self.budget, self.assumes = runs, notes, raises_ok, budget, assumes
        self.thorough_runs = thorough_runs
        self.max_paths = max_paths
        self.cat = cat


def contract(prop, name, funcs=(), bounded=False, runs=60, notes="", raises_ok=(), budget=150, assumes=(), thorough_runs=None,
             max_paths=2000, cat="post"):
    def deco(fn):
        c = Contract(prop, name, fn, list(funcs), bounded, runs, notes, raises_ok, budget, list(assumes),
                     thorough_runs or runs * 10, max_paths, cat)
        REGISTRY.setdefault(prop, []).append(c)
        return fn
    return deco


class Inconclusive(BaseException):
    """an internal name the contract refers to is gone (refactoring)"""


def need(qualname):
    import importlib
    parts = qualname.split(".")
    for k in range(len(parts), 0, -1):
        try:
            m = importlib.import_module(".".join(parts[:k]))
        except ImportError:
            continue
        try:
            for a in parts[k:]:
                m = getattr(m, a)
            return m
        except AttributeError:
            break
    raise Inconclusive(qualname)


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class _Stub:
    """replace a function object in every /repo module that refers to it"""

    def __init__(self, target, fn):
        self.target, self.fn, self.saved = target, fn, []

    def __enter__(self):
        import sys
        for m in list(sys.modules.values()):
            f = getattr(m, "__file__", None)
            if not f or not f.startswith(REPO + "/"):
                continue
            for k, val in list(m.__dict__.items()):
                if val is self.target:
                    self.saved.append((m, k))
                    m.__dict__[k] = self.fn
        return self

    def __exit__(self, *a):
        for m, k in self.saved:
            m.__dict__[k] = self.target
        return False


# ===================================================================== concrete
class ConcV:
    sym = False

    def __init__(self, forced=None, rng=None, tensors=None):
        self.forced = forced or {}
        self.tensors = tensors or {}
        self.rng = rng or random.Random(0)
        self.drawn = {}
        self.nensure = 0

    # inputs ------------------------------------------------------------
    def int(self, name, lo=0, hi=None, span=12):
        if name in self.forced:
            r = int(self.forced[name])
            if (lo is not None and r < lo) or (hi is not None and r > hi):
                raise Reject()
        else:
            h = hi if hi is not None else lo + span
            h = min(h, lo + span) if self.rng.random() < 0.8 or hi is None else h
            r = self.rng.randint(lo, h)
        self.drawn[name] = r
        return r

    def real(self, name, lo=None, hi=None, span=10.0):
        if name in self.forced:
            r = float(self.forced[name])
            if (lo is not None and r < lo) or (hi is not None and r > hi):
                raise Reject()
        else:
            a = lo if lo is not None else -span
            b = hi if hi is not None else max(a, 0) + span
            r = self.rng.choice([a, b, self.rng.uniform(a, b), self.rng.uniform(a, b), self.rng.uniform(a, min(b, a + 1))])
        self.drawn[name] = r
        return r

    def bool(self, name):
        r = bool(self.forced[name]) if name in self.forced else self.rng.random() < 0.5
        self.drawn[name] = r
        return r

    def choose(self, name, options):
        options = list(options)
        if name in self.forced:
            i = int(self.forced[name])
            if i >= len(options):
                raise Reject()
        else:
            i = self.rng.randrange(len(options))
        self.drawn[name] = i
        return options[i]

    def tensor(self, name, shape, lo=None, hi=None, dtype=None, style=None, lo_strict=False, wide=None, sym=None):
        """wide: a wider range some concrete draws use; the symbolic value is then unbounded (or within `sym`)"""
        import torch
        if wide is not None and (name in self.tensors or self.rng.random() < 0.35):
            lo, hi = wide
        dtype = dtype or torch.float64
        shape = tuple(int(s) for s in shape)
        n = 1
        for s in shape:
            n *= s
        if n > 4_000_000:
            raise Reject()
        g = torch.Generator().manual_seed(self.rng.randrange(2**31))
        if dtype == torch.bool:
            t = torch.rand(shape, generator=g) < 0.5
        elif not dtype.is_floating_point:
            a = lo if lo is not None else (0 if dtype == torch.uint8 else -8)
            b = hi if hi is not None else (255 if dtype == torch.uint8 else 8)
            t = torch.randint(int(a), int(b) + 1, shape, generator=g).to(dtype)
        else:
            st = style or self.rng.choice(["u", "u", "n", "half", "ext", "big", "const"])
            a = -3.0 if lo is None else float(lo)
            b = (max(a, 0.0) + 3.0) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = min(a, b - 3.0)
            if b - a > 40 and self.rng.random() < 0.6:
                # wide declared range: most draws stay near its small-magnitude part
                w = self.rng.choice([3.0, 3.0, 60.0, 1000.0])
                c = min(max(0.0, a), b)
                a, b = max(a, c - w), min(b, c + w)
            if st == "big" and lo is None:
                a *= 20
            if st == "big" and hi is None:
                b *= 20
            u = torch.rand(shape, generator=g, dtype=torch.float64)
            t = a + (b - a) * u
            if st == "n" and lo is None and hi is None:
                t = torch.randn(shape, generator=g, dtype=torch.float64)
            elif st == "half":
                t = (torch.round(t * 2) / 2).clamp(a, b)
            elif st == "ext":
                m = torch.rand(shape, generator=g)
                t = torch.where(m < 0.3, torch.full_like(t, a), torch.where(m > 0.7, torch.full_like(t, b), t))
            elif lo is not None and lo > 0 and hi is not None and hi / lo > 1e4 and self.rng.random() < 0.4:
                t = torch.exp(math.log(a) + (math.log(b) - math.log(a)) * u) if a > 0 else t
            elif st == "const" and n:
                t = torch.full_like(t, float(t.reshape(-1)[0]))
            if lo_strict:
                t = torch.where(t <= lo, torch.full_like(t, lo + (b - a) * 1e-3 + 1e-6), t)
            t = t.to(dtype)
        if name in self.tensors:
            pts = self.tensors[name]
            for idx, val in pts:
                try:
                    if dtype.is_floating_point:
                        if lo is not None:
                            val = max(val, lo)
                        if hi is not None:
                            val = min(val, hi)
                    t[tuple(idx)] = val
                except Exception:
                    pass
        self.drawn[name] = {"shape": list(shape), "dtype": str(dtype)}
        return t

    def build(self, shape, fn, dtype=None):
        import torch
        t = torch.zeros(tuple(int(x) for x in shape), dtype=dtype or torch.float64)
        for idx in itertools.product(*[range(int(x)) for x in shape]):
            t[idx] = fn(*idx)
        return t

    def stub(self, qualname, fn):
        return _Null()

    def need(self, qualname):
        return need(qualname)

    def index(self, name, n):
        n = int(n)
        if n <= 0:
            raise Reject()
        r = self.forced.get(name)
        r = int(r) if r is not None and 0 <= int(r) < n else self.rng.randrange(n)
        self.drawn[name] = r
        return r

    # conditions ----------------------------------------------------------
    def require(self, c):
        if not bool(c):
            raise Reject()

    def ensure(self, name, c, detail=None):
        self.nensure += 1
        if not bool(c):
            raise ContractViolation(name, detail() if callable(detail) else detail)

    def fail(self, name, detail=None):
        raise ContractViolation(name, detail)

    def close(self, a, b, tol=1e-6):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(b))

    def ensure_close(self, name, a, b, tol=1e-6):
        self.nensure += 1
        if not self.close(a, b, tol):
            raise ContractViolation(name, "got %r, contract says %r" % (float(a), float(b)))

    def ensure_shape(self, name, t, dims):
        self.nensure += 1
        if list(int(x) for x in t.shape) != [int(d) for d in dims]:
            raise ContractViolation(name, "shape %s, contract says %s" % (list(t.shape), [int(d) for d in dims]))

    def _indices(self, shape, cap=220):
        n = 1
        for s in shape:
            n *= s
        if n <= cap:
            return list(itertools.product(*[range(s) for s in shape]))
        out = set()
        for c in itertools.islice(itertools.product(*[sorted({0, s - 1}) for s in shape]), 32):
            out.add(c)
        for _ in range(cap):
            out.add(tuple(self.rng.randrange(s) for s in shape))
        return list(out)

    def ensure_elems(self, name, t, f, tol=1e-6, cap=220):
        self.nensure += 1
        for idx in self._indices([int(s) for s in t.shape], cap):
            got = t[idx].item()
            want = f(*idx)
            if hasattr(want, "item"):
                want = want.item()
            if isinstance(got, bool) or isinstance(want, bool):
                ok = bool(got) == bool(want)
            else:
                ok = self.close(got, want, tol)
            if not ok:
                raise ContractViolation(name, "element %s is %r, contract says %r" % (list(idx), got, want))

    def forall_elems(self, name, t, pred, cap=220):
        self.nensure += 1
        for idx in self._indices([int(s) for s in t.shape], cap):
            x = t[idx].item()
            if not bool(pred(x, *idx)):
                raise ContractViolation(name, "element %s = %r breaks the contract" % (list(idx), x))

    def forall(self, name, bounds, pred, cap=220):
        self.nensure += 1
        for idx in self._indices([int(b) for b in bounds], cap):
            if not bool(pred(*idx)):
                raise ContractViolation(name, "at index %s" % (list(idx),))

    def vjp(self, f, x, g):
        """gradient of <g, f(x)> at x as the autograd engine reports it"""
        import torch
        xx = x.detach().clone().requires_grad_(True)
        y = f(xx)
        return y.detach(), torch.autograd.grad(y, xx, g.to(y.dtype))[0]

    def raises(self, name, exc, thunk):
        self.nensure += 1
        try:
            thunk()
        except exc:
            return
        except Exception as e:
            raise ContractViolation(name, "raised %s instead of %s" % (type(e).__name__, exc))
        raise ContractViolation(name, "did not raise %s" % (exc,))

    # spec vocabulary --------------------------------------------------------
    def ints(self, text):
        import re
        return [int(x) for x in re.findall(r"\d+", text)], re.sub(r"\d+", "#", text)

    def at(self, t, *idx):
        import torch
        return t[tuple(int(i) for i in idx)].item() if isinstance(t, torch.Tensor) else t

    def If(self, c, a, b):
        return (a() if callable(a) else a) if bool(c) else (b() if callable(b) else b)

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b() if callable(b) else b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def abs(self, a):
        return abs(a)

    def floor(self, a):
        return math.floor(a)

    def round(self, a):
        return round(a)

    def trunc(self, a):
        return math.trunc(a)

    def exp(self, a):
        try:
            return math.exp(a)
        except OverflowError:
            return math.inf

    def log(self, a):
        return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)

    def sqrt(self, a):
        return math.sqrt(a) if a >= 0 else math.nan

    def erf(self, a):
        return math.erf(a)

    def tanh(self, a):
        return math.tanh(a)

    def pow(self, a, b):
        return a ** b

    def sum(self, bounds, f):
        r = 0
        for idx in itertools.product(*[range(int(b)) for b in bounds]):
            r = r + f(*idx)
        return r

    def to_real(self, a):
        return float(a)

    def split(self, k, dims):
        """row-major coordinates of flat index k"""
        out = []
        for d in reversed(dims):
            out.append(k % int(d))
            k //= int(d)
        return out[::-1]


# ===================================================================== symbolic
class SymV:
    sym = True

    def __init__(self, prefix=""):
        from . import core
        self.c = core
        self.prefix = prefix

    def _reg(self, name, kind, obj):
        self.c.CTX.inputs[name] = (kind, obj)

    def int(self, name, lo=0, hi=None, span=12):
        c = self.c
        e = c.z3.Int(name)
        if lo is not None:
            c.CTX.path.append(e >= c.zi(lo))
        if hi is not None:
            c.CTX.path.append(e <= c.zi(hi))
        self._reg(name, "int", e)
        return c.wrap(e)

    def real(self, name, lo=None, hi=None, span=None):
        c = self.c
        e = c.z3.Real(name)
        if lo is not None:
            c.CTX.path.append(e >= c.zr(lo))
        if hi is not None:
            c.CTX.path.append(e <= c.zr(hi))
        self._reg(name, "real", e)
        return c.SymReal(e)

    def bool(self, name):
        c = self.c
        e = c.z3.Bool(name)
        self._reg(name, "bool", e)
        return c.SymBool(e)

    def choose(self, name, options):
        options = list(options)
        i = self.c.CTX.choose(len(options))
        self._reg(name, "choice", i)
        return options[i]

    def tensor(self, name, shape, lo=None, hi=None, dtype=None, style=None, lo_strict=False, wide=None, sym=None):
        import torch
        if wide is not None:
            lo, hi = sym if sym is not None else (None, None)
        from .tensor import fresh_tensor, dsimp
        dtype = dtype or torch.float64
        t = fresh_tensor(name, shape, dtype, lo, hi, lo_strict)
        self._reg(name, "tensor", (t, [dsimp(s) for s in shape], lo, hi))
        return t

    def build(self, shape, fn, dtype=None):
        import torch
        from .tensor import from_fn, cast, kind_of
        c = self.c
        dt = dtype or torch.float64
        k = kind_of(dt)
        return from_fn([c.zi(x) for x in shape], lambda *idx: cast(self._z(fn(*[c.wrap(i) for i in idx])), k), dt)

    def stub(self, qualname, fn):
        """modular step: calls to `qualname` are replaced by its contract"""
        self.c.CTX.used_contracts.add(qualname)
        return _Stub(need(qualname), fn)

    def need(self, qualname):
        return need(qualname)

    def index(self, name, n):
        c = self.c
        e = c.CTX.new("k")
        c.CTX.path.append(e >= 0)
        c.CTX.path.append(e < c.zi(n))
        self._reg(name, "int", e)
        return c.wrap(e)

    def require(self, cond):
        c = self.c
        e = c.zb(cond)
        c.CTX.path.append(e)
        if c.z3.is_false(c.z3.simplify(e)) or c.CTX.check(timeout=3000) == c.z3.unsat:
            raise c.PathEnd()

    def ensure(self, name, cond, detail=None):
        return self.c.CTX.prove(name, self.c.zb(cond))

    def fail(self, name, detail=None):
        self.c.CTX.prove(name, self.c.z3.BoolVal(False), detail)

    def close(self, a, b, tol=1e-6):
        z = self.c.zr
        a, b = z(a), z(b)
        z3 = self.c.z3
        d = a - b
        bb = z3.If(b >= 0, b, -b)
        t = self.c.rv(tol)
        return self.c.SymBool(z3.And(d <= t * (1 + bb), -d <= t * (1 + bb)))

    def _prove_eq(self, name, a, b, tol, pre=None):
        c = self.c
        z3 = c.z3
        from . import solve
        import time
        t0 = time.time()
        if z3.is_bool(a) or z3.is_bool(b):
            goal = c.to_bool(a) == c.to_bool(b)
            tol = 0
        elif a.is_int() and b.is_int():
            goal = a == b
            tol = 0
        else:
            a, b = c.to_real(a), c.to_real(b)
            goal = a == b
        if pre is not None:
            goal = z3.Implies(pre, goal)
        st, be, m = solve.prove(c.CTX, goal)
        if st != "discharged" and tol:
            g2 = c.zb(self.close(c.SymReal(a), c.SymReal(b), tol))
            if pre is not None:
                g2 = z3.Implies(pre, g2)
            st2, be2, m2 = solve.prove(c.CTX, g2)
            if st2 == "discharged" or st == "unknown" or st2 == "refuted":
                st, be, m = st2, be2, m2
        c.CTX.record(name, st, t0, be, m)
        return st

    def ensure_close(self, name, a, b, tol=1e-6):
        return self._prove_eq(name, self._z(a), self._z(b), tol)

    def _z(self, x):
        c = self.c
        if c.z3.is_expr(x):
            return x
        if isinstance(x, bool) or isinstance(x, c.SymBool):
            return c.zb(x)
        if isinstance(x, int) or isinstance(x, c.SymInt):
            return c.zi(x)
        if hasattr(x, "_sym_scalar"):
            return self._z(x._sym_scalar())
        return c.zr(x)

    def ensure_shape(self, name, t, dims):
        from .tensor import lift
        c = self.c
        t = lift(t)
        if t.ndim != len(dims):
            c.CTX.prove(name, c.z3.BoolVal(False), "rank %d, contract says %d" % (t.ndim, len(dims)))
            return
        c.CTX.prove(name, c.z3.And(*[c.zi(a) == c.zi(b) for a, b in zip(t.shape, dims)]) if dims else c.z3.BoolVal(True))

    def _skolem(self, t):
        from .tensor import dz, join_index, group_slices
        c = self.c
        ks = [c.CTX.new("k") for _ in t.phys]
        rng = [c.z3.And(k >= 0, k < dz(d)) for k, d in zip(ks, t.phys)]
        idx = []
        for (a, b), g in zip(group_slices(t._groups), t._groups):
            idx.append(c.wrap(join_index(ks[a:b], g)) if b > a else 0)
        return ks, c.z3.And(*rng) if rng else c.z3.BoolVal(True), idx

    def ensure_elems(self, name, t, f, tol=1e-6, cap=None):
        from .tensor import lift
        t = lift(t)
        c = self.c
        ks, rng, idx = self._skolem(t)
        n0 = len(c.CTX.path)
        c.CTX.path.append(rng)
        if c.CTX.check(timeout=2000) == c.z3.unsat:
            raise c.PathEnd()
        got = t._fn(ks)
        want = self._z(f(*idx))
        return self._prove_eq(name, got, want, tol)

    def forall_elems(self, name, t, pred, cap=None):
        from .tensor import lift
        t = lift(t)
        c = self.c
        ks, rng, idx = self._skolem(t)
        c.CTX.path.append(rng)
        return c.CTX.prove(name, c.zb(pred(c.wrap(t._fn(ks)), *idx)))

    def forall(self, name, bounds, pred, cap=None):
        c = self.c
        ks = [c.CTX.new("k") for _ in bounds]
        for k, b in zip(ks, bounds):
            c.CTX.path.append(c.z3.And(k >= 0, k < c.zi(b)))
        return c.CTX.prove(name, c.zb(pred(*[c.wrap(k) for k in ks])))

    def vjp(self, f, x, g):
        """the real custom Function's backward, run on the saved context of its real forward"""
        y = f(x)
        h = getattr(y, "_history", None)
        if h is None:
            raise self.c.Unsupported("no custom autograd function on the result")
        cls, ctx, args = h
        pos = [i for i, a in enumerate(args) if a is x]
        if not pos:
            raise self.c.Unsupported("input is not a direct argument of the custom function")
        r = cls.backward(ctx, g)
        r = r if isinstance(r, tuple) else (r,)
        if len(r) < len(args):
            raise RuntimeError("function %s returned an incorrect number of gradients (expected %d, got %d)" % (cls.__name__, len(args), len(r)))
        return y, r[pos[0]]

    def raises(self, name, exc, thunk):
        c = self.c
        try:
            thunk()
        except exc:
            c.CTX.prove(name, c.z3.BoolVal(True))
            return
        except Exception as e:
            if type(e).__module__.startswith("z3"):
                raise c.Unsupported("z3: %s" % e)
            c.CTX.prove(name, c.z3.BoolVal(False), "raised %s instead" % type(e).__name__)
            return
        c.CTX.prove(name, c.z3.BoolVal(False), "did not raise")

    def ints(self, text):
        """the integers written in `text`, and the text with each replaced by #"""
        import re
        reg = self.c.CTX.cache.get("text", [])
        rx = re.compile("\u27e8(\\d+)\u27e9|(\\d+)")
        return [reg[int(m.group(1))] if m.group(1) else int(m.group(2)) for m in rx.finditer(text)], rx.sub("#", text)

    # vocabulary
    def at(self, t, *idx):
        from .tensor import SymTensor, lift
        import torch
        if isinstance(t, torch.Tensor):
            return self.c.wrap(lift(t).el(*idx))
        return t

    def If(self, cond, a, b):
        c = self.c
        a = a() if callable(a) else a
        b = b() if callable(b) else b
        za, zb_ = self._z(a), self._z(b)
        if za.sort() != zb_.sort():
            za, zb_ = c.to_real(za), c.to_real(zb_)
        return c.wrap(c.z3.If(c.zb(cond), za, zb_))

    def And(self, *cs):
        return self.c.wrap(self.c.z3.And(*[self.c.zb(x) for x in cs])) if cs else True

    def Or(self, *cs):
        return self.c.wrap(self.c.z3.Or(*[self.c.zb(x) for x in cs])) if cs else False

    def Not(self, x):
        return self.c.wrap(self.c.z3.Not(self.c.zb(x)))

    def Implies(self, a, b):
        return self.c.wrap(self.c.z3.Implies(self.c.zb(a), self.c.zb(b() if callable(b) else b)))

    def Iff(self, a, b):
        return self.c.wrap(self.c.zb(a) == self.c.zb(b))

    def max(self, a, b):
        return self.If(self._c(a) >= b, a, b)

    def min(self, a, b):
        return self.If(self._c(a) <= b, a, b)

    def _c(self, a):
        return self.c.wrap(self._z(a))

    def abs(self, a):
        return abs(self._c(a))

    def floor(self, a):
        return self.c.wrap(self.c.z3.ToInt(self.c.zr(a)))

    def round(self, a):
        return self.c.wrap(self.c.round_half_even(self.c.zr(a)))

    def trunc(self, a):
        return self.c.wrap(self.c.to_int(self.c.zr(a)))

    def _un(self, f, a):
        return self.c.wrap(f(self.c.zr(a)))

    def exp(self, a):
        from . import axioms as A
        return self._un(A.exp, a)

    def log(self, a):
        from . import axioms as A
        return self._un(A.log, a)

    def sqrt(self, a):
        from . import axioms as A
        return self._un(A.sqrt, a)

    def erf(self, a):
        from . import axioms as A
        return self._un(A.erf_f, a)

    def tanh(self, a):
        from . import axioms as A
        return self._un(A.tanh_f, a)

    def pow(self, a, b):
        from . import axioms as A
        return self.c.wrap(A.pow_(self.c.zr(a), b if isinstance(b, (int, float)) else self.c.zr(b)))

    def sum(self, bounds, f):
        from .tensor import make_sum
        c = self.c
        probe = []

        def body(*ks):
            return c.zr(f(*[c.wrap(k) for k in ks]))
        return c.wrap(make_sum("sum", [c.zi(b) for b in bounds], body, "r"))

    def to_real(self, a):
        return self.c.wrap(self.c.zr(a))

    def split(self, k, dims):
        from .tensor import split_index, dsimp
        c = self.c
        return [c.wrap(p) for p in split_index(c.zi(k), tuple(dsimp(d) for d in dims))]
