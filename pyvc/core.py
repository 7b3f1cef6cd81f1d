r"""pyvc core: symbolic scalars, path exploration, obligations.

The verifier executes the *real* functions of /repo (the unmodified code
objects CPython compiled from /repo's files) on symbolic arguments.  Every
branch on a symbolic condition is explored (path re-execution), every
postcondition becomes an obligation `path /\ facts => goal` that an SMT solver
must discharge.
"""
import sys
import time
import math as _math
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

z3.set_param("smt.random_seed", 7)


class Unsupported(BaseException):
    """The front end met something it has no contract for."""


class PathEnd(BaseException):
    """This path is infeasible / finished (not an error)."""


class Undecided(BaseException):
    pass


# ---------------------------------------------------------------- numbers
def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    if _math.isinf(x) or _math.isnan(x):
        raise Unsupported("non-finite constant %r" % x)
    return Fraction(x)


def rv(x):
    f = frac(x)
    return z3.RealVal(str(f.numerator)) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)


def is_sym(x):
    return isinstance(x, (SymInt, SymReal, SymBool))


def zi(x):
    """z3 Int term of an int-like"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if z3.is_expr(x):
        return x
    if hasattr(x, "__index__") and not isinstance(x, float):
        try:
            return z3.IntVal(int(x))
        except Unsupported:
            raise
    raise Unsupported("int term of %r" % (type(x),))


def zr(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int, float, Fraction)):
        return rv(x)
    if z3.is_expr(x):
        return to_real(x)
    if hasattr(x, "_sym_scalar"):
        return zr(x._sym_scalar())
    try:
        return rv(float(x))
    except Exception:
        raise Unsupported("real term of %r" % (type(x),))


def to_real(e):
    if z3.is_bool(e):
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    if e.is_int():
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def to_int(e):
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if e.is_int():
        return e
    # python/torch truncation toward zero
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def to_bool(e):
    if z3.is_bool(e):
        return e
    return e != 0


def zb(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return to_bool(x)
    if isinstance(x, (SymInt, SymReal)):
        return x.e != 0
    if hasattr(x, "_sym_scalar"):
        return zb(x._sym_scalar())
    return z3.BoolVal(bool(x))


def conc(e):
    """Concrete python value of a z3 term if it is one, else None."""
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def wrap(e):
    """Wrap z3 term in the matching Sym class (constants are folded)."""
    if not z3.is_expr(e):
        return e
    e = z3.simplify(e)
    if z3.is_bool(e):
        c = conc(e)
        return c if c is not None else SymBool(e)
    if e.is_int():
        c = conc(e)
        return c if c is not None else SymInt(e)
    return SymReal(e)


# ---------------------------------------------------------------- context
class Obligation:
    def __init__(self, name, status, secs, backend, model=None, detail=None, path=None):
        self.name, self.status, self.secs, self.backend = name, status, secs, backend
        self.model, self.detail, self.path = model, detail, path


class Ctx:
    def __init__(self, timeout_ms=10000):
        self.timeout_ms = timeout_ms
        self.reset_run()
        self.reset_path([])

    def reset_run(self):
        self.obls = []
        self.solver_time = 0.0
        self.queries = 0
        self.covers = []
        self.backends = {}
        self.used_contracts = set()
        self.deadline = None

    def reset_path(self, decisions):
        self.decisions = decisions  # list of [value, other_pending]
        self.pos = 0
        self.path = []
        self.facts = []
        self.factset = set()
        self.fresh = 0
        self.inputs = {}
        self.sums = {}      # const name -> SumNode
        self.sumkeys = {}
        self.univ = []      # universal facts
        self.depth = 0
        self.opaque = {}
        self.opaque_used = False
        self.cong_done = {}
        self.cache = {}
        self.keep = []
        self.scope = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.solver_n = (0, 0)
        self.isolver = z3.Solver()
        self.isolver_n = (0, 0)

    # -- assumptions
    def assume(self, c):
        c = zb(c) if not z3.is_expr(c) else c
        if z3.is_true(c):
            return
        self.path.append(c)

    def fact(self, c):
        k = c.get_id()
        if k in self.factset:
            return
        self.factset.add(k)
        self.facts.append(c)

    def new(self, name, sort="i"):
        self.fresh += 1
        n = "%s!%d" % (name, self.fresh)
        return {"i": z3.Int, "r": z3.Real, "b": z3.Bool}[sort](n)

    def under(self, conds):
        """conditions that hold while the body of a reduction is evaluated (index ranges)"""
        return _Scope(self, list(conds))

    def bound_var(self, depth, j, b):
        """index variable of a reduction; one name per nesting depth and bound, so that a range is tied to the name"""
        key = ("bvar", b.get_id())
        if key not in self.cache:
            self.cache[key] = (sum(1 for k in self.cache if isinstance(k, tuple) and k[0] == "bvar"), b)
        return z3.Int("@%d_%d_%d" % (depth, j, self.cache[key][0]))

    def _sync(self):
        a, b = self.solver_n
        for c in self.path[a:]:
            self.solver.add(c)
        for c in self.facts[b:]:
            self.solver.add(c)
        self.solver_n = (len(self.path), len(self.facts))

    def _pure(self, t):
        """only integer and boolean arithmetic over constants (sizes, not tensor elements)"""
        memo = self.cache.setdefault("pure", {})
        i = t.get_id()
        r = memo.get(i)
        if r is None:
            r = z3.is_app(t) and t.sort_kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) \
                and not (t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) and all(self._pure(a) for a in t.children())
            memo[i] = r
            self.keep.append(t)
        return r

    def _int_check(self, extra, timeout):
        a, b = self.isolver_n
        for c in self.path[a:] + self.facts[b:]:
            if self._pure(c):
                self.isolver.add(c)
        self.isolver_n = (len(self.path), len(self.facts))
        self.isolver.set("timeout", int(timeout))
        return self.isolver.check(*extra)

    def check(self, *extra, timeout=None):
        if extra and all(self._pure(c) for c in extra) and all(self._pure(c) for c in self.scope):
            # about sizes only: the facts about sizes usually settle it
            t0 = time.time()
            r = self._int_check(list(extra) + self.scope, min(timeout or self.timeout_ms, 3000))
            self.solver_time += time.time() - t0
            if r == z3.unsat:
                self.queries += 1
                return r
            if r == z3.sat:
                timeout = min(timeout or self.timeout_ms, 300)
        self._sync()
        if self.deadline and time.time() > self.deadline:
            raise Undecided("time budget of this contract used up")
        t0 = time.time()
        self.solver.set("timeout", int(timeout or self.timeout_ms))
        self.queries += 1
        # axioms for transcendental terms
        from . import axioms
        extra = list(extra) + self.scope
        ax = axioms.instances(list(self.path) + list(self.facts) + extra, self)
        r = self.solver.check(*(list(extra) + ax))
        self.solver_time += time.time() - t0
        return r

    def feasible(self, c):
        r = self.check(c, timeout=3000)
        return r != z3.unsat

    def valid(self, c, timeout=3000):
        """path => c, quick."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(z3.Not(c), timeout=timeout) == z3.unsat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            val = d[0]
            self.path.append(c if val else z3.Not(c))
            return val
        if self.scope and self.bound_in(c):
            raise Unsupported("branch on the index of a reduction")
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if t and f:
            self.decisions.append([True, True])
            val = True
        elif t:
            self.decisions.append([True, False])
            val = True
        elif f:
            self.decisions.append([False, False])
            val = False
        else:
            raise PathEnd()
        self.pos += 1
        self.path.append(c if val else z3.Not(c))
        if len(self.decisions) > 400:
            raise Undecided("more than 400 decisions on one path")
        return val

    def bound_in(self, c):
        from .solve import consts_in
        names = set(consts_in(self.scope))
        return any(n in names and (n[0] == "@" or n.startswith("k!")) for n in consts_in([c]))

    def choose(self, n):
        """Demonic choice among n options (all explored)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d[0]
        self.decisions.append([0, n - 1])
        self.pos += 1
        return 0

    def determined(self, e):
        """The unique value of e on this path or None."""
        e = z3.simplify(e)
        v = conc(e)
        if v is not None:
            return v
        r = self.check()
        if r != z3.sat:
            return None
        m = self.solver.model()
        mv = m.eval(e, model_completion=True)
        if self.check(e != mv) == z3.unsat:
            return conc(mv)
        return None

    # -- obligations
    def record(self, name, status, t0, backend, model=None, detail=None):
        self.obls.append(Obligation(name, status, time.time() - t0, backend, model, detail))
        if status == "discharged":
            self.backends[backend] = self.backends.get(backend, 0) + 1

    def prove(self, name, goal, detail=None, quiet=False):
        from . import solve
        t0 = time.time()
        st, be, model = solve.prove(self, goal)
        if not quiet:
            self.record(name, st, t0, be, model, detail)
        return st


class _Scope:
    def __init__(self, ctx, conds):
        self.ctx, self.conds = ctx, conds

    def __enter__(self):
        self.n = len(self.ctx.scope)
        self.ctx.scope.extend(self.conds)

    def __exit__(self, *a):
        del self.ctx.scope[self.n:]
        return False


CTX = Ctx()


def explore(fn, ctx=CTX, max_paths=4000):
    """Run fn once per feasible path."""
    decisions = []
    n = 0
    while True:
        ctx.reset_path(decisions)
        try:
            fn()
        except PathEnd:
            pass
        n += 1
        # next
        ds = ctx.decisions
        while ds:
            last = ds[-1]
            if last[0] is True and last[1] is True:
                ds[-1] = [False, False]
                break
            if type(last[0]) is int and last[1] > 0:
                ds[-1] = [last[0] + 1, last[1] - 1]
                break
            ds.pop()
        if not ds:
            return n
        decisions = ds
        if n >= max_paths:
            raise Undecided("more than %d paths" % max_paths)


# ---------------------------------------------------------------- scalars
def _num(o):
    return isinstance(o, (int, float, Fraction, SymInt, SymReal, SymBool)) or z3.is_expr(o)


def _isint(o):
    return isinstance(o, (int, SymInt, SymBool)) or (z3.is_expr(o) and not z3.is_bool(o) and o.is_int())


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.branch(self.e)

    def __and__(self, o):
        return wrap(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return wrap(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return wrap(self.e == zb(o))
        return wrap(zi(self) == zi(o))

    def __ne__(self, o):
        return wrap(z3.Not(zb(self == o)))

    def __hash__(self):
        return hash(self.e)

    def __add__(self, o):
        return SymInt(zi(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(zi(self)) * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - SymInt(zi(self))

    def __sub__(self, o):
        return SymInt(zi(self)) - o

    def __repr__(self):
        return "SymBool(%s)" % self.e


def idiv(a, d):
    """floor(a / d) for a positive constant d; multiples of d are taken out where the rest is provably a remainder"""
    s = z3.simplify(a, som=True)
    if z3.is_int_value(s):
        return z3.IntVal(s.as_long() // d)
    if d == 1:
        return a
    q, r = [], []
    for m in (list(s.children()) if z3.is_add(s) else [s]):
        c, rest = None, None
        if z3.is_int_value(m):
            k = m.as_long()
            q.append(z3.IntVal(k // d))
            r.append(z3.IntVal(k % d))
            continue
        if z3.is_mul(m) and z3.is_int_value(m.arg(0)) and m.arg(0).as_long() % d == 0:
            q.append(z3.simplify(z3.Product([z3.IntVal(m.arg(0).as_long() // d)] + list(m.children())[1:])))
        else:
            r.append(m)
    if q:
        rest = z3.simplify(z3.Sum(r)) if r else z3.IntVal(0)
        for k in (0, -1, 1):
            if CTX.valid(z3.And(rest >= k * d, rest < (k + 1) * d)):
                return z3.simplify(z3.Sum(q) + k)
    return a / z3.IntVal(d)


def ratio(e):
    """(num, den) when the real term is a rational combination of integer terms, den a positive constant"""
    parts = _lin(e)
    if parts is None:
        return None
    den = 1
    for c, _ in parts:
        den = den * c.denominator // _math.gcd(den, c.denominator)
    num = z3.Sum([z3.IntVal(int(c * den)) * t for c, t in parts]) if parts else z3.IntVal(0)
    return z3.simplify(num), den


def _lin(e):
    if z3.is_to_real(e):
        return [(Fraction(1), e.arg(0))]
    if z3.is_rational_value(e):
        return [(e.as_fraction(), z3.IntVal(1))]
    if z3.is_add(e):
        out = []
        for c in e.children():
            r = _lin(c)
            if r is None:
                return None
            out += r
        return out
    if z3.is_sub(e):
        a, b = _lin(e.arg(0)), _lin(e.arg(1))
        return None if a is None or b is None or e.num_args() != 2 else a + [(-c, t) for c, t in b]
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
        a = _lin(e.arg(0))
        return None if a is None else [(-c, t) for c, t in a]
    if z3.is_mul(e):
        k, rest = Fraction(1), []
        for c in e.children():
            if z3.is_rational_value(c):
                k *= c.as_fraction()
            else:
                rest.append(c)
        if len(rest) == 0:
            return [(k, z3.IntVal(1))]
        if len(rest) == 1:
            a = _lin(rest[0])
            return None if a is None else [(k * c, t) for c, t in a]
        if all(z3.is_to_real(c) for c in rest):
            return [(k, z3.Product([c.arg(0) for c in rest]))]
    return None


def floordiv(a, b):
    """python floor division on z3 Ints"""
    cb = conc(z3.simplify(b))
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if cb > 0:
            return idiv(a, int(cb))
        return (-a) / (-b)
    if CTX.valid(b > 0):
        return a / b
    if CTX.branch(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    if CTX.branch(b > 0):
        return a / b
    return (-a) / (-b)


def pymod(a, b):
    cb = conc(z3.simplify(b))
    if cb is not None and cb > 0:
        return a % b
    return a - b * floordiv(a, b)


class _SymNum:
    __slots__ = ()

    def _bin(self, o, f, rf=False):
        if hasattr(o, "_is_symtensor"):
            return NotImplemented
        if not _num(o):
            return NotImplemented
        if isinstance(o, complex):
            return NotImplemented
        if _isint(self) and _isint(o):
            a, b = zi(self), zi(o)
        else:
            a, b = zr(self), zr(o)
        if rf:
            a, b = b, a
        return wrap(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            n = CTX.determined(zi(self))
            if n is None:
                raise Unsupported("list repeat by symbolic count")
            return o * n
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            return self.__mul__(o)
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if hasattr(o, "_is_symtensor") or not _num(o):
            return NotImplemented
        return wrap(rdiv(zr(self), zr(o)))

    def __rtruediv__(self, o):
        if hasattr(o, "_is_symtensor") or not _num(o):
            return NotImplemented
        return wrap(rdiv(zr(o), zr(self)))

    def __floordiv__(self, o):
        if _isint(self) and _isint(o):
            return wrap(floordiv(zi(self), zi(o)))
        return wrap(z3.ToReal(z3.ToInt(rdiv(zr(self), zr(o)))))

    def __rfloordiv__(self, o):
        if _isint(self) and _isint(o):
            return wrap(floordiv(zi(o), zi(self)))
        return wrap(z3.ToReal(z3.ToInt(rdiv(zr(o), zr(self)))))

    def __mod__(self, o):
        if _isint(self) and _isint(o):
            return wrap(pymod(zi(self), zi(o)))
        a, b = zr(self), zr(o)
        return wrap(a - b * z3.ToReal(z3.ToInt(rdiv(a, b))))

    def __rmod__(self, o):
        if _isint(self) and _isint(o):
            return wrap(pymod(zi(o), zi(self)))
        a, b = zr(o), zr(self)
        return wrap(a - b * z3.ToReal(z3.ToInt(rdiv(a, b))))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o):
        from . import axioms
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return wrap(axioms.pow_(zr(self), o if not is_sym(o) else zr(o)))

    def __rpow__(self, o):
        from . import axioms
        if isinstance(o, int) and isinstance(self, SymInt):
            d = CTX.determined(self.e)
            if d is not None:
                return o ** d
        return wrap(axioms.pow_(zr(o), zr(self)))

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return self._bin(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._bin(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or not _num(o):
            return NotImplemented if o is not None else False
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or not _num(o):
            return NotImplemented if o is not None else True
        return self._bin(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(self.e)

    def __bool__(self):
        return CTX.branch(self.e != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def rdiv(a, b):
    """real division; a zero denominator is a run-time error/inf, flagged as an obligation by callers that care"""
    cb = conc(z3.simplify(b))
    if cb is not None:
        if cb == 0:
            raise Unsupported("division by constant zero")
        return a * rv(1 / cb) if cb != 1 else a
    if CTX.cache.get("zero over anything is zero") and conc(z3.simplify(a)) == 0:
        return rv(0)
    return a / b


class SymInt(_SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __index__(self):
        v = CTX.determined(self.e)
        if v is None:
            raise Unsupported("symbolic integer %s needed as a machine integer" % self.e)
        return int(v)

    __int__ = __index__

    def __float__(self):
        v = CTX.determined(self.e)
        if v is None:
            raise Unsupported("symbolic integer needed as a machine float")
        return float(v)

    def __floor__(self):
        return self

    __ceil__ = __trunc__ = __floor__

    def __round__(self, n=None):
        return self

    # bit operations by powers of two
    def __lshift__(self, o):
        return self * (2 ** o)

    def __rshift__(self, o):
        return self // (2 ** o)

    def item(self):
        return self

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __str__(self):
        """text with a symbolic integer in it carries a token that Vc.ints reads back"""
        reg = CTX.cache.setdefault("text", [])
        reg.append(self)
        return "\u27e8%d\u27e9" % (len(reg) - 1)

    def __format__(self, spec):
        return str(self)


def round_half_even(e):
    f = z3.ToInt(e + rv(Fraction(1, 2)))
    tie = z3.ToReal(f) == e + rv(Fraction(1, 2))
    return z3.If(z3.And(tie, f % 2 == 1), f - 1, f)


class SymReal(_SymNum):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __float__(self):
        v = conc(z3.simplify(self.e))
        if v is None:
            raise Unsupported("symbolic real needed as a machine float")
        return float(v)

    def __int__(self):
        v = conc(z3.simplify(self.e))
        if v is None:
            raise Unsupported("symbolic real needed as a machine int")
        return int(v)

    def __floor__(self):
        r = ratio(self.e)
        return wrap(idiv(*r) if r else z3.ToInt(self.e))

    def __ceil__(self):
        r = ratio(self.e)
        return wrap(-idiv(-r[0], r[1]) if r else -z3.ToInt(-self.e))

    def __trunc__(self):
        return wrap(to_int(self.e))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n)")
        return wrap(round_half_even(self.e))

    def item(self):
        return self

    def is_integer(self):
        return wrap(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __repr__(self):
        return "SymReal(%s)" % self.e
