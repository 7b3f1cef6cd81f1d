"""A stand-in for the parts of jax the entropy coders use: jax is not installed here, so the coders' own source runs against this module.
Concrete arrays are numpy arrays; symbolic ones are SA (a shape of integer terms and an element function).  Every operation below is an
assumed contract on a dependency (jax.numpy / jax.lax), stated in DESIGN.md."""
import sys
import types

import numpy as np

WIDTH = {"uint32": 32, "uint8": 8, "uint16": 16}


def _core():
    from . import core
    return core


def _dt(d):
    if d is None:
        return None
    return d if isinstance(d, str) else np.dtype(d).name


class SA:
    """symbolic array"""
    _jax_sym = True

    def __init__(self, shape, fn, dtype, perm=None, arange=False):
        self.shape, self.fn, self.dtype, self.perm, self.is_arange = tuple(shape), fn, dtype, perm, arange
        self.raw = None

    # ---- shape
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n

    def _sym_len(self):
        return self.shape[0]

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise _core().Unsupported("len of a symbolic array")

    def at(self, *idx):
        return self.fn(*[_core().zi(i) for i in idx])

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise _core().Unsupported("iteration over a symbolic axis")
        return iter([self[i] for i in range(n)])

    def __getitem__(self, ix):
        c = _core()
        if isinstance(ix, tuple):
            if len(ix) == 2 and ix[0] is Ellipsis and ix[1] is None:
                return SA(self.shape + (1,), lambda *i: self.fn(*i[:-1]), self.dtype)
            if len(ix) == 2 and ix[0] is Ellipsis and isinstance(ix[1], int):
                k = ix[1]
                return _out(SA(self.shape[:-1], lambda *i: self.fn(*i, c.z3.IntVal(k)), self.dtype))
            r = self
            for k in ix:
                r = r[k]
            return r
        if isinstance(ix, slice):
            n = self.shape[0]
            a = 0 if ix.start is None else ix.start
            b = n if ix.stop is None else ix.stop
            if ix.step not in (None, 1):
                raise c.Unsupported("strided slice")
            a, b = _pos(a, n), _pos(b, n)
            m = b - a if b - a > 0 else 0
            za = c.zi(a)
            return SA((m,) + self.shape[1:], lambda i, *r: self.fn(i + za, *r), self.dtype)
        if isinstance(ix, SA):
            raise c.Unsupported("array index")
        z = c.zi(_pos(ix, self.shape[0], False))
        return _out(SA(self.shape[1:], lambda *r: self.fn(z, *r), self.dtype))

    # ---- conversions
    def astype(self, d):
        d = _dt(d)
        if WIDTH.get(d, 64) < WIDTH.get(self.dtype, 64) and self.dtype in WIDTH:
            c = _core()
            m = 1 << WIDTH[d]
            return _map(lambda e: c.z3.simplify(c.to_int(e) - m * _idiv(c.to_int(e), m)), d, self)
        return _map(lambda e: _cast(e, d), d, self)

    def __int__(self):
        raise _core().Unsupported("int of a symbolic array")

    def __index__(self):
        raise _core().Unsupported("index of a symbolic array")

    def __bool__(self):
        if self.shape == ():
            return bool(_core().wrap(self.fn()))
        raise _core().Unsupported("truth of a symbolic array")

    def ravel(self):
        return ravel(self)

    def reshape(self, *s):
        return reshape(self, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)

    def sum(self, axis=None):
        return jsum(self)


def _pos(i, n, clamp=True):
    if isinstance(i, int) and i < 0:
        i = n + i
    if clamp:
        if i < 0:
            i = 0
        if i > n:
            i = n
    return i


def _out(a):
    return _core().wrap(a.fn()) if a.shape == () else a


def _is(x):
    return isinstance(x, SA) or _core_loaded() and _core().is_sym(x)


def _core_loaded():
    return "pyvc.core" in sys.modules


def _any(*xs):
    for x in xs:
        if isinstance(x, (tuple, list)):
            if _any(*x):
                return True
        elif _is(x):
            return True
    return False


def _ty(x):
    if isinstance(x, SA):
        return x.dtype
    if hasattr(x, "dtype"):
        return np.dtype(x.dtype).name
    return None


def _promote(*ts):
    ts = [t for t in ts if t and t != "bool"]
    if not ts:
        return "int64"
    if any(t.startswith("int") for t in ts):
        return "int64"
    return max(ts, key=lambda t: WIDTH.get(t, 64))


def _cast(e, d):
    c = _core()
    if d == "bool":
        return c.to_bool(e)
    e = c.to_int(e)
    w = WIDTH.get(d)
    return _wrapw(e, w) if w else e


def _wrapw(e, w, timeout=3000):
    c = _core()
    z3 = c.z3
    e = z3.simplify(e)
    m = 1 << w
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() % m)
    key = ("w", e.get_id(), w, len(c.CTX.path))
    memo = c.CTX.cache.setdefault("jaxwrap", {})
    if key not in memo:
        memo[key] = (c.CTX.valid(z3.And(e >= 0, e < m), timeout=timeout), e)
    return e if memo[key][0] else z3.simplify(e - m * _idiv(e, m))


def _bshape(xs):
    sh = ()
    for x in xs:
        if isinstance(x, SA) and x.ndim > len(sh):
            sh = x.shape
        elif isinstance(x, np.ndarray) and x.ndim > len(sh):
            sh = x.shape
    out = list(sh)
    for x in xs:
        if isinstance(x, SA):
            for k in range(1, x.ndim + 1):
                if isinstance(out[-k], int) and out[-k] == 1 and not (isinstance(x.shape[-k], int) and x.shape[-k] == 1):
                    out[-k] = x.shape[-k]
    return tuple(out)


def _el(x, idx):
    c = _core()
    if isinstance(x, SA):
        ii = idx[len(idx) - x.ndim:] if x.ndim else ()
        ii = [c.z3.IntVal(0) if isinstance(s, int) and s == 1 else i for s, i in zip(x.shape, ii)]
        return x.fn(*ii)
    if isinstance(x, np.ndarray):
        if x.size == 1:
            return c.z3.IntVal(int(x.reshape(-1)[0]))
        raise c.Unsupported("mixed concrete array")
    if isinstance(x, (bool, np.bool_)):
        return c.z3.BoolVal(bool(x))
    return c.zb(x) if isinstance(x, c.SymBool) else c.zi(x)


def _map(f, dtype, *xs):
    sh = _bshape(xs)
    memo = {}

    def fn(*idx):
        k = tuple(i.get_id() for i in idx) + (len(_core().CTX.path),)
        if k not in memo:
            memo[k] = (f(*[_el(x, idx) for x in xs]), idx)
        return memo[k][0]
    return SA(sh, fn, dtype)


def _ring(f):
    """+, -, * in w bits: an unreduced representative is kept beside the value, so that a sum that wraps and wraps back costs nothing"""
    def g(a, b):
        dt = _promote(_ty(a), _ty(b)) if (_ty(a) or _ty(b)) else "int64"
        w = WIDTH.get(dt)
        c = _core()

        def raw(x, y):
            return _unify_sum(c.z3.simplify(f(c.to_int(x), c.to_int(y)), som=True))
        r = _map(raw, dt, *[_Raw(x) if isinstance(x, SA) and x.raw is not None and _ty(x) == dt else x for x in (a, b)])
        if not w:
            return r
        out = _map(lambda e: _wrapw(e, w), dt, r)
        out.raw = r.fn
        return out
    return g


def _Raw(x):
    return SA(x.shape, x.raw, x.dtype)


def _unify_sum(e):
    """q*b + r of an earlier division of a by b is a"""
    c = _core()
    for (q, r, a, b) in c.CTX.cache.get("jaxdiv", {}).values():
        d = c.z3.simplify(e - (q * b + r), som=True)
        if c.z3.is_int_value(d) and d.as_long() == 0 and c.CTX.valid(c.z3.And(b > 0, a >= 0)):
            return a
    return e


def _arith(f):
    def g(a, b):
        dt = _promote(_ty(a), _ty(b)) if (_ty(a) or _ty(b)) else "int64"
        w = WIDTH.get(dt)
        c = _core()

        def h(x, y):
            r = f(c.to_int(x), c.to_int(y))
            return _wrapw(r, w) if w else r
        return _map(h, dt, a, b)
    return g


def _const(e):
    c = _core()
    e = c.z3.simplify(e)
    if not c.z3.is_int_value(e):
        raise c.Unsupported("symbolic shift amount")
    return e.as_long()


def _idiv(e, m, depth=0):
    c = _core()
    if depth < 4 and c.z3.is_app(e) and e.decl().kind() == c.z3.Z3_OP_ITE:
        p, a, b = e.children()
        return c.z3.simplify(c.z3.If(p, _idiv(a, m, depth + 1), _idiv(b, m, depth + 1)))
    return c.idiv(e, m)


def _shr(x, k):
    c = _core()
    k = _const(k)
    if k < 0:
        raise c.Unsupported("negative shift")
    return _idiv(x, 1 << k)


def _shl(x, k):
    return x * _core().z3.IntVal(1 << _const(k))


def _lshift(a, b):
    """x << k in w bits is 2^k * (x mod 2^(w-k)); the reduction is dropped where it provably does nothing"""
    c = _core()
    dt = _promote(_ty(a), _ty(b))
    w = WIDTH.get(dt)

    def h(x, k):
        x = c.to_int(x)
        k = _const(c.to_int(k))
        if w and k >= w:
            return c.z3.IntVal(0)
        if w:
            x = _wrapw(x, w - k, 500)
        return c.z3.IntVal(1 << k) * x
    return _map(h, dt, a, b)


def _zeros(e):
    """a number of low bits that are zero by the shape of the term"""
    c = _core()
    z3 = c.z3
    if z3.is_int_value(e):
        n = e.as_long()
        return 64 if n == 0 else (n & -n).bit_length() - 1
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_MUL:
        return sum(_zeros(x) for x in e.children())
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        return min(_zeros(x) for x in e.children())
    if k == z3.Z3_OP_ITE:
        return min(_zeros(x) for x in e.children()[1:])
    return 0


def _and(a, b):
    c = _core()
    z3 = c.z3
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.And(a, b)
    for x, y in ((a, b), (b, a)):
        y = z3.simplify(c.to_int(y))
        if z3.is_int_value(y) and (y.as_long() & (y.as_long() + 1)) == 0:
            m = y.as_long() + 1
            x = c.to_int(x)
            return z3.simplify(x - m * _idiv(x, m))
    raise c.Unsupported("bitwise and")


def _or(a, b):
    c = _core()
    z3 = c.z3
    if z3.is_bool(a) and z3.is_bool(b):
        return z3.Or(a, b)
    a, b = c.to_int(a), c.to_int(b)
    for x, y in ((a, b), (b, a)):
        k = _zeros(x)
        if k and c.CTX.valid(z3.And(y >= 0, y < (1 << k)), timeout=3000):
            return x + y
    raise c.Unsupported("bitwise or of overlapping bits")


def _xor(a, b):
    c = _core()
    if c.z3.is_bool(a) and c.z3.is_bool(b):
        return c.z3.Xor(a, b)
    raise c.Unsupported("bitwise xor")


def _cmp(f):
    def g(a, b):
        c = _core()
        return _map(lambda x, y: f(c.to_int(x), c.to_int(y)), "bool", a, b)
    return g


def _powers(q, b):
    """q*b against c*b for the powers of two c: instances of monotonicity of multiplication by b > 0"""
    c = _core()
    for k in c.CTX.cache.get("jaxpowers") or range(0, 33):
        m = 1 << k
        c.CTX.fact(c.z3.Implies(b > 0, c.z3.And(c.z3.Implies(q >= m, q * b >= m * b), c.z3.Implies(q <= m - 1, q * b <= (m - 1) * b))))


def _names(e):
    c = _core()
    memo = c.CTX.cache.setdefault("jaxnames", {})
    if e.get_id() not in memo:
        acc, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or not c.z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == c.z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
        memo[e.get_id()] = (acc, e)
    return memo[e.get_id()][0]


def _likely(a, b):
    """worth asking the solver whether a == b (they mention the same inputs)"""
    return _names(a) == _names(b)


def _divpair(a, b):
    c = _core()
    z3 = c.z3
    a, b = z3.simplify(c.to_int(a), som=True), z3.simplify(c.to_int(b))
    key = ("div", a.get_id(), b.get_id())
    memo = c.CTX.cache.setdefault("jaxdiv", {})
    if key not in memo:
        q, r = None, None
        for (q1, r1, a1, b1) in list(memo.values()):
            if b1.get_id() == b.get_id() and c.CTX.valid(a1 == a, timeout=2000):
                q, r = q1, r1
        for t, b1 in c.CTX.cache.get("jaxmul", []):
            # a == t*b + rest with rest provably a remainder
            if q is None and (b1.get_id() == b.get_id() or _likely(b1, b) and c.CTX.valid(b1 == b, timeout=1000)):
                rest = a - t * b1
                if c.CTX.valid(z3.And(rest >= 0, rest < b), timeout=10000):
                    q, r = t, rest
        if q is None:
            q, r = c.CTX.new("q"), c.CTX.new("r")
            c.CTX.fact(z3.Implies(z3.And(b > 0, a >= 0), z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a)))
            _powers(q, b)
        memo[key] = (q, r, a, b)
    return memo[key][0], memo[key][1]


def _mul(a, b):
    c = _core()
    z3 = c.z3
    a, b = z3.simplify(a), z3.simplify(b)
    if not (z3.is_int_value(a) or z3.is_int_value(b)):
        L = c.CTX.cache.setdefault("jaxmul", [])
        for t, o in ((a, b), (b, a)):
            if any(x.get_id() == t.get_id() and y.get_id() == o.get_id() for x, y in L):
                continue
            L.append((t, o))
            _powers(t, o)
        c.CTX.fact(a * b == b * a)
    return a * b


_ops = dict(__add__=_ring(lambda a, b: a + b), __sub__=_ring(lambda a, b: a - b), __mul__=_ring(_mul),
            __rshift__=_arith(_shr), __lshift__=_lshift,
            __ge__=_cmp(lambda a, b: a >= b), __gt__=_cmp(lambda a, b: a > b), __le__=_cmp(lambda a, b: a <= b), __lt__=_cmp(lambda a, b: a < b),
            __eq__=_cmp(lambda a, b: a == b), __ne__=_cmp(lambda a, b: a != b),
            __floordiv__=_arith(lambda a, b: _divpair(a, b)[0]), __mod__=_arith(lambda a, b: _divpair(a, b)[1]))


def _bit(f):
    def g(a, b):
        dt = "bool" if _ty(a) == "bool" and _ty(b) in ("bool", None) else _promote(_ty(a), _ty(b))
        return _map(f, dt, a, b)
    return g


_ops.update(__and__=_bit(_and), __or__=_bit(_or), __xor__=_bit(_xor))
for _k, _f in _ops.items():
    setattr(SA, _k, (lambda f: lambda self, o: f(self, o))(_f))
for _k in ("add", "sub", "mul", "and", "or"):
    setattr(SA, "__r%s__" % _k, (lambda f: lambda self, o: f(o, self))(_ops["__%s__" % _k]))
SA.__hash__ = object.__hash__
SA.__invert__ = lambda self: _map(lambda e: _core().z3.Not(e), "bool", self)
SA.__neg__ = lambda self: _map(lambda e: -e, "int64", self)


# ------------------------------------------------------------------ reductions and sorting
class SortInfo:
    """stable sort of a boolean key array of length n: sigma = position of a lane, pi = lane at a position, count = number of true keys"""

    def __init__(self, keys):
        c = _core()
        z3 = c.z3
        k = len(c.CTX.cache.setdefault("jaxsorts", []))
        self.keys, self.n = keys, c.zi(keys.shape[0])
        self.sigma_f = z3.Function("sigma%d" % k, z3.IntSort(), z3.IntSort())
        self.pi_f = z3.Function("pi%d" % k, z3.IntSort(), z3.IntSort())
        self.count = z3.Int("count%d" % k)
        c.CTX.fact(z3.And(self.count >= 0, self.count <= self.n))
        c.CTX.cache["jaxsorts"].append(self)

    def sigma(self, j):
        c = _core()
        z3 = c.z3
        s = self.sigma_f(j)
        k = self.keys.fn(j)
        c.CTX.fact(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(s >= 0, s < self.n, self.pi_f(s) == j, k == (s >= self.n - self.count))))
        return s

    def pi(self, i):
        c = _core()
        z3 = c.z3
        p = self.pi_f(i)
        c.CTX.fact(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(p >= 0, p < self.n, self.sigma_f(p) == i)))
        return p


def sortinfo(keys):
    """one SortInfo per key array up to pointwise equality (proved for an arbitrary lane): equal keys sort the same way"""
    c = _core()
    z3 = c.z3
    for s in reversed(c.CTX.cache.get("jaxsorts", [])):
        if s.keys is keys:
            return s
    n = c.zi(keys.shape[0])
    for s in reversed(c.CTX.cache.get("jaxsorts", [])):
        if not c.CTX.valid(s.n == n, timeout=1000):
            continue
        j = c.CTX.new("lane")
        c.CTX.path.append(z3.Implies(z3.BoolVal(True), z3.And(j >= 0, j < z3.If(n > 0, n, 1))))
        a, b = s.keys.fn(j), keys.fn(j)
        if c.CTX.valid(z3.Implies(n > 0, a == b), timeout=3000):
            return s
    return SortInfo(keys)


def jsum(a, axis=None):
    if not _is(a):
        return np.sum(a, axis=axis)
    c = _core()
    if a.ndim == 1 and a.dtype == "bool":
        return c.wrap(sortinfo(a).count)
    raise c.Unsupported("sum of a symbolic array")


def sort_key_val(keys, values, dimension=-1, is_stable=True):
    if not _any(keys, values):
        o = np.argsort(np.asarray(keys), kind="stable")
        return np.asarray(keys)[o], np.asarray(values)[o]
    c = _core()
    if keys.ndim != 1:
        raise c.Unsupported("sort of rank %d" % keys.ndim)
    if keys.perm is not None:
        s = keys.perm
        return arange(keys.shape[0]), SA(values.shape, lambda j: values.fn(s.sigma(j)), values.dtype)
    if keys.dtype == "bool":
        s = sortinfo(keys)
        out = SA(values.shape, lambda i: values.fn(s.pi(i)), values.dtype, perm=s if getattr(values, "is_arange", False) else None)
        return SA(keys.shape, lambda i: i >= s.n - s.count, "bool"), out
    raise c.Unsupported("sort of general keys")


def argsort(a, axis=-1, kind=None, **kw):
    if not _any(a):
        return np.argsort(a, axis=axis, kind="stable")
    return sort_key_val(a, arange(a.shape[0]))[1]


def arange(*a, **kw):
    if not _any(*a):
        return np.arange(*[int(x) for x in a], **kw)
    if len(a) != 1:
        raise _core().Unsupported("arange with a start")
    return SA((a[0],), lambda i: i, "int64", arange=True)


def ravel(a):
    if not _is(a):
        return np.ravel(a)
    if a.ndim == 1:
        return a
    raise _core().Unsupported("ravel of rank %d" % a.ndim)


def reshape(a, s):
    if not _any(a, s):
        return np.reshape(a, s)
    s = s if isinstance(s, (tuple, list)) else (s,)
    if isinstance(a, SA) and a.ndim == 1 and len(s) == 1:
        return a
    raise _core().Unsupported("reshape")


def dynamic_update_slice(a, u, start):
    if not _any(a, u, start):
        a = np.array(a)
        s = int(np.clip(int(np.asarray(start).reshape(-1)[0]), 0, len(a) - len(u)))
        a[s:s + len(u)] = u
        return a
    c = _core()
    z3 = c.z3
    s, m = _clamped(a, u.shape[0], start)
    return SA(a.shape, lambda k: _ite(c, z3.And(k >= s, k < s + m), lambda: u.fn(k - s), lambda: a.fn(k)), a.dtype)


def _clamped(a, m, start):
    c = _core()
    z3 = c.z3
    st = start.fn(z3.IntVal(0)) if isinstance(start, SA) and start.ndim == 1 else (c.zi(start) if not isinstance(start, (tuple, list)) else c.zi(start[0]))
    n, m = c.zi(a.shape[0]), c.zi(m)
    if not c.CTX.valid(z3.And(st >= 0, st <= n - m), timeout=4000):
        hi = z3.If(n - m > 0, n - m, 0)
        st = z3.If(st < 0, z3.IntVal(0), z3.If(st > hi, hi, st))
    return z3.simplify(st), m


def _ite(c, cond, a, b):
    cond = c.z3.simplify(cond)
    if c.z3.is_true(cond):
        return a()
    if c.z3.is_false(cond):
        return b()
    if c.CTX.valid(cond, timeout=600):
        return a()
    if c.CTX.valid(c.z3.Not(cond), timeout=600):
        return b()
    return c.z3.If(cond, a(), b())


def dynamic_slice(a, start, sizes):
    if not _any(a, start, sizes):
        m = int(sizes[0])
        s = int(np.clip(int(np.asarray(start).reshape(-1)[0]), 0, len(a) - m))
        return np.array(a[s:s + m])
    s, _ = _clamped(a, sizes[0], start)
    return SA((sizes[0],), lambda k: a.fn(k + s), a.dtype)


def dynamic_update_index_in_dim(a, u, i, axis):
    assert axis == 0
    if not _any(a, u, i):
        a, u = np.array(a), np.asarray(u)
        if u.ndim == a.ndim:  # as jax: an update of the same rank replaces as many rows as it has
            s = int(np.clip(i, 0, len(a) - len(u)))
            a[s:s + len(u)] = u
        else:
            a[int(np.clip(i, 0, len(a) - 1))] = u
        return a
    c = _core()
    zi = c.zi(i)
    n = c.zi(a.shape[0])
    if isinstance(u, SA) and u.ndim == a.ndim:
        raise c.Unsupported("update of the same rank")
    if not c.CTX.valid(c.z3.And(zi >= 0, zi < n)):
        raise c.Unsupported("index clamped")
    return SA(a.shape, lambda k, *r: c.z3.If(k == zi, _el(u, r), a.fn(k, *r)), a.dtype)


def cond(p, f, g, *ops):
    return f(*ops) if bool(p) else g(*ops)


def where(p, a, b):
    if not _any(p, a, b):
        return np.where(p, a, b)
    c = _core()
    dt = _promote(_ty(a), _ty(b))

    def f(x, y, z):
        y, z = c.to_int(y), c.to_int(z)
        e = y if y.get_id() == z.get_id() else c.z3.simplify(c.z3.If(c.to_bool(x), y, z))
        return e
    return _map(f, dt, p, a, b)


def divmod_(a, b):
    if not _any(a, b):
        return np.divmod(a, b)
    dt = _promote(_ty(a), _ty(b))
    return _map(lambda x, y: _divpair(x, y)[0], dt, a, b), _map(lambda x, y: _divpair(x, y)[1], dt, a, b)


def array(x, dtype=None):
    if isinstance(x, SA):
        return x if dtype is None else x.astype(dtype)
    if _any(x):
        c = _core()
        if isinstance(x, (tuple, list)):
            if len(x) == 1:
                return SA((1,), lambda i: c.zi(x[0]), _dt(dtype) or "int64")
            xs = list(x)

            def fn(i):
                k = c.conc(c.z3.simplify(i))
                if k is None:
                    raise c.Unsupported("array of symbolic scalars at a symbolic index")
                return c.zi(xs[k])
            return SA((len(xs),), fn, _dt(dtype) or "int64")
        return x
    return np.array(x, dtype=dtype)


def prod(a, axis=None):
    if isinstance(a, SA):
        n = 1
        for i in range(a.shape[0]):
            n = n * a[i]
        return n
    return np.prod(a, axis=axis)


def full(shape, v, dtype=None):
    if _any(shape, v):
        c = _core()
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return SA(tuple(shape), lambda *i: c.zi(v), _dt(dtype) or "int64")
    return np.full(shape, v, dtype)


def zeros(shape, dtype="int64"):
    return full(shape, 0, dtype)


def concatenate(xs, axis=0):
    xs = list(xs)
    if not _any(*xs):
        return np.concatenate(xs, axis)
    c = _core()
    xs = [x for x in xs]
    offs, n = [], 0
    for x in xs:
        offs.append(n)
        n = n + x.shape[0]

    def fn(i):
        def go(k):
            if k == len(xs) - 1:
                return xs[k].fn(i - c.zi(offs[k]))
            return _ite(c, i < c.zi(offs[k + 1]), lambda: xs[k].fn(i - c.zi(offs[k])), lambda: go(k + 1))
        return go(0)
    return SA((n,), fn, xs[0].dtype)


def split(a, idx):
    if not _any(a, list(idx) if isinstance(idx, (tuple, list)) else idx):
        return np.split(a, [int(i) for i in idx] if isinstance(idx, (tuple, list)) else idx)
    out, prev = [], 0
    for i in list(idx):
        out.append(a[prev:i])
        prev = i
    out.append(a[prev:])
    return out


def stack(xs, axis=0):
    xs = list(xs)
    if not _any(*xs):
        return np.stack(xs, axis)
    c = _core()

    def fn(b, *r):
        k = c.conc(c.z3.simplify(b))
        if k is None:
            raise c.Unsupported("symbolic index into a stack")
        return _el(xs[k], r)
    inner = xs[0].shape if isinstance(xs[0], SA) else ()
    return SA((len(xs),) + tuple(inner), fn, _ty(xs[0]) or "int64")


def take_along_axis(a, idx, axis):
    if not _any(a, idx):
        return np.take_along_axis(np.asarray(a), np.asarray(idx).astype(np.int64), axis)
    c = _core()
    return SA(idx.shape, lambda *i: a.fn(*i[:-1], c.to_int(idx.fn(*i))), a.dtype)


def argmin(a, axis=None):
    if not _any(a):
        return np.argmin(a, axis=axis)
    c = _core()
    z3 = c.z3
    if axis not in (-1, a.ndim - 1) or a.dtype != "bool":
        raise c.Unsupported("argmin")
    n = c.zi(a.shape[-1])
    memo = {}

    def fn(*i):
        k = tuple(x.get_id() for x in i)
        if k not in memo:
            r = c.CTX.new("argmin")
            c.CTX.fact(z3.And(r >= 0, r < n))
            memo[k] = (r, i)
            # least index of a least element; the two universally quantified halves are instantiated at the probes the contract registers
            here = a.fn(*i, r)
            for p in c.CTX.cache.get("jaxprobes", []):
                z = c.zi(p(*i)) if callable(p) else c.zi(p)
                e = a.fn(*i, z)
                ok = z3.And(z >= 0, z < n)
                c.CTX.fact(z3.Implies(ok, z3.Implies(z3.Not(e), z3.Not(here))))
                c.CTX.fact(z3.Implies(z3.And(ok, z < r), z3.Implies(z3.Not(here), e)))
                c.CTX.fact(z3.Implies(z3.And(ok, z < r), z3.Implies(here, z3.BoolVal(False))))
        return memo[k][0]
    return SA(a.shape[:-1], fn, "int64")


def expand_dims(a, axis):
    if not _any(a):
        return np.expand_dims(a, axis)
    if axis in (-1, a.ndim):
        return a[..., None]
    raise _core().Unsupported("expand_dims")


def clip(a, lo, hi):
    if not _any(a, lo, hi):
        return np.clip(a, lo, hi)
    c = _core()
    return _map(lambda x, l, h: c.z3.If(x < l, l, c.z3.If(x > h, h, x)), "int64", a, lo, hi)


def _un(np_f, z_f):
    def g(a, b):
        if not _any(a, b):
            return np_f(a, b)
        return z_f(a, b)
    return g


def fresh(name, shape, lo, hi, dtype):
    """an arbitrary array whose elements lie in [lo, hi)"""
    c = _core()
    z3 = c.z3
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    f = z3.Function(name, *([z3.IntSort()] * len(shape)), z3.IntSort())

    def fn(*i):
        e = f(*i)
        if lo is not None:
            c.CTX.fact(z3.And(e >= c.zi(lo), e < c.zi(hi)))  # outside the array the element function is arbitrary: bounding it there too is harmless
        return e
    return SA(shape, fn, dtype)


def freshbool(name, n):
    c = _core()
    f = c.z3.Function(name, c.z3.IntSort(), c.z3.BoolSort())
    return SA((n,), lambda i: f(i), "bool")


HOOKS = {"fori_loop": None}


def fori_loop(lo, hi, body, init):
    h = HOOKS["fori_loop"]
    if h is not None:
        return h(lo, hi, body, init)
    if _any(lo, hi):
        raise _core().Unsupported("symbolic trip count without an invariant")
    s = init
    for i in range(int(lo), int(hi)):
        s = body(i, s)
    return s


def while_loop(c, b, s):
    while bool(c(s)):
        s = b(s)
    return s


def scan(f, init, xs, length=None):
    ys = []
    n = length if xs is None else len(_leaf(xs))
    for i in range(n):
        init, y = f(init, _pick(xs, i))
        ys.append(y)
    return init, _stack_tree(ys)


def _leaf(t):
    if isinstance(t, (tuple, list)):
        for x in t:
            r = _leaf(x)
            if r is not None:
                return r
        return None
    return t


def _pick(t, i):
    if t is None:
        return None
    if isinstance(t, tuple):
        r = [_pick(x, i) for x in t]
        return type(t)(*r) if hasattr(t, "_fields") else tuple(r)
    if isinstance(t, list):
        return [_pick(x, i) for x in t]
    return t[i]


def _stack_tree(ts):
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, (tuple, list)):
        r = [_stack_tree([x[k] for x in ts]) for k in range(len(t))]
        return type(t)(*r) if hasattr(t, "_fields") else type(t)(r)
    if _any(*ts):
        return stack(ts)
    return np.stack([np.asarray(x) for x in ts])


def vmap(f, in_axes=0, out_axes=0):
    def g(*args):
        ax = in_axes if isinstance(in_axes, (tuple, list)) else [in_axes] * len(args)
        n = None
        for a, k in zip(args, ax):
            if k is not None and n is None:
                lf = _leaf(a)
                n = None if lf is None else lf.shape[0]
        if not isinstance(n, int):
            raise _core().Unsupported("vmap over a symbolic axis")
        return _stack_tree([f(*[_pick(a, i) if k is not None else a for a, k in zip(args, ax)]) for i in range(n)])
    return g


def jit(f=None, **kw):
    return f if f is not None else (lambda g: g)


class _Mod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        v = getattr(np, k, None)
        if v is None:
            raise AttributeError(k)
        if callable(v) and not isinstance(v, type):
            def guard(*a, **kw):
                if _any(*a, *kw.values()):
                    raise _core().Unsupported("jnp.%s on symbolic arrays" % k)
                return v(*a, **kw)
            return guard
        return v


def install():
    """fake jax, jax.numpy, jax.lax, jax.random (only where the real package is absent)"""
    try:
        import jax  # noqa: F401
        if getattr(sys.modules["jax"], "_pyvc", False):
            return
    except Exception:
        pass
    jx, jnp, lax, rnd = types.ModuleType("jax"), _Mod("jax.numpy"), types.ModuleType("jax.lax"), types.ModuleType("jax.random")
    jx._pyvc = True
    jx.config, jx.ops = types.SimpleNamespace(update=lambda *a, **k: None), types.SimpleNamespace()
    jx.numpy, jx.lax, jx.random, jx.vmap, jx.jit = jnp, lax, rnd, vmap, jit
    jx.__path__ = []
    for k, f in dict(array=array, asarray=array, full=full, zeros=zeros, concatenate=concatenate, split=split, stack=stack, where=where,
                     take_along_axis=take_along_axis, argmin=argmin, expand_dims=expand_dims, clip=clip, ravel=ravel, reshape=reshape,
                     arange=arange, prod=prod, divmod=divmod_, argsort=argsort, sum=jsum,
                     less=_un(np.less, lambda a, b: _ops["__lt__"](a, b)), greater=_un(np.greater, lambda a, b: _ops["__gt__"](a, b)),
                     less_equal=_un(np.less_equal, lambda a, b: _ops["__le__"](a, b)),
                     greater_equal=_un(np.greater_equal, lambda a, b: _ops["__ge__"](a, b)),
                     subtract=_un(np.subtract, lambda a, b: _ops["__sub__"](a, b)), add=_un(np.add, lambda a, b: _ops["__add__"](a, b)),
                     right_shift=_un(np.right_shift, lambda a, b: _ops["__rshift__"](a, b)),
                     left_shift=_un(np.left_shift, lambda a, b: _ops["__lshift__"](a, b)),
                     bitwise_and=_un(np.bitwise_and, lambda a, b: _ops["__and__"](a, b)),
                     bitwise_or=_un(np.bitwise_or, lambda a, b: _ops["__or__"](a, b))).items():
        setattr(jnp, k, f)
    jnp.ndarray = np.ndarray
    for k, f in dict(sort_key_val=sort_key_val, dynamic_update_slice=dynamic_update_slice, dynamic_slice=dynamic_slice, cond=cond,
                     dynamic_update_index_in_dim=dynamic_update_index_in_dim, fori_loop=fori_loop, while_loop=while_loop, scan=scan).items():
        setattr(lax, k, f)
    rnd.PRNGKey = lambda s: np.array([0, s], dtype=np.uint32)
    rnd.randint = lambda key, shape, lo, hi, dtype="int32": (
        fresh("random_tail", shape[0], lo, hi, dtype) if _any(shape) else np.random.default_rng(int(key[-1])).integers(lo, hi, size=shape).astype(dtype))
    for n, m in (("jax", jx), ("jax.numpy", jnp), ("jax.lax", lax), ("jax.random", rnd)):
        sys.modules[n] = m
