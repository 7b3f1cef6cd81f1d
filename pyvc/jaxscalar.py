"""Typed jax scalars and one-dimensional arrays for the arithmetic coder (jax is absent here).  The same code serves concrete runs (Python
integers) and proofs (symbolic integers).  Assumed contracts on jax: uintN arithmetic is modulo 2^N, a Python number takes the type of the
array it meets, reads outside an array are clamped into it and writes outside it dropped, lax control flow runs the branch or body chosen."""
import contextlib
import types

BITS = {"bool": 1, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64}


def _core():
    from . import core
    return core


def _sym(x):
    return not isinstance(x, (bool, int)) and hasattr(x, "e")


def _gone(what):
    from .api import Inconclusive
    raise Inconclusive("jax operation outside the stand-in: " + what)


def _num(x):
    return int(x) if isinstance(x, bool) else x


def _and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    return a if b is True else a & b


def _or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    return a if b is False else a | b


def _not(a):
    return (not a) if isinstance(a, bool) else ~a


def _ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    k = _core()
    return k.wrap(k.z3.If(k.zb(c), k.zi(a), k.zi(b)))


def _fit(x, dt):
    """x as a dt"""
    if dt == "bool":
        return x if isinstance(x, bool) or type(x).__name__ == "SymBool" else (x != 0)
    if type(x).__name__ == "SymBool":
        x = _ite(x, 1, 0)
    x = _num(x)
    w = BITS[dt]
    if isinstance(x, int):
        x %= 1 << w
        return x - (1 << w) if dt[0] == "i" and x >> (w - 1) else x
    if dt[0] == "i":
        return x  # signed counters: no overflow (positions in the stream)
    from . import jaxshim
    k = _core()
    return k.wrap(jaxshim._wrapw(k.zi(x), w))


def _promote(a, b):
    if a == b:
        return a
    if a == "bool":
        return b
    if b == "bool":
        return a
    if a[0] == b[0]:
        return a if BITS[a] >= BITS[b] else b
    u, s = (a, b) if a[0] == "u" else (b, a)
    return s if BITS[s] > BITS[u] else {8: "int16", 16: "int32", 32: "int64", 64: "float"}[BITS[u]]


def _dtname(d):
    return d if isinstance(d, str) else getattr(d, "dtname", None) or {bool: "bool", int: "int64"}.get(d) or _gone("dtype %r" % (d,))


class Frac:
    """quotient of two integers in float64"""

    def __init__(self, a, b):
        self.a, self.b = a, b


class W:
    """scalar: val is a Python or symbolic integer (or truth value) already reduced to dtype dt"""
    shape, ndim, size = (), 0, 1

    def __init__(self, val, dt):
        self.val, self.dtype = _fit(val, dt), dt

    def __bool__(self):
        return bool(self.val != 0) if self.dtype != "bool" else bool(self.val)

    def __index__(self):
        return int(self.val)

    __int__ = __index__

    def astype(self, d):
        return W(self.val, _dtname(d))

    def item(self):
        return self.val

    def __invert__(self):
        if self.dtype == "bool":
            return W(_not(self.val), "bool")
        if self.dtype[0] == "u":
            return W((1 << BITS[self.dtype]) - 1 - self.val, self.dtype)
        return W(-1 - self.val, self.dtype)

    def __neg__(self):
        return W(-self.val, self.dtype)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "W(%r, %s)" % (self.val, self.dtype)


def _lift(x, like):
    if isinstance(x, W):
        return x
    if isinstance(x, bool) or type(x).__name__ == "SymBool":
        return W(x, "bool")
    if isinstance(x, int) or _sym(x):
        return W(x, like if like != "bool" else "int64")
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        return W(x.item(), str(x.dtype))
    return None


def _bin(f, kind):
    def g(a, b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            return _elementwise(g, a, b)
        la = _lift(a, b.dtype if isinstance(b, W) else "int64")
        lb = _lift(b, a.dtype if isinstance(a, W) else "int64")
        if la is None or lb is None:
            return NotImplemented
        dt = _promote(la.dtype, lb.dtype)
        if kind == "cmp":
            w = "int64" if dt in ("bool", "float") else dt
            return W(f(_fit(la.val, w), _fit(lb.val, w)), "bool")
        if kind == "shift":
            if lb.dtype == "bool":
                return _gone("shift by a truth value")
            n = lb.val
            if _sym(n):
                c = _core().CTX.determined(n.e)
                if c is None:
                    raise _core().Unsupported("symbolic shift amount")
                n = int(c)
            dt = dt if isinstance(b, W) else la.dtype
            if n < 0 or n >= BITS[dt]:
                return W(0, dt)
            x = _fit(la.val, dt)
            return W(x * (1 << n) if f == "l" else (x // (1 << n)), dt)
        if dt == "float":
            return _gone("mixed uint64 and int64")
        if kind == "bool2":
            return f(la, lb, dt)
        if dt == "bool":
            if f is _ADD:
                return W(_or(la.val, lb.val), "bool")
            if f is _MUL:
                return W(_and(la.val, lb.val), "bool")
            dt = "int64"
        return W(f(_fit(la.val, dt), _fit(lb.val, dt)), dt)
    return g


def _ADD(a, b):
    return a + b


def _MUL(a, b):
    if _sym(a) and _sym(b):
        from . import jaxshim
        k = _core()
        return k.wrap(jaxshim._mul(k.zi(a), k.zi(b)))
    return a * b


def _SUB(a, b):
    return a - b


def _bitand(la, lb, dt):
    if dt == "bool":
        return W(_and(la.val, lb.val), "bool")
    a, b = _fit(la.val, dt), _fit(lb.val, dt)
    for x, y in ((a, b), (b, a)):
        if isinstance(y, int):
            if isinstance(x, int):
                return W(x & y, dt)
            if y == (1 << BITS[dt]) - 1:
                return W(x, dt)
            if y == 0:
                return W(0, dt)
            if y & (y + 1) == 0:
                return W(x % (y + 1), dt)
            if y & (y - 1) == 0:
                return W((x // y) % 2 * y, dt)
    raise _core().Unsupported("bitwise and")


def _bitor(la, lb, dt):
    if dt == "bool":
        return W(_or(la.val, lb.val), "bool")
    a, b = _fit(la.val, dt), _fit(lb.val, dt)
    if isinstance(a, int) and isinstance(b, int):
        return W(a | b, dt)
    k = _core()
    for x, y in ((a, b), (b, a)):
        for n in (1, 2, 4, 8, 16, 24):
            if k.CTX.valid(k.z3.And(k.zi(x) % (1 << n) == 0, k.zi(y) >= 0, k.zi(y) < (1 << n)), timeout=2000):
                return W(x + y, dt)
    raise k.Unsupported("bitwise or of overlapping bits")


def _bitxor(la, lb, dt):
    if dt == "bool":
        return W(_or(_and(la.val, _not(lb.val)), _and(_not(la.val), lb.val)), "bool")
    a, b = _fit(la.val, dt), _fit(lb.val, dt)
    if isinstance(a, int) and isinstance(b, int):
        return W(a ^ b, dt)
    raise _core().Unsupported("bitwise xor")


def _fdiv(a, b):
    if _sym(b):
        raise _core().Unsupported("division by a symbolic scalar")
    return a // b


def _fmod(a, b):
    if _sym(b):
        raise _core().Unsupported("remainder by a symbolic scalar")
    return a % b


def _div(a, b):
    la, lb = _lift(a, "int64"), _lift(b, "int64")
    return NotImplemented if la is None or lb is None else Frac(_num(la.val), _num(lb.val))


_B = dict(add=(_ADD, "ring"), sub=(_SUB, "ring"), mul=(_MUL, "ring"), lshift=("l", "shift"), rshift=("r", "shift"), floordiv=(_fdiv, "ring"), mod=(_fmod, "ring"),
          lt=(lambda a, b: a < b, "cmp"), le=(lambda a, b: a <= b, "cmp"), gt=(lambda a, b: a > b, "cmp"), ge=(lambda a, b: a >= b, "cmp"),
          eq=(lambda a, b: a == b, "cmp"), ne=(lambda a, b: a != b, "cmp"), **{"and": (_bitand, "bool2"), "or": (_bitor, "bool2"), "xor": (_bitxor, "bool2")})
F = {}
for _k, (_f, _kind) in _B.items():
    F[_k] = _bin(_f, _kind)
    setattr(W, "__%s__" % _k, F[_k])
for _k in ("add", "sub", "mul", "and", "or", "xor", "lshift", "rshift", "floordiv", "mod"):
    setattr(W, "__r%s__" % _k, (lambda f: lambda a, b: f(b, a))(F[_k]))
W.__truediv__ = _div


class Arr:
    """one-dimensional array: a length and an element function over Python or symbolic positions"""
    ndim = 1

    def __init__(self, n, fn, dt, vals=None):
        self.n, self.fn, self.dtype, self.vals = n, fn, dt, vals

    @classmethod
    def of(cls, xs, dt):
        xs = [_fit(x.val if isinstance(x, W) else x, dt) for x in xs]

        def fn(i):
            if _sym(i):
                c = _core().CTX.determined(i.e)
                if c is None:
                    r = xs[-1]
                    for j in range(len(xs) - 2, -1, -1):
                        r = _ite(i <= j, xs[j], r)
                    return r
                i = int(c)
            return xs[min(max(i, 0), len(xs) - 1)]
        return cls(len(xs), fn, dt, xs)

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def _sym_len(self):
        return self.n

    def __len__(self):
        if _sym(self.n):
            raise _core().Unsupported("len of a symbolic array")
        return self.n

    def get(self, i):
        return self.fn(i)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return _gone("strided slice")
            a = 0 if i.start is None else _plain(i.start)
            b = self.n if i.stop is None else _plain(i.stop)
            if self.vals is not None and not _sym(a) and not _sym(b):
                return Arr.of(self.vals[a:b], self.dtype)
            b = b if bool(b <= self.n) else self.n
            return Arr(b - a, lambda j: self.fn(j + a), self.dtype)
        i = _plain(i)
        if not _sym(i) and not _sym(self.n):
            if i < 0:
                i += self.n
            if self.n == 0:
                raise TypeError("index into an empty array")
            return W(self.fn(min(max(i, 0), self.n - 1)), self.dtype)
        i = _ite(i < 0, i + self.n, i) if _sym(i) else (i if i >= 0 else i + self.n)
        return W(self.fn(_ite(i >= self.n, self.n - 1, i)), self.dtype)

    def set(self, i, x):
        i = _plain(i)
        x = x.val if isinstance(x, W) else x
        x = _fit(x, self.dtype)
        if self.vals is not None and not _sym(i):
            if i < 0:
                i += self.n
            vs = list(self.vals)
            if 0 <= i < self.n:
                vs[i] = x
            return Arr.of(vs, self.dtype)
        return Arr(self.n, lambda j: _ite(j == i, x, self.fn(j)), self.dtype)  # a write at or past n changes nothing that is read

    @property
    def at(self):
        a = self

        class _At:
            def __getitem__(self, i):
                return types.SimpleNamespace(set=lambda x: a.set(i, x), add=lambda x: a.set(i, a[i] + x))
        return _At()

    def __iter__(self):
        if self.vals is None:
            raise _core().Unsupported("iteration over a symbolic array")
        return iter([W(x, self.dtype) for x in self.vals])

    def __bytes__(self):
        if self.vals is None or any(_sym(x) for x in self.vals):
            raise _core().Unsupported("bytes of a symbolic array")
        return bytes(self.vals)

    def astype(self, d):
        d = _dtname(d)
        return Arr(self.n, lambda i: _fit(self.fn(i), d), d) if self.vals is None else Arr.of(self.vals, d)

    def max(self):
        return jmax(self)

    __hash__ = object.__hash__

    def __repr__(self):
        return "Arr(%r)" % (self.vals if self.vals is not None else self.n)


def _elementwise(g, a, b):
    n = a.n if isinstance(a, Arr) else b.n
    if _sym(n):
        raise _core().Unsupported("arithmetic on symbolic arrays")
    out = [g(a[i] if isinstance(a, Arr) else a, b[i] if isinstance(b, Arr) else b) for i in range(n)]
    return Arr.of(out, out[0].dtype if out else "int64")


for _k in F:
    setattr(Arr, "__%s__" % _k, F[_k])
for _k in ("add", "sub", "mul", "and", "or", "xor"):
    setattr(Arr, "__r%s__" % _k, (lambda f: lambda a, b: f(b, a))(F[_k]))


def _plain(x):
    return x.val if isinstance(x, W) else x


class Batch(list):
    """an array of more than one dimension: its rows"""

    @property
    def shape(self):
        return (len(self),) + (tuple(self[0].shape) if self else ())

    @property
    def ndim(self):
        return 1 + (self[0].ndim if self else 0)


FRAC_OBLIGATION = [None]


def _scalar(dt):
    def make(x=0):
        if isinstance(x, Frac):
            # floor of the correctly rounded quotient is the floor of the quotient for a < 2^50, b <= 2^32 and a/b < 2^16:
            # a/b is an integer or at least 2^-32 away from the next one, and rounding moves it by at most 2^-37
            if FRAC_OBLIGATION[0]:
                FRAC_OBLIGATION[0](x.a, x.b)
            if not _sym(x.a) and not _sym(x.b):
                return W(int(x.a / x.b), dt)
            from . import jaxshim
            k = _core()
            return W(k.wrap(jaxshim._divpair(k.zi(x.a), k.zi(x.b))[0]), dt)
        if isinstance(x, Arr):
            return x.astype(dt)
        return W(_plain(x), dt)
    make.dtname = dt
    make.__name__ = dt
    return make


def array(x, dtype=None):
    dt = _dtname(dtype) if dtype is not None else None
    if isinstance(x, (Arr, Batch)):
        return x if dt is None or isinstance(x, Batch) else x.astype(dt)
    if isinstance(x, W):
        return x if dt is None else W(x.val, dt)
    if isinstance(x, (bytes, bytearray)):
        return Arr.of(list(x), dt or "uint8")
    if isinstance(x, (list, tuple)):
        if x and isinstance(x[0], (list, tuple, Arr)):
            return Batch(array(r, dtype) for r in x)
        if dt is None:
            dt = x[0].dtype if x and isinstance(x[0], W) else ("bool" if x and isinstance(x[0], bool) else "int64")
        return Arr.of(x, dt)
    if hasattr(x, "n"):
        return x
    return W(x, dt or ("bool" if isinstance(x, bool) else "int64"))


def zeros(n, dtype="int64"):
    n = _plain(n[0] if isinstance(n, (tuple, list)) else n)
    dt = _dtname(dtype)
    if _sym(n):
        return Arr(n, lambda i: 0, dt)
    return Arr.of([0] * n, dt)


def full(n, x, dtype="int64"):
    n = _plain(n[0] if isinstance(n, (tuple, list)) else n)
    return Arr.of([_plain(x)] * n, _dtname(dtype))


def jmax(a):
    vs = [_plain(x) for x in a]
    m = vs[0]
    for x in vs[1:]:
        m = _ite(x > m, x, m) if _sym(x) or _sym(m) else max(x, m)
    return W(m, a.dtype if isinstance(a, (Arr, W)) else "int64")


def append(a, b):
    return concatenate([a, b if isinstance(b, Arr) else Arr.of([b], a.dtype)])


def concatenate(xs, axis=0):
    xs = list(xs)
    if all(x.vals is not None for x in xs):
        return Arr.of([e for x in xs for e in x.vals], xs[0].dtype)
    out = xs[0]
    for b in xs[1:]:
        a = out
        out = Arr(a.n + b.n, (lambda a, b: lambda i: _ite(i < a.n, a.fn(i), b.fn(i - a.n)))(a, b), a.dtype)
    return out


def where(p, a, b):
    if isinstance(p, Arr) or isinstance(a, Arr) or isinstance(b, Arr):
        return _gone("where on arrays")
    a, b = _lift(a, b.dtype if isinstance(b, W) else "int64"), _lift(b, a.dtype if isinstance(a, W) else "int64")
    dt = _promote(a.dtype, b.dtype)
    if dt == "bool":
        p = _plain(p)
        return W(_or(_and(p, a.val), _and(_not(p), b.val)), "bool")
    return W(_ite(_fit(_plain(p), "bool"), _fit(a.val, dt), _fit(b.val, dt)), dt)


def argmax(a, axis=0, index_dtype="int32"):
    """first index of a greatest element; truth values, few enough to look at"""
    vs = [(_plain(x), x.dtype) for x in a]
    if all(d == "bool" for _, d in vs):
        r = 0
        for i in range(len(vs) - 1, -1, -1):
            r = _ite(vs[i][0], i, r)
        return W(r, _dtname(index_dtype))
    if any(_sym(x) for x, _ in vs):
        return _gone("argmax of symbolic numbers")
    xs = [x for x, _ in vs]
    return W(xs.index(max(xs)), _dtname(index_dtype))


def argmin(a, axis=0):
    xs = [_num(_plain(x)) for x in a]
    return W(xs.index(min(xs)), "int64")


HOOK = {"while": None, "fori": None}


def cond(p, f, g, *ops):
    return f(*ops) if bool(p) else g(*ops)


def switch(i, branches, *ops):
    n = len(branches)
    i = _plain(i)
    if not _sym(i):
        return branches[min(max(i, 0), n - 1)](*ops)
    for k in range(n - 1):
        if bool(i <= k):
            return branches[k](*ops)
    return branches[-1](*ops)


def while_loop(c, b, s):
    if HOOK["while"] is not None:
        return HOOK["while"](c, b, s)
    s = tuple(_lift(x, "int64") if isinstance(x, (bool, int)) else x for x in s) if isinstance(s, tuple) else s
    while bool(c(s)):
        s = b(s)
    return s


def fori_loop(lo, hi, body, s):
    if HOOK["fori"] is not None:
        return HOOK["fori"](lo, hi, body, s)
    for i in range(int(_plain(lo)), int(_plain(hi))):
        s = body(W(i, "int64"), s)
    return s


def _rows(t, i):
    if isinstance(t, tuple):
        r = [_rows(x, i) for x in t]
        return type(t)(*r) if hasattr(t, "_fields") else tuple(r)
    return t[i]


def _count(t):
    return _count(t[0]) if isinstance(t, tuple) else len(t)


def _join(ts):
    if isinstance(ts[0], tuple):
        return tuple(_join([t[k] for t in ts]) for k in range(len(ts[0])))
    if isinstance(ts[0], W):
        return Arr.of(ts, ts[0].dtype)
    return Batch(ts)


def vmap(f, *a, **kw):
    if a or kw:
        return _gone("vmap with axes")

    def g(*args):
        return _join([f(*[_rows(x, i) for x in args]) for i in range(_count(args[0]))])
    return g


def minimum(a, b):
    return where(_f("lt")(a, b), a, b)


def maximum(a, b):
    return where(_f("lt")(a, b), b, a)


def clip(a, a_min=None, a_max=None, **k):
    lo, hi = k.get("min", a_min), k.get("max", a_max)
    a = a if lo is None else maximum(a, lo)
    return a if hi is None else minimum(a, hi)


class _Ns:
    def __init__(self, name, **kw):
        self.__dict__.update(kw)
        self._name = name

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        _gone("%s.%s" % (self._name, k))


def _f(k):
    def g(a, b):
        if not isinstance(a, (W, Arr)):
            a = _lift(a, b.dtype if isinstance(b, (W, Arr)) else "int64")
        return F[k](a, b)
    return g


jnp = _Ns("jnp", array=array, asarray=array, zeros=zeros, full=full, max=jmax, append=append, concatenate=concatenate, stack=lambda xs, axis=0: Batch(xs),
          mod=_f("mod"), remainder=_f("mod"), floor_divide=_f("floordiv"), add=_f("add"), subtract=_f("sub"), multiply=_f("mul"), logical_not=lambda a: W(_not(_fit(_plain(a), "bool")), "bool"),
          logical_and=lambda a, b: W(_and(_fit(_plain(a), "bool"), _fit(_plain(b), "bool")), "bool"), logical_or=lambda a, b: W(_or(_fit(_plain(a), "bool"), _fit(_plain(b), "bool")), "bool"),
          bitwise_and=_f("and"), bitwise_or=_f("or"), left_shift=_f("lshift"), right_shift=_f("rshift"), less=_f("lt"), greater=_f("gt"), greater_equal=_f("ge"), less_equal=_f("le"),
          equal=_f("eq"), where=where, argmax=argmax, argmin=argmin, ndarray=Arr, minimum=minimum, maximum=maximum, clip=clip, not_equal=_f("ne"), bitwise_xor=_f("xor"), **{k: _scalar(k) for k in BITS if k != "bool"})
jnp.bool_ = _scalar("bool")
lax = _Ns("lax", cond=cond, switch=switch, while_loop=while_loop, fori_loop=fori_loop, argmax=argmax, argmin=argmin, select=where)
jax = _Ns("jax", vmap=vmap, jit=lambda f=None, **kw: f if f is not None else (lambda g: g), numpy=jnp, lax=lax,
          ops=_Ns("jax.ops", index_update=lambda a, i, x: a.set(i, x)), config=_Ns("jax.config", update=lambda *a: None))


@contextlib.contextmanager
def using(mod, while_=None, fori=None, frac=None):
    """run mod's code against this module"""
    saved = {k: mod.__dict__.get(k) for k in ("jax", "jnp", "lax", "ndarray") if k in mod.__dict__}
    old = dict(HOOK), FRAC_OBLIGATION[0]
    for k, m in (("jax", jax), ("jnp", jnp), ("lax", lax), ("ndarray", Arr)):
        if k in saved:
            mod.__dict__[k] = m
    HOOK["while"], HOOK["fori"], FRAC_OBLIGATION[0] = while_, fori, frac
    try:
        yield
    finally:
        mod.__dict__.update(saved)
        HOOK.update(old[0])
        FRAC_OBLIGATION[0] = old[1]
