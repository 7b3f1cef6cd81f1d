"""Symbolic tensors: concrete rank, symbolic sizes, element function index -> term.

A SymTensor is a torch.Tensor subclass, so real torch.nn.Module /
torch.distributions / repository code runs on it unchanged; every primitive
tensor operation is intercepted (``__torch_function__``, method overrides and
namespace patches) and given its *contract*: output shape, and output element
as a term over input elements.  An operation without a contract raises
Unsupported - nothing ever falls through to uninterpreted memory.
"""
import itertools
import math
import torch
from .core import (z3, CTX, SymBool, SymInt, SymReal, Unsupported, conc, is_sym, rdiv, round_half_even, rv, to_bool,
                   to_int, to_real, wrap, zb, zi, zr)
from . import axioms as A

_real_Tensor_getitem = torch.Tensor.__getitem__
UNROLL = 32
OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def kind_of(dtype):
    if dtype is torch.bool:
        return "b"
    if dtype.is_floating_point:
        return "r"
    if dtype.is_complex:
        raise Unsupported("complex dtype")
    return "i"


def cast(e, k):
    return {"r": to_real, "i": to_int, "b": to_bool}[k](e)


def dsimp(d):
    """normalise a dimension term to int | z3 Int"""
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    e = z3.simplify(zi(d))
    c = conc(e)
    return int(c) if c is not None else e


def dz(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def dwrap(d):
    return d if isinstance(d, int) else wrap(d)


def dprod(ds):
    r = 1
    for d in ds:
        if isinstance(r, int) and isinstance(d, int):
            r = r * d
        elif isinstance(r, int) and r == 1:
            r = d
        elif isinstance(d, int) and d == 1:
            pass
        else:
            r = dz(r) * dz(d)
    return dsimp(r)


def deq(a, b, fork=False):
    """are two dimension terms equal on this path"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    c = dz(a) == dz(b)
    if fork:
        return CTX.branch(c)
    return CTX.valid(c)


class SymSize(tuple):
    """shape tuple (torch.Size cannot hold symbolic ints)"""

    def numel(self):
        return dwrap(dprod([dsimp(x) for x in self]))

    def __add__(self, o):
        return SymSize(tuple(self) + tuple(o))

    def __radd__(self, o):
        return SymSize(tuple(o) + tuple(self))

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return SymSize(r) if isinstance(i, slice) else r

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)) or len(o) != len(self):
            return False
        return all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(tuple(self))


class SymTensor(torch.Tensor):
    _is_symtensor = True

    @staticmethod
    def __new__(cls, groups, fn, dtype=torch.float32, root=None):
        t = torch.Tensor._make_subclass(cls, _EMPTY)
        return t

    def __init__(self, groups, fn, dtype=torch.float32, root=None):
        gs = []
        for g in groups:
            if isinstance(g, (int, z3.ExprRef)):
                g = (g,)
            g = tuple(dsimp(d) for d in g)
            g = tuple(d for d in g if not (isinstance(d, int) and d == 1))
            gs.append(g)
        d = self.__dict__
        d["_groups"] = tuple(gs)
        d["_rawfn"] = fn
        d["_memo"] = {}
        d["_dt"] = dtype
        d["_kind"] = kind_of(dtype)
        d["_root"] = root if root is not None else self
        d["_ver"] = 0
        d["_rootver"] = d["_root"].__dict__["_ver"]
        d["_rg"] = False
        d["_history"] = None

    # --- element access -------------------------------------------------
    @property
    def phys(self):
        return [d for g in self._groups for d in g]

    def _fn(self, pidx):
        d = self.__dict__
        if d["_root"].__dict__["_ver"] != d["_rootver"] and d["_root"] is not self:
            raise Unsupported("read of a view whose base was modified in place")
        memo = d["_memo"]
        key = tuple(i.get_id() for i in pidx)
        hit = memo.get(key)
        if hit is not None:
            return hit[1]
        v = d["_rawfn"](*pidx)
        v = z3.simplify(v)
        memo[key] = (pidx, v)
        return v

    def snap(self):
        """closure of the current contents (immune to later in-place updates)"""
        raw, memo = self.__dict__["_rawfn"], self.__dict__["_memo"]
        d = self.__dict__
        if d["_root"].__dict__["_ver"] != d["_rootver"] and d["_root"] is not self:
            raise Unsupported("read of a view whose base was modified in place")

        def f(*pidx):
            key = tuple(i.get_id() for i in pidx)
            hit = memo.get(key)
            if hit is not None:
                return hit[1]
            v = z3.simplify(raw(*pidx))
            memo[key] = (pidx, v)
            return v
        return f

    def el(self, *idx):
        """element at a logical index (ints / SymInt / z3 ints)"""
        assert len(idx) == len(self._groups), (len(idx), len(self._groups))
        p = []
        for i, g in zip(idx, self._groups):
            p += split_index(i, g)
        return self._fn(p)

    # --- torch protocol ---------------------------------------------------
    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", str(func))
        if name == "__get__":
            name = "get_" + func.__self__.__name__
        elif name == "__set__":
            name = "set_" + func.__self__.__name__
        f = OPS.get(name)
        if f is None:
            raise Unsupported("torch operation without a contract: %s" % name)
        return f(*args, **(kwargs or {}))

    @property
    def shape(self):
        return SymSize(dwrap(dprod(g)) for g in self._groups)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def dims(self):
        return [dprod(g) for g in self._groups]

    @property
    def ndim(self):
        return len(self._groups)

    def dim(self):
        return len(self._groups)

    def __len__(self):
        d = self.dims()[0]
        if isinstance(d, int):
            return d
        v = CTX.determined(d)
        if v is None:
            raise Unsupported("len() of a symbolic dimension")
        return v

    def numel(self):
        return dwrap(dprod(self.phys))

    nelement = numel

    @property
    def dtype(self):
        return self._dt

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def layout(self):
        return torch.strided

    @property
    def is_cuda(self):
        return False

    @property
    def is_sparse(self):
        return False

    @property
    def is_leaf(self):
        return self._history is None

    @property
    def is_quantized(self):
        return False

    @property
    def is_complex_(self):
        return False

    def is_floating_point(self):
        return self._dt.is_floating_point

    def is_complex(self):
        return False

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        self.__dict__["_rg"] = v

    def requires_grad_(self, v=True):
        self.__dict__["_rg"] = v
        return self

    @property
    def grad(self):
        return None

    @property
    def grad_fn(self):
        return self._history

    @property
    def data(self):
        return SymTensor(self._groups, self.snap(), self._dt)

    @data.setter
    def data(self, v):
        self._assign(lift(v))

    @property
    def T(self):
        return OPS["permute"](self, *reversed(range(self.ndim)))

    mT = property(lambda self: OPS["transpose"](self, -1, -2))

    def is_contiguous(self, *a, **k):
        return True

    def type(self, dtype=None):
        if dtype is None:
            raise Unsupported("type()")
        return OPS["to"](self, dtype)

    def _sym_scalar(self):
        if self.numel() != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return wrap(self._fn([]))

    def item(self):
        return self._sym_scalar()

    def __bool__(self):
        n = self.numel()
        if not (isinstance(n, int) and n == 1):
            if not (n == 1):
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
            return CTX.branch(to_bool(self._fn([z3.IntVal(0)] * len(self.phys))))
        return CTX.branch(to_bool(self._fn([])))

    def __float__(self):
        return float(self._sym_scalar())

    def __int__(self):
        return int(self._sym_scalar())

    def __index__(self):
        return self._sym_scalar().__index__()

    def tolist(self):
        if self.ndim == 0:
            return self._sym_scalar()
        return [self[i].tolist() for i in range(len(self))]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def __hash__(self):
        return id(self)

    def __repr__(self, *a, **k):
        return "SymTensor(%s, %s)" % (list(self.dims()), self._dt)

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return SymTensor(self._groups, self.snap(), self._dt)

    def __reduce_ex__(self, p):
        raise Unsupported("pickling a symbolic tensor")

    def backward(self, *a, **k):
        raise Unsupported("autograd on symbolic tensors")

    def register_hook(self, h):
        return None

    def numpy(self):
        raise Unsupported("numpy() of a symbolic tensor")

    def _assign(self, new):
        """in-place replacement of all contents"""
        d = self.__dict__
        if d["_root"] is not self:
            raise Unsupported("in-place update of a view")
        fn = new.snap()
        if len(new._groups) == len(self._groups) and new._groups != self._groups:
            new = match_groups(new, self._groups)
            if new is None:
                raise Unsupported("in-place assignment changes shape")
            fn = new.snap()
        k = self._kind
        d["_rawfn"] = (lambda *p: cast(fn(*p), k)) if new._kind != k else fn
        d["_memo"] = {}
        d["_ver"] += 1
        return self


_EMPTY = torch.empty(0)


def _monomials(e):
    e = z3.simplify(e, som=True)
    return list(e.children()) if z3.is_add(e) else [e]


def _divide(m, d):
    """monomial / d when syntactically divisible"""
    fs = list(m.children()) if z3.is_mul(m) else [m]
    if isinstance(d, int):
        for k, f in enumerate(fs):
            if z3.is_int_value(f) and f.as_long() % d == 0:
                rest = fs[:k] + fs[k + 1:] + [z3.IntVal(f.as_long() // d)]
                return z3.simplify(z3.Product(rest))
        return None
    for k, f in enumerate(fs):
        if f.eq(d):
            rest = fs[:k] + fs[k + 1:]
            return z3.Product(rest) if len(rest) > 1 else (rest[0] if rest else z3.IntVal(1))
    return None


def _unjoin(i, g):
    """recognise an index already of the form (p0*d1 + p1)*d2 + p2 with p_k in range: no div/mod needed"""
    key = ("unjoin", i.get_id(), tuple(d if isinstance(d, int) else d.get_id() for d in g), len(CTX.path),
           tuple(c.get_id() for c in CTX.scope))
    if key in CTX.cache:
        return CTX.cache[key][0]
    res = None
    out, cur = [], i
    for d in reversed(g[1:]):
        if not isinstance(d, int) and not z3.is_const(d):
            break
        q, r = [], []
        for m in _monomials(cur):
            x = _divide(m, d)
            (q if x is not None else r).append(x if x is not None else m)
        if not q:
            break
        rest = z3.Sum(r) if r else z3.IntVal(0)
        if not CTX.valid(z3.And(rest >= 0, rest < dz(d))):
            break
        out.append(z3.simplify(rest))
        cur = z3.simplify(z3.Sum(q))
    else:
        res = [cur] + out[::-1]
    CTX.cache[key] = (res, i, g, list(CTX.scope))
    return res


def split_index(i, g):
    """logical index -> physical indices for a factor group"""
    if isinstance(i, tuple):
        assert len(i) == len(g)
        return [zi(x) for x in i]
    if len(g) == 0:
        return []
    i = zi(i)
    if len(g) == 1:
        return [i]
    hit = CTX.cache.get(("joined", i.get_id())) or CTX.cache.get(("joined", z3.simplify(i).get_id()))
    if hit is not None and len(hit[1]) == len(g) and all(deq(a, b) for a, b in zip(hit[1], g)):
        return list(hit[0])
    ps = _unjoin(i, g)
    if ps is not None:
        return ps
    out = []
    rest = i
    for k in range(len(g) - 1):
        m = dz(dprod(g[k + 1:]))
        out.append(rest / m)
        rest = rest % m
    out.append(rest)
    return out


def join_index(ps, g):
    """physical indices of a group -> flat logical index"""
    r = z3.IntVal(0)
    for p, d in zip(ps, g):
        r = r * dz(d) + p
    r = z3.simplify(r)
    if len(g) > 1:
        CTX.cache[("joined", r.get_id())] = (list(ps), tuple(g), r)
    return r


def group_slices(groups):
    out, o = [], 0
    for g in groups:
        out.append((o, o + len(g)))
        o += len(g)
    return out


def match_groups(t, groups):
    """Re-express t (same logical sizes assumed) over the factor groups given; None if sizes are not provably equal."""
    if t._groups == tuple(groups):
        return t
    if len(t._groups) != len(groups):
        return None
    maps = []
    for g, h in zip(t._groups, groups):
        if g == h or (len(g) == len(h) and all(deq(a, b) for a, b in zip(g, h))):
            maps.append(lambda ps, g=g, h=h: list(ps))
        else:
            if not deq(dprod(g), dprod(h)):
                return None
            if len(g) == 1:
                maps.append(lambda ps, g=g, h=h: [join_index(ps, h)])
            else:
                maps.append(lambda ps, g=g, h=h: split_index(join_index(ps, h), g))
    sl = group_slices(groups)
    fn = t.snap()

    def f(*p):
        q = []
        for m, (a, b) in zip(maps, sl):
            q += m(p[a:b])
        return fn(*q)
    return SymTensor(groups, f, t._dt)


def flat_groups(t):
    """make every logical dim a single factor"""
    if all(len(g) <= 1 for g in t._groups):
        return t
    gs = [(dprod(g),) if len(g) > 1 else g for g in t._groups]
    fn = t.snap()
    og = t._groups
    sl = group_slices(gs)

    def f(*p):
        q = []
        for g, (a, b), ng in zip(og, sl, gs):
            if len(g) <= 1:
                q += list(p[a:b])
            else:
                q += split_index(p[a], g)
        return fn(*q)
    return SymTensor(gs, f, t._dt)


_const_n = [0]


def lift(x, dtype=None):
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        return lift_real(x)
    if isinstance(x, SymBool):
        e = x.e
        return SymTensor((), lambda: e, dtype or torch.bool)
    if isinstance(x, SymInt):
        e = x.e
        return SymTensor((), lambda: e, dtype or torch.int64)
    if isinstance(x, SymReal):
        e = x.e
        return SymTensor((), lambda: e, dtype or torch.get_default_dtype())
    if isinstance(x, bool):
        return SymTensor((), lambda: z3.BoolVal(x), dtype or torch.bool)
    if isinstance(x, int):
        return SymTensor((), lambda: z3.IntVal(x), dtype or torch.int64)
    if isinstance(x, float):
        e = rv(x)
        return SymTensor((), lambda: e, dtype or torch.get_default_dtype())
    try:
        import numpy as np
        if isinstance(x, (np.generic, np.ndarray)):
            return lift_real(torch.as_tensor(x))
    except ImportError:
        pass
    if z3.is_expr(x):
        return lift(wrap(x))
    raise Unsupported("cannot lift %r to a tensor" % (type(x),))


def lift_real(x):
    k = kind_of(x.dtype)
    shape = list(x.shape)
    n = x.numel()
    flat = None
    if n > 0:
        first = x.detach().reshape(-1)[:1]
        if bool((x.detach() == first).all()):
            c = first.item()
            e = rv(c) if k == "r" else (z3.IntVal(int(c)) if k == "i" else z3.BoolVal(bool(c)))
            return SymTensor(shape, lambda *p: e, x.dtype)
    vals = x.detach().reshape(-1).tolist() if n <= 4096 else None
    gs = [(d,) if d != 1 else () for d in shape]
    dims = [d for d in shape if d != 1]
    mkv = {"r": rv, "i": lambda v: z3.IntVal(int(v)), "b": lambda v: z3.BoolVal(bool(v))}[k]
    _const_n[0] += 1
    uf = z3.Function("const_%d_%x" % (n, x.data_ptr()), *([z3.IntSort()] * len(dims) + [
        {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]])) if dims else None

    def f(*p):
        cs = [conc(z3.simplify(i)) for i in p]
        if all(c is not None for c in cs):
            o = 0
            for c, d in zip(cs, dims):
                o = o * d + int(c)
            if vals is None:
                return mkv(x.detach().reshape(-1)[o].item())
            if not 0 <= o < n:
                return mkv(vals[0])
            return mkv(vals[o])
        if vals is not None and n <= 300:
            def build(j, off):
                if j == len(dims):
                    return mkv(vals[off])
                if cs[j] is not None:
                    return build(j + 1, off * dims[j] + int(cs[j]))
                r = build(j + 1, off * dims[j] + dims[j] - 1)
                for q in range(dims[j] - 2, -1, -1):
                    r = z3.If(p[j] == q, build(j + 1, off * dims[j] + q), r)
                return r
            return build(0, 0)
        return uf(*p)
    return SymTensor(gs, f, x.dtype)


def has_sym(x, depth=0):
    if isinstance(x, (SymTensor, SymInt, SymReal, SymBool)):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, slice):
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    if isinstance(x, dict) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


# ---------------------------------------------------------------- creation
def fresh_tensor(name, shape, dtype=torch.float32, lo=None, hi=None, lo_strict=False, pred=None):
    """arbitrary tensor: one uninterpreted function of its logical index"""
    k = kind_of(dtype)
    dims = [dsimp(d) for d in shape]
    live = [d for d in dims if not (isinstance(d, int) and d == 1)]
    sort = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[k]
    if live:
        uf = z3.Function(name, *([z3.IntSort()] * len(live) + [sort]))
    else:
        cst = z3.Const(name, sort)
    if dtype == torch.uint8 and lo is None:
        lo, hi = 0, 255
    z = zr if k == "r" else zi

    def f(*p):
        e = uf(*p) if live else cst
        if lo is not None:
            CTX.fact(e > z(lo) if lo_strict else e >= z(lo))
        if hi is not None:
            CTX.fact(e <= z(hi))
        if pred is not None:
            CTX.fact(pred(e, *p))
        return e
    t = SymTensor(dims, f, dtype)
    t.__dict__["_name"] = name
    return t


def from_fn(shape, fn, dtype):
    """tensor defined by fn over logical indices"""
    dims = [dsimp(d) for d in shape]
    live = [i for i, d in enumerate(dims) if not (isinstance(d, int) and d == 1)]

    def f(*p):
        full = [z3.IntVal(0)] * len(dims)
        for j, i in enumerate(live):
            full[i] = p[j]
        return fn(*full)
    return SymTensor(dims, f, dtype)


def const_tensor(shape, e, dtype):
    return SymTensor([dsimp(d) for d in shape], lambda *p: e, dtype)


def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        return list(a[0])
    return list(a)


def numval(v, k):
    return cast(zr(v) if isinstance(v, (float, SymReal)) else (zb(v) if isinstance(v, (bool, SymBool)) else zi(v)), k)


def _mk_full(val):
    def f(*a, dtype=None, device=None, requires_grad=False, **kw):
        dt = dtype or torch.get_default_dtype()
        return const_tensor(_shape_args(a or (kw["size"],)), numval(val, kind_of(dt)), dt)
    return f


OPS["zeros"] = _mk_full(0)
OPS["ones"] = _mk_full(1)
OPS["empty"] = None  # set below


def _empty(*a, dtype=None, **kw):
    CTX.fresh += 1
    return fresh_tensor("empty!%d" % CTX.fresh, _shape_args(a), dtype or torch.get_default_dtype())


OPS["empty"] = _empty


@op("full")
def _full(size, fill_value, dtype=None, **kw):
    v = fill_value
    if isinstance(v, torch.Tensor):
        v = lift(v)._sym_scalar()
    dt = dtype or (torch.bool if isinstance(v, (bool, SymBool)) else torch.int64 if isinstance(v, (int, SymInt)) else torch.get_default_dtype())
    return const_tensor(size, numval(v, kind_of(dt)), dt)


def _like(val):
    def f(x, dtype=None, **kw):
        x = lift(x)
        dt = dtype or x._dt
        e = numval(val, kind_of(dt))
        return SymTensor(x._groups, lambda *p: e, dt)
    return f


OPS["zeros_like"] = _like(0)
OPS["ones_like"] = _like(1)


@op("full_like")
def _full_like(x, fill_value, dtype=None, **kw):
    return _like(fill_value)(x, dtype)


@op("empty_like")
def _empty_like(x, dtype=None, **kw):
    x = lift(x)
    return _empty(list(x.shape), dtype=dtype or x._dt)


def _rand(name, lo, hi, shape, dtype):
    CTX.fresh += 1
    return fresh_tensor("%s!%d" % (name, CTX.fresh), shape, dtype or torch.get_default_dtype(), lo, hi)


def _rand_inplace(name, d0, d1):
    def f(x, a=d0, b=d1, generator=None, **k):
        if name == "rand":
            a, b = k.get("from", a), k.get("to", b)
            return x._assign(_rand("rand", a, b, x.shape, x._dt))
        u = _rand("randn", None, None, x.shape, x._dt)
        return x._assign(u * k.get("std", b) + k.get("mean", a))
    return f


OPS["uniform_"] = _rand_inplace("rand", 0.0, 1.0)
OPS["normal_"] = _rand_inplace("randn", 0.0, 1.0)
OPS["rand_like"] = lambda x, dtype=None, **k: _rand("rand", 0, 1, lift(x).shape, dtype or lift(x)._dt)
OPS["randn_like"] = lambda x, dtype=None, **k: _rand("randn", None, None, lift(x).shape, dtype or lift(x)._dt)
OPS["rand"] = lambda *a, dtype=None, **k: _rand("rand", 0, 1, _shape_args(a or (k.get("size"),)), dtype)
OPS["randn"] = lambda *a, dtype=None, **k: _rand("randn", None, None, _shape_args(a or (k.get("size"),)), dtype)
OPS["randint"] = lambda *a, dtype=None, size=None, **k: _rand(
    "randint", a[0] if len(a) - (size is None) == 2 else 0, (a[1] if len(a) - (size is None) == 2 else a[0]) - 1,
    size if size is not None else a[-1], dtype or torch.int64)


@op("new_zeros")
def _new_zeros(x, *a, dtype=None, **k):
    return const_tensor(_shape_args(a), numval(0, kind_of(dtype or x.dtype)), dtype or x.dtype)


@op("new_ones")
def _new_ones(x, *a, dtype=None, **k):
    return const_tensor(_shape_args(a), numval(1, kind_of(dtype or x.dtype)), dtype or x.dtype)


@op("new_full")
def _new_full(x, size, fill_value, dtype=None, **k):
    return const_tensor(size, numval(fill_value, kind_of(dtype or x.dtype)), dtype or x.dtype)


@op("new_empty")
def _new_empty(x, *a, dtype=None, **k):
    return _empty(*a, dtype=dtype or x.dtype)


@op("tensor", "as_tensor")
def _tensor(data, dtype=None, device=None, requires_grad=False):
    if isinstance(data, (list, tuple)):
        return _to(OPS["stack"]([_tensor(d, dtype) for d in data]), dtype) if data else torch.tensor(data, dtype=dtype)
    t = lift(data)
    return _to(SymTensor(t._groups, t.snap(), t._dt), dtype)


def ceil_div(a, b):
    return -((-a) / b)


@op("arange")
def _arange(*a, dtype=None, device=None, start=0, end=None, step=1, **k):
    if len(a) == 1:
        end = a[0]
    elif len(a) == 2:
        start, end = a
    elif len(a) == 3:
        start, end, step = a
    if any(isinstance(v, (float, SymReal)) for v in (start, end, step)):
        raise Unsupported("arange over reals")
    s, e, st = zi(start), zi(end), zi(step)
    if not CTX.valid(st > 0):
        raise Unsupported("arange step")
    n = ceil_div(e - s, st) if conc(z3.simplify(st)) != 1 else e - s
    dt = dtype or torch.int64
    kk = kind_of(dt)
    return from_fn([n], lambda i: cast(s + i * st, kk), dt)


@op("linspace")
def _linspace(start, end, steps, dtype=None, **k):
    n = dsimp(steps)
    s, e = zr(start), zr(end)

    def f(i):
        return z3.If(dz(n) == 1, s, s + (e - s) * rdiv(to_real(i), to_real(dz(n) - 1))) if not isinstance(n, int) else (
            s if n == 1 else s + (e - s) * rdiv(to_real(i), rv(n - 1)))
    return from_fn([n], f, dtype or torch.get_default_dtype())


@op("eye")
def _eye(n, m=None, dtype=None, **k):
    m = n if m is None else m
    dt = dtype or torch.get_default_dtype()
    kk = kind_of(dt)
    return from_fn([n, m], lambda i, j: cast(i == j, kk), dt)


@op("diag", "diag_embed")
def _diag(t, diagonal=0):
    t = lift(t)
    if t.ndim != 1 or not (isinstance(diagonal, int) and diagonal == 0):
        raise Unsupported("diag of a matrix")
    t = flat_groups(t)
    n = t.dims()[0]
    return from_fn([n, n], lambda i, j: z3.If(i == j, t.el(i), cast(z3.IntVal(0), t._kind)), t._dt)


@op("meshgrid")
def _meshgrid(*ts, indexing=None):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = [flat_groups(lift(t)) for t in ts]
    n = len(ts)
    dims = [t.dims()[0] for t in ts]
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = [dims[o] for o in order]
    outs = []
    for j, t in enumerate(ts):
        pos = order.index(j)
        outs.append(from_fn(shape, lambda *idx, t=t, pos=pos: t.el(idx[pos]), t._dt))
    return tuple(outs)


# ---------------------------------------------------------------- elementwise
def bcast(ts):
    """Broadcast tensors to common groups; returns (groups, [fn on result phys])"""
    nd = max(t.ndim for t in ts)
    groups = []
    sel = [[None] * nd for _ in ts]
    for pos in range(nd):
        best = None
        for t in ts:
            j = pos - (nd - t.ndim)
            if j < 0:
                continue
            g = t._groups[j]
            if len(g) == 0:
                continue
            if best is None:
                best = g
            elif g == best:
                pass
            else:
                # equal sizes?
                if len(g) == len(best) and all(deq(a, b) for a, b in zip(g, best)):
                    pass
                elif deq(dprod(g), dprod(best), fork=False):
                    if len(g) > len(best):
                        best = g
                else:
                    a, b = dz(dprod(g)), dz(dprod(best))
                    if CTX.branch(a == b):
                        if len(g) > len(best):
                            best = g
                    elif CTX.branch(b == 1):
                        best = g
                    elif CTX.branch(a == 1):
                        pass
                    else:
                        raise RuntimeError("The size of tensor a (%s) must match the size of tensor b (%s) at dimension %d" % (a, b, pos))
        groups.append(best if best is not None else ())
    sl = group_slices(groups)
    fns = []
    for t in ts:
        maps = []
        for pos in range(nd):
            j = pos - (nd - t.ndim)
            if j < 0:
                continue
            g, h = t._groups[j], groups[pos]
            a, b = sl[pos]
            if len(g) == 0:
                continue
            if g == h or (len(g) == len(h) and all(deq(x, y) for x, y in zip(g, h))):
                maps.append(lambda p, a=a, b=b: list(p[a:b]))
            elif deq(dprod(g), dprod(h)):
                if len(g) == 1:
                    maps.append(lambda p, a=a, b=b, h=h: [join_index(p[a:b], h)])
                else:
                    maps.append(lambda p, a=a, b=b, h=h, g=g: split_index(join_index(p[a:b], h), g))
            elif deq(dprod(g), 1):
                maps.append(lambda p, g=g: [z3.IntVal(0)] * len(g))
            else:
                raise Unsupported("broadcast size mismatch")
        fn = t.snap()

        def f(p, fn=fn, maps=maps):
            q = []
            for m in maps:
                q += m(p)
            return fn(*q)
        fns.append(f)
    return groups, fns


_DUMMY = {}


def result_type(ts, raw):
    ds = []
    for t, r in zip(ts, raw):
        if isinstance(r, torch.Tensor):
            key = (t._dt, t.ndim > 0)
            if key not in _DUMMY:
                _DUMMY[key] = torch.empty((1,) if t.ndim > 0 else (), dtype=t._dt)
            ds.append(_DUMMY[key])
        else:
            if t._kind == "b":
                ds.append(True)
            elif t._kind == "i":
                ds.append(1)
            else:
                ds.append(1.0)
    if len(ds) == 1:
        return ds[0].dtype if isinstance(ds[0], torch.Tensor) else torch.get_default_dtype()
    r = _real_result_type(ds[0], ds[1])
    for d in ds[2:]:
        r = _real_result_type(torch.empty(1, dtype=r), d)
    return r


_real_result_type = torch.result_type


def ew(fn, *xs, out_dtype=None, in_kind=None):
    """elementwise op; fn over z3 terms all cast to the computation kind"""
    ts = [lift(x) for x in xs]
    dt = result_type(ts, xs)
    ik = in_kind or kind_of(dt)
    if in_kind == "r" and not dt.is_floating_point:
        dt = torch.get_default_dtype()
    groups, fns = bcast(ts)
    odt = out_dtype or dt
    ok = kind_of(odt)

    def f(*p):
        return cast(fn(*[cast(g(p), ik) for g in fns]), ok)
    return SymTensor(groups, f, odt)


def _binop(names, fn, in_kind=None, out_dtype=None, refl=None):
    def f(a, b, *, out=None, **kw):
        if not _tensorish(a) or not _tensorish(b):
            return NotImplemented
        return ew(fn, a, b, in_kind=in_kind, out_dtype=out_dtype)
    for n in names:
        OPS[n] = f
    if refl:
        def r(a, b):
            if not _tensorish(b):
                return NotImplemented
            return ew(fn, b, a, in_kind=in_kind, out_dtype=out_dtype)
        for n in refl:
            OPS[n] = r

    def ip(a, b, **kw):
        if not isinstance(a, SymTensor):
            raise Unsupported("in-place symbolic update of a concrete tensor")
        return a._assign(_expand_to(f(a, b, **kw), a))
    for n in names:
        if not n.startswith("_"):
            OPS[n + "_"] = ip
        else:
            OPS["__i" + n[2:]] = ip


def _tensorish(x):
    return isinstance(x, (torch.Tensor, int, float, SymInt, SymReal, SymBool)) or hasattr(x, "dtype")


def _expand_to(t, like):
    if t.ndim != like.ndim:
        raise Unsupported("in-place op changing rank")
    return t


def zmul(a, b):
    ca, cb = conc(a), conc(b)
    if ca == 0 or cb == 0:
        return z3.IntVal(0) if a.is_int() else rv(0)
    return a * b


def _add(a, b, alpha=1, out=None):
    if not _tensorish(b) or not _tensorish(a):
        return NotImplemented
    if alpha != 1:
        b = b * alpha
    return ew(lambda x, y: (z3.Or(x, y) if z3.is_bool(x) else x + y), a, b)


def _sub(a, b, alpha=1, out=None):
    if not _tensorish(b) or not _tensorish(a):
        return NotImplemented
    if alpha != 1:
        b = b * alpha
    return ew(lambda x, y: x - y, a, b)


for _n, _f in (("add", _add), ("sub", _sub)):
    OPS[_n] = OPS["__%s__" % _n] = _f
    OPS["__r%s__" % _n] = (lambda a, b, _f=_f: _f(b, a))
    OPS[_n + "_"] = OPS["__i%s__" % _n] = (lambda a, b, _f=_f, alpha=1: a._assign(_expand_to(_f(a, b, alpha), a)))
OPS["subtract"] = _sub
OPS["rsub"] = lambda a, b, alpha=1: _sub(b, a, alpha)
_binop(["mul", "__mul__", "multiply"], lambda x, y: z3.And(x, y) if z3.is_bool(x) else zmul(x, y), refl=["__rmul__"])


def _div(a, b, rounding_mode=None, out=None):
    if not _tensorish(b) or not _tensorish(a):
        return NotImplemented
    if rounding_mode is None:
        return ew(rdiv, a, b, in_kind="r")
    if rounding_mode == "floor":
        return _floordiv(a, b)
    r = ew(rdiv, a, b, in_kind="r")
    ts = [lift(a), lift(b)]
    return _to(OPS["trunc"](r), result_type(ts, (a, b)))


def _floordiv(a, b):
    ts = [lift(a), lift(b)]
    dt = result_type(ts, (a, b))
    if dt.is_floating_point:
        return ew(lambda x, y: z3.ToReal(z3.ToInt(rdiv(x, y))), a, b)

    def f(x, y):
        c = conc(z3.simplify(y))
        if c is not None and c > 0:
            return x / y
        return z3.If(y > 0, x / y, (-x) / (-y))
    return ew(f, a, b)


def _remainder(a, b):
    ts = [lift(a), lift(b)]
    dt = result_type(ts, (a, b))
    if dt.is_floating_point:
        return ew(lambda x, y: x - y * z3.ToReal(z3.ToInt(rdiv(x, y))), a, b)

    def f(x, y):
        c = conc(z3.simplify(y))
        if c is not None and c > 0:
            return x % y
        return z3.If(y > 0, x % y, -((-x) % (-y)))
    return ew(f, a, b)


def trunc_r(x):
    return z3.ToReal(to_int(x))


OPS["div"] = OPS["__truediv__"] = OPS["true_divide"] = OPS["divide"] = OPS["__div__"] = _div
OPS["__rtruediv__"] = OPS["__rdiv__"] = lambda a, b: _div(b, a)
OPS["div_"] = OPS["__itruediv__"] = OPS["__idiv__"] = lambda a, b, rounding_mode=None: a._assign(_div(a, b, rounding_mode))
OPS["floor_divide"] = OPS["__floordiv__"] = _floordiv
OPS["__rfloordiv__"] = lambda a, b: _floordiv(b, a)
OPS["remainder"] = OPS["__mod__"] = _remainder
OPS["__rmod__"] = lambda a, b: _remainder(b, a)
OPS["fmod"] = lambda a, b: ew(lambda x, y: x - y * trunc_r(rdiv(x, y)), a, b, in_kind="r")
for _names, _f in (
    (("lt", "__lt__", "less"), lambda x, y: x < y),
    (("le", "__le__", "less_equal"), lambda x, y: x <= y),
    (("gt", "__gt__", "greater"), lambda x, y: x > y),
    (("ge", "__ge__", "greater_equal"), lambda x, y: x >= y),
):
    _binop(_names, _f, out_dtype=torch.bool)


def _eq(a, b):
    if b is None or not _tensorish(b):
        return NotImplemented
    return ew(lambda x, y: x == y, a, b, out_dtype=torch.bool)


def _ne(a, b):
    if b is None or not _tensorish(b):
        return NotImplemented
    return ew(lambda x, y: x != y, a, b, out_dtype=torch.bool)


OPS["eq"] = OPS["__eq__"] = _eq
OPS["ne"] = OPS["__ne__"] = OPS["not_equal"] = _ne


def zmax(x, y):
    return z3.If(x >= y, x, y)


def zmin(x, y):
    return z3.If(x <= y, x, y)


_binop(["maximum"], zmax)
_binop(["minimum"], zmin)
_binop(["logical_and"], z3.And, in_kind="b", out_dtype=torch.bool)
_binop(["logical_or"], z3.Or, in_kind="b", out_dtype=torch.bool)
_binop(["logical_xor"], z3.Xor, in_kind="b", out_dtype=torch.bool)


def _bitop(name, bf):
    def f(a, b):
        ta, tb = lift(a), lift(b)
        if ta._kind == "b" and tb._kind == "b":
            return ew(bf, a, b, in_kind="b", out_dtype=torch.bool)
        raise Unsupported("bitwise %s on integer tensors" % name)
    return f


OPS["__and__"] = OPS["__rand__"] = OPS["bitwise_and"] = OPS["__iand__"] = _bitop("and", z3.And)
OPS["__or__"] = OPS["__ror__"] = OPS["bitwise_or"] = OPS["__ior__"] = _bitop("or", z3.Or)
OPS["__xor__"] = OPS["bitwise_xor"] = _bitop("xor", z3.Xor)
OPS["__invert__"] = OPS["logical_not"] = OPS["bitwise_not"] = lambda a: ew(z3.Not, a, in_kind="b", out_dtype=torch.bool)


def _unop(names, fn, in_kind=None, out_dtype=None):
    def f(x, *a, out=None, **k):
        return ew(fn, x, in_kind=in_kind, out_dtype=out_dtype)

    def ip(x, *a, **k):
        return x._assign(f(x))
    for n in names:
        OPS[n] = f
        if not n.startswith("_"):
            OPS[n + "_"] = ip


zabs = lambda x: z3.If(x >= 0, x, -x)
_unop(["abs", "__abs__", "absolute"], zabs)
_unop(["neg", "__neg__", "negative"], lambda x: -x)
_unop(["positive", "__pos__"], lambda x: x)
_unop(["exp"], A.exp, "r")
_unop(["log"], A.log, "r")
_unop(["log1p"], lambda x: A.log(1 + x), "r")
_unop(["expm1"], lambda x: A.exp(x) - 1, "r")
LOG2 = math.log(2.0)
_unop(["log2"], lambda x: rdiv(A.log(x), rv(LOG2)), "r")
_unop(["log10"], lambda x: rdiv(A.log(x), rv(math.log(10.0))), "r")
_unop(["exp2"], lambda x: A.exp(x * rv(LOG2)), "r")
_unop(["erf"], A.erf_f, "r")
_unop(["erfc"], lambda x: 1 - A.erf_f(x), "r")
_unop(["erfinv"], A.erfinv_f, "r")
_unop(["tanh"], A.tanh_f, "r")
_unop(["atanh", "arctanh"], A.atanh_f, "r")
_unop(["sqrt"], A.sqrt, "r")
_unop(["rsqrt"], lambda x: rdiv(rv(1), A.sqrt(x)), "r")
_unop(["reciprocal"], lambda x: rdiv(rv(1), x), "r")
_unop(["square"], lambda x: x * x)
_unop(["sin"], A.sin_f, "r")
_unop(["cos"], A.cos_f, "r")
_unop(["sigmoid", "expit"], lambda x: rdiv(rv(1), 1 + A.exp(-x)), "r")
_unop(["relu"], lambda x: z3.If(x > 0, x, z3.IntVal(0) if x.is_int() else rv(0)))
_unop(["sign", "sgn"], lambda x: z3.If(x > 0, 1, z3.If(x < 0, -1, z3.IntVal(0))))
_unop(["isnan", "isinf"], lambda x: z3.BoolVal(False), None, torch.bool)
_unop(["isfinite"], lambda x: z3.BoolVal(True), None, torch.bool)
_unop(["log_sigmoid", "logsigmoid"], lambda x: -A.log(1 + A.exp(-x)), "r")


def _rounders():
    def fl(x):
        return x if x.is_int() else z3.ToReal(z3.ToInt(x))

    def ce(x):
        return x if x.is_int() else z3.ToReal(-z3.ToInt(-x))

    def rd(x):
        return x if x.is_int() else z3.ToReal(round_half_even(x))

    def tr(x):
        return x if x.is_int() else trunc_r(x)
    _unop(["floor", "__floor__"], fl)
    _unop(["ceil", "__ceil__"], ce)
    _unop(["round"], rd)
    _unop(["trunc", "fix"], tr)


_rounders()
OPS["atan2"] = OPS["arctan2"] = lambda y, x: ew(A.atan2_f, y, x, in_kind="r")


@op("softplus")
def _softplus(x, beta=1, threshold=20):
    b = rv(beta)
    return ew(lambda v: rdiv(A.log(1 + A.exp(v * b)), b), x, in_kind="r")


@op("leaky_relu")
def _leaky(x, negative_slope=0.01, inplace=False):
    return ew(lambda v: z3.If(v > 0, v, v * rv(negative_slope)), x)


def _relu6(x, inplace=False):
    return ew(lambda v: zmin(zmax(v, rv(0)), rv(6)), x)


OPS["relu6"] = _relu6


@op("pow", "__pow__")
def _pow(x, y):
    if isinstance(y, (int, float)) and not isinstance(y, bool):
        t = lift(x)
        if isinstance(y, int) and y >= 0 and t._kind == "i":
            def f(v):
                r = z3.IntVal(1)
                for _ in range(y):
                    r = r * v
                return r
            return ew(f, x)
        return ew(lambda v: A.pow_(v, y), x, in_kind="r")
    return ew(lambda v, w: A.pow_(v, w), x, y, in_kind="r")


OPS["__rpow__"] = lambda x, y: _pow(y, x)
OPS["pow_"] = OPS["__ipow__"] = lambda x, y: x._assign(_pow(x, y))
OPS["float_power"] = _pow


@op("clamp", "clip")
def _clamp(x, min=None, max=None, out=None):
    r = x
    if min is None and max is None:
        raise RuntimeError("torch.clamp: At least one of 'min' or 'max' must not be None")
    t = lift(x)

    def same(v):
        # python scalars do not promote beyond category
        return v
    if min is not None:
        r = ew(zmax, r, same(min))
    if max is not None:
        r = ew(zmin, r, same(max))
    return r


OPS["clamp_"] = OPS["clip_"] = lambda x, min=None, max=None: x._assign(_clamp(x, min, max))
OPS["clamp_min"] = lambda x, min: _clamp(x, min=min)
OPS["clamp_max"] = lambda x, max: _clamp(x, max=max)
OPS["clamp_min_"] = lambda x, min: x._assign(_clamp(x, min=min))
OPS["clamp_max_"] = lambda x, max: x._assign(_clamp(x, max=max))


@op("hardtanh")
def _hardtanh(x, min_val=-1.0, max_val=1.0, inplace=False):
    return _clamp(x, min_val, max_val)


@op("where")
def _where(c, a=None, b=None, **k):
    if a is None:
        raise Unsupported("where(cond) indices")
    if not isinstance(a, torch.Tensor) and not isinstance(b, torch.Tensor):
        pass
    ts = [lift(c), lift(a), lift(b)]
    dt = result_type(ts[1:], (a, b))
    kk = kind_of(dt)
    groups, fns = bcast(ts)

    def f(*p):
        return z3.If(to_bool(fns[0](p)), cast(fns[1](p), kk), cast(fns[2](p), kk))
    return SymTensor(groups, f, dt)


@op("masked_fill")
def _masked_fill(x, mask, value):
    x = lift(x)
    ts = [x, lift(mask), lift(value)]
    groups, fns = bcast(ts)
    if isinstance(value, float) and math.isinf(value):
        # -inf only meaningful below softmax: model as a tagged constant
        ninf = NEG_INF if value < 0 else -NEG_INF
        return SymTensor(groups, lambda *p: z3.If(to_bool(fns[1](p)), ninf, fns[0](p)), x._dt)
    return SymTensor(groups, lambda *p: z3.If(to_bool(fns[1](p)), cast(fns[2](p), x._kind), fns[0](p)), x._dt)


NEG_INF = z3.Real("NEG_INF")
OPS["masked_fill_"] = lambda x, m, v: x._assign(_masked_fill(x, m, v))


@op("lerp")
def _lerp(a, b, w):
    return a + (b - a) * w


@op("to", "type_as")
def _to(x, *a, dtype=None, device=None, non_blocking=False, copy=False, **k):
    x = lift(x)
    for v in a:
        if isinstance(v, torch.dtype):
            dtype = v
        elif isinstance(v, torch.Tensor):
            dtype = v.dtype
    if dtype is None or dtype == x._dt:
        return x
    kk = kind_of(dtype)
    fn = x.snap()
    if dtype == torch.uint8 and x._kind != "b":
        return SymTensor(x._groups, lambda *p: cast(fn(*p), "i") % 256, dtype)
    return SymTensor(x._groups, lambda *p: cast(fn(*p), kk), dtype)


for _n, _d in (("float", torch.float32), ("double", torch.float64), ("half", torch.float16), ("int", torch.int32),
               ("long", torch.int64), ("bool", torch.bool), ("byte", torch.uint8), ("short", torch.int16)):
    OPS[_n] = (lambda d: lambda x, **k: _to(x, d))(_d)
for _n in ("cpu", "cuda", "contiguous", "detach", "clone", "positive", "resolve_conj", "resolve_neg", "alias", "pin_memory"):
    OPS[_n] = lambda x, *a, **k: SymTensor(lift(x)._groups, lift(x).snap(), lift(x).dtype)
OPS["requires_grad_"] = lambda x, v=True: x
OPS["detach_"] = lambda x: x


def _dropout(x, p=0.5, training=True, inplace=False):
    if training and p > 0:
        raise Unsupported("dropout in training mode")
    return x


OPS["dropout"] = _dropout


# in-place copies
OPS["copy_"] = lambda x, src, non_blocking=False: x._assign(SymTensor(*_bc_to(lift(src), x), x._dt))
OPS["zero_"] = lambda x: x._assign(_like(0)(x))
OPS["fill_"] = lambda x, v: x._assign(_like(v)(x))


def _bc_to(src, x):
    groups, fns = bcast([x, src])
    return groups, (lambda *p: fns[1](p))


# ---------------------------------------------------------------- shape ops
def ndim_norm(d, nd):
    d = int(d)
    if not -max(nd, 1) <= d < max(nd, 1):
        raise IndexError("Dimension out of range (got %d)" % d)
    return d + nd if d < 0 else d


def regroup(t, groups):
    """same physical factors, different logical grouping"""
    return SymTensor(groups, t.snap(), t._dt, root=t._root)


@op("permute")
def _permute(t, *dims):
    dims = _shape_args(dims)
    t = lift(t)
    dims = [ndim_norm(d, t.ndim) for d in dims]
    if sorted(dims) != list(range(t.ndim)):
        raise RuntimeError("permute(dims): dims do not match")
    groups = [t._groups[d] for d in dims]
    osl = group_slices(groups)
    isl = group_slices(t._groups)
    fn = t.snap()
    n = len(t.phys)

    def f(*p):
        q = [None] * n
        for pos, d in enumerate(dims):
            a, b = osl[pos]
            c, _ = isl[d]
            for k in range(b - a):
                q[c + k] = p[a + k]
        return fn(*q)
    return SymTensor(groups, f, t._dt, root=t._root)


@op("transpose", "swapaxes", "swapdims")
def _transpose(t, a, b):
    t = lift(t)
    d = list(range(t.ndim))
    a, b = ndim_norm(a, t.ndim), ndim_norm(b, t.ndim)
    d[a], d[b] = d[b], d[a]
    return _permute(t, *d)


OPS["t"] = lambda x: _transpose(x, 0, 1) if lift(x).ndim == 2 else x
OPS["movedim"] = OPS["moveaxis"] = lambda t, s, d: _movedim(lift(t), s, d)


def _movedim(t, s, d):
    s = [s] if isinstance(s, int) else list(s)
    d = [d] if isinstance(d, int) else list(d)
    s = [ndim_norm(i, t.ndim) for i in s]
    d = [ndim_norm(i, t.ndim) for i in d]
    order = [i for i in range(t.ndim) if i not in s]
    for dst, src in sorted(zip(d, s)):
        order.insert(dst, src)
    return _permute(t, *order)


@op("unsqueeze")
def _unsqueeze(t, dim):
    t = lift(t)
    dim = dim + t.ndim + 1 if dim < 0 else dim
    g = list(t._groups)
    g.insert(dim, ())
    return regroup(t, g)


def _index_dim0(t, i):
    """drop a dimension known to have size one"""
    return OPS["__getitem__"](t, (slice(None),) * i + (0,))


@op("squeeze")
def _squeeze(t, dim=None):
    t = lift(t)
    if dim is None:
        for i, d in reversed(list(enumerate(t.dims()))):
            if not isinstance(d, int) and CTX.branch(d == 1):
                t = _index_dim0(t, i)
        return regroup(t, [g for g in t._groups if len(g)])
    dims = [dim] if isinstance(dim, int) else list(dim)
    dims = [ndim_norm(d, t.ndim) for d in dims]
    out, drop = [], False
    for i, g in enumerate(t._groups):
        if i in dims and len(g) == 0:
            continue
        if i in dims and not isinstance(dprod(g), int) and CTX.branch(dz(dprod(g)) == 1):
            return _squeeze(_select(t, i, 0).unsqueeze(i), dim)
        out.append(g)
    return regroup(t, out)


def _resolve_minus1(t, shape):
    shape = [dsimp(s) for s in shape]
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if len(k) > 1:
            raise RuntimeError("only one dimension can be inferred")
        return shape, k[0]
    return shape, None


def _is_factor_prefix(phys, i, target):
    """consume physical dims from i whose product equals target; return new i or None"""
    acc = 1
    j = i
    while True:
        if deq(acc, target):
            return j
        if j >= len(phys):
            return None
        acc = dprod([acc, phys[j]])
        j += 1
        if isinstance(acc, int) and isinstance(target, int) and acc > target:
            return None


@op("reshape", "view", "_unsafe_view")
def _reshape(t, *shape):
    t = lift(t)
    if len(shape) == 1 and isinstance(shape[0], torch.dtype):
        raise Unsupported("view(dtype)")
    shape = _shape_args(shape)
    shape, inf = _resolve_minus1(t, shape)
    # first try regrouping from the left and the right
    g = _regroup_try(t, shape, inf)
    if g is not None:
        return g
    # split physical factors to match (concrete divisors)
    g = _split_try(t, shape, inf)
    if g is not None:
        return g
    total = dprod(t.phys)
    if inf is not None:
        rest = dprod([s for i, s in enumerate(shape) if i != inf])
        q = dsimp(dz(total) / dz(rest)) if not (isinstance(rest, int) and rest == 1) else total
        shape = [q if i == inf else s for i, s in enumerate(shape)]
    if not deq(dprod(shape), total, fork=True):
        raise RuntimeError("shape '%s' is invalid for input of size %s" % (shape, total))
    # general: flat index arithmetic
    groups = [(s,) if not (isinstance(s, int) and s == 1) else () for s in shape]
    live = [s for s in shape if not (isinstance(s, int) and s == 1)]
    src = list(t.phys)
    fn = t.snap()
    # aligned blocks with equal products are re-indexed separately
    blocks, i, k = [], 0, 0
    while i < len(src) and k < len(live):
        cut = None
        pa, a = 1, i
        while a < len(src) and isinstance(src[a], int) and cut is None:
            pa, a = pa * src[a], a + 1
            pb, b = 1, k
            while b < len(live) and isinstance(live[b], int) and pb < pa:
                pb, b = pb * live[b], b + 1
            if pb == pa:
                cut = (a, b)
        if cut is None and not isinstance(src[i], int) and not isinstance(live[k], int) and z3.simplify(src[i] == live[k]).eq(z3.BoolVal(True)):
            cut = (i + 1, k + 1)
        if cut is None:
            break
        blocks.append((i, cut[0], k, cut[1]))
        i, k = cut
    if i < len(src) or k < len(live):
        blocks.append((i, len(src), k, len(live)))

    def f(*p):
        out = []
        for a, b, c, d in blocks:
            if b - a == 1 and d - c == 1:
                out.append(p[c])
            else:
                out += list(split_index(join_index(p[c:d], live[c:d]), tuple(src[a:b])))
        return fn(*out)
    return SymTensor(groups, f, t._dt, root=t._root)


def _regroup_try(t, shape, inf):
    phys = t.phys
    left, i = [], 0
    k = 0
    stop = len(shape) if inf is None else inf
    while k < stop:
        j = _is_factor_prefix(phys, i, shape[k])
        if j is None:
            return None
        left.append(tuple(phys[i:j]))
        i = j
        k += 1
    if inf is None:
        return regroup(t, left) if i == len(phys) else None
    right = []
    e = len(phys)
    for s in reversed(shape[inf + 1:]):
        acc, j = 1, e
        while not deq(acc, s):
            if j <= i:
                return None
            j -= 1
            acc = dprod([phys[j], acc])
            if isinstance(acc, int) and isinstance(s, int) and acc > s:
                return None
        right.append(tuple(phys[j:e]))
        e = j
    return regroup(t, left + [tuple(phys[i:e])] + right[::-1])


def _split_try(t, shape, inf):
    """split a single physical factor n into (a, b) when n == a*b is provable, then regroup.

    walks left to right; handles e.g. (b, c*k, h) -> (b, c, k, h)."""
    phys = t.phys
    shape = list(shape)
    if inf is not None:
        total = dprod(phys)
        rest = dprod([s for i, s in enumerate(shape) if i != inf])
        if isinstance(rest, int):
            if rest == 0:
                return None
            q = None
            if isinstance(total, int):
                q = total // rest
            else:
                # cancel common factors syntactically
                ts = list(phys)
                for s in [s for i, s in enumerate(shape) if i != inf]:
                    hit = None
                    for n_, d in enumerate(ts):
                        if deq(d, s):
                            hit = n_
                            break
                    if hit is not None:
                        ts.pop(hit)
                        continue
                    hit2 = None
                    for n_, d in enumerate(ts):
                        if isinstance(d, int) and isinstance(s, int) and s and d % s == 0:
                            hit2 = n_
                            break
                    if hit2 is None:
                        for n_, d in enumerate(ts):
                            if isinstance(s, int) and not isinstance(d, int) and CTX.valid(d % s == 0):
                                hit2 = n_
                                break
                        if hit2 is None:
                            break
                        ts[hit2] = dsimp(ts[hit2] / z3.IntVal(s))
                        continue
                    ts[hit2] = ts[hit2] // s
                else:
                    q = dprod(ts)
            if q is None:
                return None
        else:
            ts = list(phys)
            ok = True
            for s in [s for i, s in enumerate(shape) if i != inf]:
                if isinstance(s, int) and s == 1:
                    continue
                hit = [n_ for n_, d in enumerate(ts) if deq(d, s)]
                if hit:
                    ts.pop(hit[0])
                    continue
                hit = [n_ for n_, d in enumerate(ts) if isinstance(d, int) and isinstance(s, int) and s and d % s == 0]
                if hit:
                    ts[hit[0]] //= s
                    continue
                ok = False
                break
            if not ok:
                return None
            q = dprod(ts)
        shape[inf] = q
    # build factor mapping
    groups = []
    maps = []  # list over source phys: function(list of new idx) -> idx
    new_phys = []
    i = 0
    cur = None  # remaining size of current source factor
    parts = []
    src_parts = []  # for each source phys: list of (new phys position, size)
    pos = 0
    k = 0
    rem = phys[0] if phys else None
    acc_parts = []
    while k < len(shape):
        s = shape[k]
        if isinstance(s, int) and s == 1:
            groups.append(())
            k += 1
            continue
        grp = []
        need = s
        while not (isinstance(need, int) and need == 1):
            if rem is None:
                return None
            if deq(rem, need):
                grp.append(need if not isinstance(rem, int) else rem)
                acc_parts.append(pos)
                new_phys.append(grp[-1])
                pos += 1
                src_parts.append(list(acc_parts))
                acc_parts = []
                i += 1
                rem = phys[i] if i < len(phys) else None
                need = 1
            elif _divides(need, rem):
                # need is a proper factor of rem: leading part
                grp.append(need)
                new_phys.append(need)
                acc_parts.append(pos)
                pos += 1
                rem = _quot(rem, need)
                need = 1
            elif _divides(rem, need):
                grp.append(rem)
                new_phys.append(rem)
                acc_parts.append(pos)
                pos += 1
                need = _quot(need, rem)
                src_parts.append(list(acc_parts))
                acc_parts = []
                i += 1
                rem = phys[i] if i < len(phys) else None
            else:
                return None
        groups.append(tuple(grp))
        k += 1
    if rem is not None or acc_parts:
        return None
    fn = t.snap()

    def f(*p):
        q = []
        for parts in src_parts:
            r = z3.IntVal(0)
            for j in parts:
                r = r * dz(new_phys[j]) + p[j]
            q.append(z3.simplify(r))
        return fn(*q)
    return SymTensor(groups, f, t._dt, root=t._root)


def _divides(a, b):
    """a | b provably with a proper symbolic quotient we can form"""
    if isinstance(a, int) and isinstance(b, int):
        return a > 0 and b % a == 0
    if isinstance(a, int):
        return CTX.valid(b % a == 0)
    # symbolic a: only when b is literally a*something
    if not isinstance(b, int):
        q = _sym_quot(b, a)
        return q is not None
    return False


def _sym_quot(b, a):
    """b == a*q for a q found among recorded products (via solver on simple candidates)"""
    for q in CTX.__dict__.get("quot_hints", []):
        if CTX.valid(b == a * q):
            return q
    b = z3.simplify(b)
    if z3.is_mul(b):
        ch = list(b.children())
        for i, c in enumerate(ch):
            if c.eq(a):
                rest = ch[:i] + ch[i + 1:]
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                return r
    return None


def _quot(b, a):
    if isinstance(a, int) and isinstance(b, int):
        return b // a
    if isinstance(a, int):
        return dsimp(b / z3.IntVal(a))
    return dsimp(_sym_quot(b, a))


@op("flatten")
def _flatten(t, start_dim=0, end_dim=-1):
    t = lift(t)
    if t.ndim == 0:
        return _reshape(t, 1)
    a, b = ndim_norm(start_dim, t.ndim), ndim_norm(end_dim, t.ndim)
    g = list(t._groups)
    return regroup(t, g[:a] + [tuple(d for x in g[a:b + 1] for d in x)] + g[b + 1:])


OPS["ravel"] = lambda t: _flatten(t)
OPS["view_as"] = OPS["reshape_as"] = lambda t, o: _reshape(t, *o.shape)


@op("unflatten")
def _unflatten(t, dim, sizes):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    s = list(t.shape)
    return _reshape(t, *(s[:dim] + list(sizes) + s[dim + 1:]))


@op("expand", "broadcast_to")
def _expand(t, *shape):
    t = lift(t)
    shape = [dsimp(s) for s in _shape_args(shape)]
    off = len(shape) - t.ndim
    groups, plan = [], []
    for k, s in enumerate(shape):
        j = k - off
        if j < 0:
            groups.append((s,) if not (isinstance(s, int) and s == 1) else ())
            plan.append(False)
            continue
        g = t._groups[j]
        if isinstance(s, int) and s == -1:
            groups.append(g)
            plan.append(True)
        elif len(g) == 0:
            groups.append((s,) if not (isinstance(s, int) and s == 1) else ())
            plan.append(False)
        elif deq(dprod(g), s, fork=True):
            groups.append(g)
            plan.append(True)
        else:
            raise RuntimeError("The expanded size of the tensor must match the existing size")
    sl = group_slices(groups)
    fn = t.snap()

    def f(*p):
        q = []
        for keep, (a, b) in zip(plan, sl):
            if keep:
                q += list(p[a:b])
        return fn(*q)
    return SymTensor(groups, f, t._dt)


OPS["expand_as"] = lambda t, o: _expand(t, *o.shape)


@op("repeat", "tile")
def _repeat(t, *reps):
    t = flat_groups(lift(t))
    reps = [dsimp(r) for r in _shape_args(reps)]
    while t.ndim < len(reps):
        t = _unsqueeze(t, 0)
    dims = t.dims()
    shape = [dprod([d, r]) for d, r in zip(dims, reps)]

    def f(*idx):
        return t.el(*[i if (isinstance(r, int) and r == 1) else (z3.IntVal(0) if (isinstance(d, int) and d == 1) else i % dz(d)) for i, d, r in zip(idx, dims, reps)])
    return from_fn(shape, f, t._dt)


@op("repeat_interleave")
def _repeat_interleave(t, n, dim=None):
    t = flat_groups(lift(t))
    if dim is None:
        t = flat_groups(_flatten(t))
        dim = 0
    dim = ndim_norm(dim, t.ndim)
    dims = t.dims()
    shape = list(dims)
    shape[dim] = dprod([dims[dim], dsimp(n)])
    return from_fn(shape, lambda *idx: t.el(*[i / zi(n) if k == dim else i for k, i in enumerate(idx)]), t._dt)


def _cat_dtype(ts):
    dt = ts[0]._dt
    for t in ts[1:]:
        dt = torch.promote_types(dt, t._dt)
    return dt


@op("cat", "concat", "concatenate")
def _cat(ts, dim=0, out=None, axis=None):
    dim = axis if axis is not None else dim
    ts = [lift(t) for t in ts]
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    nd = ts[0].ndim
    ts = [t for t in ts if not (t.ndim == 1 and nd != 1)]
    dim = ndim_norm(dim, nd)
    if any(t.ndim != nd for t in ts):
        raise RuntimeError("Tensors must have same number of dimensions")
    base = ts[0]
    groups = list(base._groups)
    for t in ts[1:]:
        for k in range(nd):
            if k != dim and t._groups[k] != groups[k]:
                if not deq(dprod(t._groups[k]), dprod(groups[k]), fork=True):
                    raise RuntimeError("Sizes of tensors must match except in dimension %d" % dim)
    fl = [_flat_dim(t, dim) for t in ts]
    aligned = []
    for t in fl:
        g = [groups[k] if k != dim else t._groups[k] for k in range(nd)]
        m = match_groups(t, g)
        if m is None:
            raise Unsupported("cat alignment")
        aligned.append(m)
    sizes = [t.dims()[dim] for t in aligned]
    total = dsimp(sum((dz(s) for s in sizes), z3.IntVal(0)))
    groups[dim] = (total,) if not (isinstance(total, int) and total == 1) else ()
    dt = _cat_dtype(ts)
    kk = kind_of(dt)
    sl = group_slices(groups)
    a, b = sl[dim]
    fns = [t.snap() for t in aligned]

    def f(*p):
        i = p[a] if b > a else z3.IntVal(0)
        pre, post = list(p[:a]), list(p[b:])
        offs, o = [], z3.IntVal(0)
        for s in sizes:
            offs.append(o)
            o = z3.simplify(o + dz(s))
        ci = conc(z3.simplify(i))

        def at(n):
            j = z3.simplify(i - offs[n])
            mid = [] if (isinstance(sizes[n], int) and sizes[n] == 1) else [j]
            return cast(fns[n](*(pre + mid + post)), kk)
        live = [n for n in range(len(sizes)) if not (isinstance(sizes[n], int) and sizes[n] == 0)]
        if ci is not None and all(isinstance(s, int) for s in sizes):
            o = 0
            for n, s in enumerate(sizes):
                if o <= ci < o + s:
                    return at(n)
                o += s
            return at(live[-1])
        if len(live) > 8 and all(isinstance(s, int) for s in sizes):
            pass
        r = at(live[-1])
        for n in reversed(live[:-1]):
            r = z3.If(i < z3.simplify(offs[n] + dz(sizes[n])), at(n), r)
        return r
    return SymTensor(groups, f, dt)


def _flat_dim(t, dim):
    if len(t._groups[dim]) <= 1:
        return t
    g = list(t._groups)
    g[dim] = (dprod(g[dim]),)
    return match_groups(t, g)


@op("stack")
def _stack(ts, dim=0, out=None):
    ts = [lift(t) for t in ts]
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    nd = ts[0].ndim
    dim = dim + nd + 1 if dim < 0 else dim
    return _cat([_unsqueeze(t, dim) for t in ts], dim)


OPS["hstack"] = lambda ts: _cat(ts, 0 if lift(ts[0]).ndim == 1 else 1)
OPS["vstack"] = lambda ts: _cat(ts, 0)


def _narrow(t, dim, start, length):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    return t[tuple([slice(None)] * dim + [slice(start, start + length)])]


OPS["narrow"] = _narrow


@op("split", "tensor_split_sizes")
def _split(t, size, dim=0):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    n = t.dims()[dim]
    if isinstance(size, (list, tuple)):
        out, o = [], 0
        for s in size:
            out.append(_narrow(t, dim, o, s))
            o = o + s
        if not deq(dsimp(o), n, fork=True):
            raise RuntimeError("split_with_sizes expects split_sizes to sum exactly")
        return tuple(out)
    if not isinstance(n, int):
        n = CTX.determined(n)
        if n is None:
            raise Unsupported("split of symbolic dim")
    size = int(size)
    return tuple(_narrow(t, dim, o, min(size, n - o)) for o in range(0, n, size))


OPS["split_with_sizes"] = _split


@op("chunk")
def _chunk(t, chunks, dim=0):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    n = t.dims()[dim]
    if not isinstance(n, int):
        # symbolic: torch gives ceil(n/chunks) sized chunks; support exact division
        if CTX.branch(n % chunks == 0):
            s = wrap(n / z3.IntVal(chunks))
            return tuple(_narrow(t, dim, s * i, s) for i in range(chunks))
        raise Unsupported("uneven chunk of a symbolic dim")
    s = -(-n // chunks)
    return tuple(_narrow(t, dim, o, min(s, n - o)) for o in range(0, n, s))


@op("unbind")
def _unbind(t, dim=0):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    n = t.dims()[dim]
    if not isinstance(n, int):
        n = CTX.determined(n)
        if n is None:
            raise Unsupported("unbind of symbolic dim")
    return tuple(_select(t, dim, i) for i in range(n))


def _select(t, dim, i):
    t = _flat_dim(lift(t), ndim_norm(dim, lift(t).ndim))
    return t[tuple([slice(None)] * ndim_norm(dim, t.ndim) + [i])]


OPS["select"] = _select


@op("flip")
def _flip(t, *dims):
    t = flat_groups(lift(t))
    dims = [ndim_norm(d, t.ndim) for d in _shape_args(dims)]
    ds = t.dims()
    return from_fn(ds, lambda *idx: t.el(*[dz(ds[k]) - 1 - i if k in dims else i for k, i in enumerate(idx)]), t._dt)


@op("roll")
def _roll(t, shifts, dims=None):
    t = flat_groups(lift(t))
    sh = [shifts] if not isinstance(shifts, (list, tuple)) else list(shifts)
    if dims is None:
        raise Unsupported("roll without dims")
    dm = [dims] if not isinstance(dims, (list, tuple)) else list(dims)
    dm = [ndim_norm(d, t.ndim) for d in dm]
    ds = t.dims()

    def f(*idx):
        idx = list(idx)
        for s, d in zip(sh, dm):
            idx[d] = (idx[d] - zi(s)) % dz(ds[d])
        return t.el(*idx)
    return from_fn(ds, f, t._dt)


@op("triu")
def _triu(t, diagonal=0):
    t = flat_groups(lift(t))
    z = cast(z3.IntVal(0), t._kind)
    return from_fn(t.dims(), lambda *idx: z3.If(idx[-1] - idx[-2] >= zi(diagonal), t.el(*idx), z), t._dt)


@op("tril")
def _tril(t, diagonal=0):
    t = flat_groups(lift(t))
    z = cast(z3.IntVal(0), t._kind)
    return from_fn(t.dims(), lambda *idx: z3.If(idx[-1] - idx[-2] <= zi(diagonal), t.el(*idx), z), t._dt)


# ---------------------------------------------------------------- indexing
def _norm_bound(v, n, default):
    """python slice bound normalisation for positive step"""
    if v is None:
        return default
    if isinstance(v, int) and isinstance(n, int):
        if v < 0:
            v += n
        return max(0, min(v, n))
    e, n = zi(v), dz(n)
    c = conc(z3.simplify(e))
    if c is not None and c >= 0:
        if c == 0:
            return 0
        return e if CTX.valid(e <= n) else dsimp(z3.If(e <= n, e, n))
    if c is not None:
        e2 = z3.simplify(e + n)
        return e2 if CTX.valid(e2 >= 0) else dsimp(z3.If(e2 >= 0, e2, z3.IntVal(0)))
    if CTX.valid(z3.And(e >= 0, e <= n)):
        return e
    if CTX.branch(e < 0):
        e = z3.simplify(e + n)
        if CTX.branch(e < 0):
            return 0
        return e
    if CTX.branch(e <= n):
        return e
    return dsimp(n)


def _is_tensor_index(k):
    return isinstance(k, torch.Tensor) and k.ndim > 0 or isinstance(k, list)


@op("__getitem__")
def _getitem(t, key):
    t = lift(t)
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple((k._sym_scalar() if isinstance(k, SymTensor) and k.ndim == 0 and k._kind == "i" else
                 (int(k) if isinstance(k, torch.Tensor) and not isinstance(k, SymTensor) and k.ndim == 0 and k.dtype != torch.bool else k)) for k in key)
    nidx = sum(1 for k in key if k is not None and k is not Ellipsis and not isinstance(k, bool))
    if any(k is Ellipsis for k in key):
        e = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:e] + (slice(None),) * (t.ndim - nidx) + key[e + 1:]
    else:
        key = key + (slice(None),) * (t.ndim - nidx)
    if any(isinstance(k, torch.Tensor) and k.dtype == torch.bool for k in key):
        return _mask_select(t, key)
    # which dims need flat factors
    d = 0
    for k in key:
        if k is None:
            continue
        if not (isinstance(k, slice) and k == slice(None)):
            t = _flat_dim(t, d)
        d += 1
    tens = [(i, k) for i, k in enumerate(key) if _is_tensor_index(k)]
    if tens:
        return _adv_index(t, key)
    out_groups = []
    plan = []  # per input dim
    d = 0
    order = []
    for k in key:
        if k is None:
            out_groups.append(())
            order.append(None)
            continue
        g = t._groups[d]
        n = dprod(g)
        if isinstance(k, slice):
            if k == slice(None):
                out_groups.append(g)
                order.append(("keep", d))
            else:
                step = 1 if k.step is None else k.step
                if isinstance(step, SymInt):
                    stepz = step.e
                    if not CTX.valid(stepz > 0):
                        raise ValueError("slice step must be positive")
                else:
                    if step <= 0:
                        raise ValueError("step must be greater than zero")
                    stepz = z3.IntVal(step)
                a = _norm_bound(k.start, n, 0)
                b = _norm_bound(k.stop, n, n)
                az, bz = dz(a), dz(b)
                ln = z3.simplify(bz - az)
                if not CTX.valid(ln >= 0):
                    if CTX.branch(ln < 0):
                        ln = z3.IntVal(0)
                if not (isinstance(step, int) and step == 1):
                    ln = ceil_div(ln, stepz)
                ln = dsimp(ln)
                out_groups.append((ln,) if not (isinstance(ln, int) and ln == 1) else ())
                order.append(("slice", d, az, stepz, ln))
        elif isinstance(k, (int, SymInt)):
            kz = zi(k)
            nz = dz(n)
            c = conc(z3.simplify(kz))
            if not CTX.valid(z3.And(kz >= -nz, kz < nz)):
                if not CTX.branch(z3.And(kz >= -nz, kz < nz)):
                    raise IndexError("index %s is out of bounds for dimension %d with size %s" % (kz, d, nz))
            if c is not None:
                kz = kz if c >= 0 else z3.simplify(nz + kz)
            elif not CTX.valid(kz >= 0):
                kz = z3.If(kz >= 0, kz, kz + nz)
            order.append(("pick", d, kz))
        else:
            raise Unsupported("index of type %r" % type(k))
        d += 1
    isl = group_slices(t._groups)
    fn = t.snap()
    nphys = len(t.phys)
    osl = group_slices(out_groups)

    def f(*p):
        q = [None] * nphys
        o = 0
        for w in order:
            if w is None:
                o += 1
                continue
            a, b = isl[w[1]]
            if w[0] == "keep":
                c, e = osl[o]
                for z in range(b - a):
                    q[a + z] = p[c + z]
                o += 1
            elif w[0] == "slice":
                c, e = osl[o]
                i = p[c] if e > c else z3.IntVal(0)
                if b > a:
                    q[a] = z3.simplify(w[2] + i * w[3])
                o += 1
            else:
                if b > a:
                    q[a] = w[2]
        return fn(*q)
    return SymTensor(out_groups, f, t._dt, root=t._root)


def _adv_index(t, key):
    """integer-tensor indexing: all index tensors broadcast together"""
    key = list(key)
    for i, k in enumerate(key):
        if isinstance(k, list):
            key[i] = torch.tensor(k) if not has_sym(k) else _tensor(k)
    if any(k is None for k in key):
        raise Unsupported("None with tensor index")
    # apply slices/ints on other dims first
    pre = [slice(None) if isinstance(k, torch.Tensor) else k for k in key]
    ints = [k for k in pre if isinstance(k, (int, SymInt))]
    if ints:
        raise Unsupported("mixed int and tensor index")
    t = _getitem(t, tuple(pre))
    tdims = [i for i, k in enumerate(key) if isinstance(k, torch.Tensor)]
    idx = [lift(key[i]) for i in tdims]
    for i in tdims:
        t = _flat_dim(t, i)
    groups, fns = bcast(idx)
    contiguous = tdims == list(range(tdims[0], tdims[0] + len(tdims)))
    first = tdims[0] if contiguous else 0
    rest = [i for i in range(t.ndim) if i not in tdims]
    out_groups = []
    layout = []
    before = [i for i in rest if contiguous and i < first]
    after = [i for i in rest if not (contiguous and i < first)]
    for i in before:
        out_groups.append(t._groups[i])
    out_groups += list(groups)
    for i in after:
        out_groups.append(t._groups[i])
    osl = group_slices(out_groups)
    isl = group_slices(t._groups)
    nb = len(before)
    ng = len(groups)
    ia, ib = (osl[nb][0], osl[nb + ng - 1][1]) if ng else (0, 0)
    fn = t.snap()
    nphys = len(t.phys)
    dims = t.dims()

    # safety: index in range, for an arbitrary position
    ks = [CTX.new("k") for d in [d for g in groups for d in g]]
    rng = [z3.And(k >= 0, k < dz(d)) for k, d in zip(ks, [d for g in groups for d in g])]
    for tf, dpos in zip(fns, tdims):
        v = tf(tuple(ks))
        n = dz(dims[dpos])
        CTX.prove("safety:index-in-range", z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), z3.And(v >= -n, v < n)))

    def f(*p):
        q = [None] * nphys
        for o, i in list(enumerate(before)) + [(nb + ng + j, i) for j, i in enumerate(after)]:
            a, b = isl[i]
            c, e = osl[o]
            for z in range(b - a):
                q[a + z] = p[c + z]
        ip = p[ia:ib]
        for tf, dpos in zip(fns, tdims):
            v = tf(ip)
            a, b = isl[dpos]
            if b > a:
                n = dz(dims[dpos])
                q[a] = z3.simplify(z3.If(v >= 0, v, v + n))
        return fn(*q)
    return SymTensor(out_groups, f, t._dt)


class MaskSelect:
    """x[mask]: only usable as x[mask] = g(x[mask]) (pointwise update)"""

    def __init__(self, mask, fn, dtype):
        self.mask, self.t = mask, fn
        self.dtype = dtype

    def _lift(self, f, o, refl=False):
        if isinstance(o, MaskSelect):
            if o.mask is not self.mask:
                raise Unsupported("different masks")
            o = o.t
        elif isinstance(o, torch.Tensor) and o.ndim > 0:
            raise Unsupported("masked select arithmetic")
        return MaskSelect(self.mask, f(o, self.t) if refl else f(self.t, o), self.dtype)

    def __add__(self, o):
        return self._lift(lambda a, b: a + b, o)

    def __radd__(self, o):
        return self._lift(lambda a, b: a + b, o, True)

    def __sub__(self, o):
        return self._lift(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._lift(lambda a, b: a - b, o, True)

    def __mul__(self, o):
        return self._lift(lambda a, b: a * b, o)

    def __rmul__(self, o):
        return self._lift(lambda a, b: a * b, o, True)

    def __truediv__(self, o):
        return self._lift(lambda a, b: a / b, o)

    def __getattr__(self, n):
        raise Unsupported("operation %s on a boolean-mask selection" % n)


_mask_cache = {}


def _mask_select(t, key):
    key = [k for k in key if not (isinstance(k, slice) and k == slice(None))]
    if len(key) != 1:
        raise Unsupported("mask indexing with other indices")
    m = lift(key[0])
    return MaskSelect(_canon_mask(m), SymTensor(t._groups, t.snap(), t._dt), t._dt)


def _canon_mask(m):
    """masks are compared by contents at an arbitrary index"""
    for c in CTX.cache.setdefault("masks", []):
        if c is m or (c._groups == m._groups and _same(c, m)):
            return c
    CTX.cache["masks"].append(m)
    return m


def _same(a, b):
    ks = [z3.Int("@mask%d" % i) for i in range(len(a.phys))]
    return a._fn(ks).eq(b._fn(ks))


@op("__setitem__")
def _setitem(t, key, value):
    if not isinstance(t, SymTensor):
        raise Unsupported("symbolic store into a concrete tensor")
    if not isinstance(key, tuple):
        key = (key,)
    if len(key) == 1 and isinstance(key[0], torch.Tensor) and key[0].dtype == torch.bool:
        m = _canon_mask(lift(key[0]))
        if isinstance(value, MaskSelect):
            if value.mask is not m:
                raise Unsupported("masked store with another mask")
            v = value.t
        else:
            v = lift(value)
            if v.ndim:
                raise Unsupported("masked store of a tensor")
        return t._assign(_to(_where(m, v, SymTensor(t._groups, t.snap(), t._dt)), t._dt))
    # region store: build predicate over index
    old = SymTensor(t._groups, t.snap(), t._dt)
    if t._root is not t:
        raise Unsupported("store through a view")
    nidx = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        e = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:e] + (slice(None),) * (t.ndim - nidx) + key[e + 1:]
    else:
        key = key + (slice(None),) * (t.ndim - nidx)
    if any(isinstance(k, torch.Tensor) and k.ndim > 0 for k in key) or any(k is None for k in key):
        raise Unsupported("advanced indexed store")
    region = _getitem(old, key)  # also bounds-checks
    val = lift(value)
    while val.ndim > region.ndim and isinstance(val.dims()[0], int) and val.dims()[0] == 1:
        val = _getitem(val, 0)
    vg, vf = bcast([region, val])
    if [dprod(g) for g in vg] != region.dims() and not all(deq(a, b) for a, b in zip([dprod(g) for g in vg], region.dims())):
        raise RuntimeError("shape mismatch in assignment")
    vfull = SymTensor(vg, lambda *p: vf[1](p), t._dt) if val._dt == t._dt else _to(SymTensor(vg, lambda *p: vf[1](p), val._dt), t._dt)
    dims = t.dims()
    flat_old = flat_groups(old)

    def f(*idx):
        conds, vi = [], []
        for k, i, n in zip(key, idx, dims):
            if isinstance(k, slice):
                if k == slice(None):
                    vi.append(i)
                    continue
                step = 1 if k.step is None else k.step
                a = dz(_norm_bound(k.start, n, 0))
                b = dz(_norm_bound(k.stop, n, n))
                conds += [i >= a, i < b]
                if not (isinstance(step, int) and step == 1):
                    conds.append((i - a) % zi(step) == 0)
                    vi.append((i - a) / zi(step))
                else:
                    vi.append(z3.simplify(i - a))
            else:
                kz = zi(k._sym_scalar() if isinstance(k, SymTensor) else k)
                conds.append(i == z3.If(kz >= 0, kz, kz + dz(n)))
        newv = vfull.el(*vi)
        return z3.If(z3.And(*conds), newv, flat_old.el(*idx)) if conds else newv
    return t._assign(from_fn(dims, f, t._dt))


@op("index_select")
def _index_select(t, dim, index):
    t = lift(t)
    dim = ndim_norm(dim, t.ndim)
    return _getitem(t, tuple([slice(None)] * dim + [index]))


def prove_range(index, n):
    """safety obligation: every element of the index tensor lies in 0..n-1"""
    ks = [CTX.new("k") for _ in index.phys]
    rng = [z3.And(k >= 0, k < dz(d)) for k, d in zip(ks, index.phys)]
    with CTX.under(rng):
        e = index._fn(ks) if not callable(getattr(index, "snap", None)) else index.snap()(*ks)
    CTX.prove("safety:index-in-range", z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), z3.And(e >= 0, e < dz(n))))


@op("gather")
def _gather(t, dim, index, sparse_grad=False):
    t = flat_groups(lift(t))
    index = flat_groups(lift(index))
    dim = ndim_norm(dim, t.ndim)
    prove_range(index, t.dims()[dim])

    def f(*idx):
        v = index.el(*idx)
        return t.el(*[v if k == dim else i for k, i in enumerate(idx)])
    return from_fn(index.dims(), f, t._dt)


@op("take_along_dim")
def _tad(t, index, dim):
    return _gather(t, dim, index)


@op("index_add_")
def _index_add_(t, dim, index, source, alpha=1):
    t_ = flat_groups(lift(t))
    dim = ndim_norm(dim, t.ndim)
    if t.ndim != 1:
        raise Unsupported("index_add_ beyond 1-d")
    index, source = lift(index), lift(source)
    old = SymTensor(t._groups, t.snap(), t._dt)
    g, fns = bcast([index, source])
    bounds = [d for x in g for d in x]

    def f(i):
        return old.el(i) + zr_int(make_sum("sum", bounds, lambda *p: z3.If(fns[0](p) == i, cast(fns[1](p), t._kind) * alpha, cast(z3.IntVal(0), t._kind)), t._kind))
    return t._assign(from_fn(t.dims(), f, t._dt))


def zr_int(e):
    return e


OPS["index_add"] = lambda t, dim, index, source, alpha=1: _index_add_(SymTensor(lift(t)._groups, lift(t).snap(), lift(t)._dt), dim, index, source, alpha)


# ---------------------------------------------------------------- reductions
class SumNode:
    def __init__(self, kind, const, bounds, mk, sort):
        self.kind, self.const, self.bounds, self.mk, self.sort = kind, const, bounds, mk, sort
        self._lem = None

    def lemmas(self, ctx):
        if self._lem is not None:
            return self._lem
        self._lem = []
        from .solve import prove
        if ctx.valid(z3.And(*[d == 1 for d in self.bounds])):
            self._lem.append(self.const == self.mk([z3.IntVal(0) for _ in self.bounds]))
            return self._lem
        if self.kind != "sum":
            return self._lem
        ks = [ctx.new("k") for _ in self.bounds]
        rng = z3.And(*[z3.And(k >= 0, k < d) for k, d in zip(ks, self.bounds)])
        with ctx.under([rng]):
            b = self.mk(ks)
        if prove(ctx, z3.Implies(rng, b >= 0), 2, timeout=1500)[0] == "discharged":
            self._lem.append(self.const >= 0)
            if prove(ctx, z3.Implies(rng, b > 0), 2, timeout=1500)[0] == "discharged" and ctx.valid(z3.And(*[d >= 1 for d in self.bounds])):
                self._lem.append(self.const > 0)
        elif prove(ctx, z3.Implies(rng, b <= 0), 2, timeout=1500)[0] == "discharged":
            self._lem.append(self.const <= 0)
        return self._lem


def make_sum(kind, bounds, body, k, unroll=None):
    """Σ body over bounds (z3 Int index terms) as a term"""
    bounds = [dsimp(b) for b in bounds]
    if all(isinstance(b, int) for b in bounds):
        n = 1
        for b in bounds:
            n *= b
        if n <= (unroll or UNROLL):
            r = None
            for tup in itertools.product(*[range(b) for b in bounds]):
                e = body(*[z3.IntVal(i) for i in tup])
                r = e if r is None else (r + e if kind == "sum" else r * e)
            return r if r is not None else (cast(z3.IntVal(0 if kind == "sum" else 1), k))
    if any(isinstance(b, int) and b == 1 for b in bounds):
        keep = [j for j, b in enumerate(bounds) if not (isinstance(b, int) and b == 1)]

        def full(*ks, body=body, n=len(bounds)):
            z = [z3.IntVal(0)] * n
            for j, x in zip(keep, ks):
                z[j] = x
            return body(*z)
        return make_sum(kind, [bounds[j] for j in keep], full, k, unroll)
    zb_ = [dz(b) for b in bounds]
    d = CTX.depth
    CTX.depth += 1
    try:
        vs = [CTX.bound_var(d, j, b) for j, b in enumerate(zb_)]
        with CTX.under([z3.And(x >= 0, x < b) for x, b in zip(vs, zb_)]):
            e = z3.simplify(body(*vs))
    finally:
        CTX.depth -= 1
    c = conc(e)
    if c is not None and kind == "sum":
        return cast(z3.IntVal(1), k) * 0 if c == 0 else (rv(c) if k == "r" else z3.IntVal(int(c))) * cast(dz(dprod(bounds)), k)
    key = (kind, tuple(b.get_id() for b in zb_), e.get_id())
    if key in CTX.sumkeys:
        return CTX.sumkeys[key][0]
    CTX.fresh += 1
    name = "%s#%d" % (kind, CTX.fresh)
    cst = (z3.Real if k == "r" else z3.Int)(name)

    def mk(ks):
        return z3.simplify(body(*ks))
    CTX.sums[name] = SumNode(kind, cst, zb_, mk, k)
    CTX.sumkeys[key] = (cst, e, zb_)
    return cst


def _dims_arg(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (list, tuple)):
        return [ndim_norm(d, t.ndim) for d in dim] or list(range(t.ndim))
    return [ndim_norm(dim, t.ndim)]


def _reduce(t, dims, keepdim, f, dtype):
    """f(bounds, body) -> term"""
    og, sl = [], group_slices(t._groups)
    red = []
    for i, g in enumerate(t._groups):
        if i in dims:
            red += list(range(*sl[i]))
            if keepdim:
                og.append(())
        else:
            og.append(g)
    phys = t.phys
    keep = [i for i in range(len(phys)) if i not in red]
    bounds = [phys[i] for i in red]
    fn = t.snap()

    def out(*p):
        def body(*r):
            q = [None] * len(phys)
            for i, v in zip(keep, p):
                q[i] = v
            for i, v in zip(red, r):
                q[i] = v
            return fn(*q)
        return f(bounds, body)
    return SymTensor(og, out, dtype)


@op("sum")
def _sum(t, dim=None, keepdim=False, dtype=None, axis=None):
    dim = axis if axis is not None else dim
    t = lift(t)
    dt = dtype or (torch.int64 if t._kind in "bi" else t._dt)
    t = _to(t, dt)
    k = kind_of(dt)
    return _reduce(t, _dims_arg(t, dim), keepdim, lambda b, body: make_sum("sum", b, body, k), dt)


@op("nansum")
def _nansum(t, dim=None, keepdim=False, dtype=None):
    return _sum(t, dim, keepdim, dtype)


@op("count_nonzero")
def _count_nonzero(t, dim=None):
    return _sum(_to(lift(t), torch.bool), dim)


@op("mean")
def _mean(t, dim=None, keepdim=False, dtype=None, axis=None):
    dim = axis if axis is not None else dim
    t = lift(t)
    if t._kind != "r" and dtype is None:
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype")
    if dtype:
        t = _to(t, dtype)
    dims = _dims_arg(t, dim)
    n = dprod([dprod(t._groups[d]) for d in dims])
    nz = rv(n) if isinstance(n, int) else z3.ToReal(n)
    if isinstance(n, int) and n == 0:
        raise Unsupported("mean of nothing")
    return _reduce(t, dims, keepdim, lambda b, body: rdiv(make_sum("sum", b, body, "r"), nz), t._dt)


@op("var")
def _var(t, dim=None, unbiased=True, keepdim=False, correction=None):
    t = lift(t)
    c = correction if correction is not None else (1 if unbiased else 0)
    dims = _dims_arg(t, dim)
    n = dprod([dprod(t._groups[d]) for d in dims])
    m = _mean(t, dims, True)
    d2 = OPS["square"](t - m)
    nz = zr(wrap(dz(n))) - c
    return _reduce(d2, dims, keepdim, lambda b, body: rdiv(make_sum("sum", b, body, "r"), z3.simplify(nz)), t._dt)


OPS["std"] = lambda t, *a, **k: OPS["sqrt"](_var(t, *a, **k))
OPS["var_mean"] = lambda t, *a, **k: (_var(t, *a, **k), _mean(t, a[0] if a else k.get("dim"), k.get("keepdim", False)))


@op("prod")
def _prod(t, dim=None, keepdim=False, dtype=None):
    t = lift(t)
    dt = dtype or (torch.int64 if t._kind in "bi" else t._dt)
    t = _to(t, dt)
    return _reduce(t, _dims_arg(t, dim), keepdim, lambda b, body: make_sum("prod", b, body, kind_of(dt)), dt)


def _extreme(bounds, body, k, lt):
    """min/max over bounds; returns (value term, witness tuple)"""
    bounds = [dsimp(b) for b in bounds]
    if all(isinstance(b, int) for b in bounds) and math.prod(bounds) <= UNROLL and math.prod(bounds) > 0:
        best = None
        for tup in itertools.product(*[range(b) for b in bounds]):
            e = body(*[z3.IntVal(i) for i in tup])
            if best is None:
                best = (e, [z3.IntVal(i) for i in tup])
            else:
                c = lt(e, best[0])
                best = (z3.If(c, e, best[0]), [z3.If(c, z3.IntVal(i), w) for i, w in zip(tup, best[1])])
        return best
    zb_ = [dz(b) for b in bounds]
    d = CTX.depth
    CTX.depth += 1
    try:
        vs = [CTX.bound_var(d, j, b) for j, b in enumerate(zb_)]
        with CTX.under([z3.And(x >= 0, x < b) for x, b in zip(vs, zb_)]):
            e = z3.simplify(body(*vs))
    finally:
        CTX.depth -= 1
    key = ("ext", lt.__name__, tuple(b.get_id() for b in zb_), e.get_id())
    hit = CTX.sumkeys.get(key)
    if hit:
        return hit[0], hit[3]
    ws = [CTX.new("w") for _ in bounds]
    for w, b in zip(ws, zb_):
        CTX.fact(z3.Implies(b > 0, z3.And(w >= 0, w < b)))
    val = z3.simplify(body(*ws))
    m = CTX.new("ext", k)
    CTX.fact(m == val)

    def mk(*ks):
        x = body(*ks)
        first = z3.BoolVal(True)
        if len(ks) == 1:
            # first index attaining the extreme
            first = z3.Implies(x == m, ws[0] <= ks[0])
        return z3.And(z3.Not(lt(x, m)), first)
    CTX.univ.append((zb_, mk))
    CTX.sumkeys[key] = (m, e, zb_, ws)
    return m, ws


def lt_min(a, b):
    return a < b


def lt_max(a, b):
    return a > b


def _minmax(lt, elementwise):
    def f(t, dim=None, keepdim=False, other=None, **kw):
        if isinstance(dim, torch.Tensor) or other is not None:
            return OPS[elementwise](t, dim if other is None else other)
        t = lift(t)
        if t._kind == "b":
            r = f(t.to(torch.int64), dim, keepdim)
            return r.to(torch.bool) if dim is None else NT(r[0].to(torch.bool), r[1])
        if dim is None:
            if any(isinstance(d, int) and d == 0 for d in t.dims()):
                raise RuntimeError("min()/max(): Expected reduction dim to be specified for input.numel() == 0.")
            return _reduce(t, list(range(t.ndim)), False, lambda b, body: _extreme(b, body, t._kind, lt)[0], t._dt)
        dims = _dims_arg(t, dim)
        t = _flat_dim(t, dims[0])
        v = _reduce(t, dims, keepdim, lambda b, body: _extreme(b, body, t._kind, lt)[0], t._dt)
        i = _reduce(t, dims, keepdim, lambda b, body: (_extreme(b, body, t._kind, lt)[1] or [z3.IntVal(0)])[0], torch.int64)
        return NT(v, i)
    return f


class NT(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))

    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


OPS["min"] = _minmax(lt_min, "minimum")
OPS["max"] = _minmax(lt_max, "maximum")


def _amm(lt):
    def f(t, dim=(), keepdim=False):
        t = lift(t)
        dims = _dims_arg(t, dim if not (isinstance(dim, tuple) and not dim) else None)
        return _reduce(t, dims, keepdim, lambda b, body: _extreme(b, body, t._kind, lt)[0], t._dt)
    return f


OPS["amin"], OPS["amax"] = _amm(lt_min), _amm(lt_max)


def _arg(lt):
    def f(t, dim=None, keepdim=False):
        t = lift(t)
        if dim is None:
            t = _flatten(t)
            dim = 0
        dims = _dims_arg(t, dim)
        t = _flat_dim(t, dims[0])
        return _reduce(t, dims, keepdim, lambda b, body: (_extreme(b, body, t._kind, lt)[1] or [z3.IntVal(0)])[0], torch.int64)
    return f


OPS["argmin"], OPS["argmax"] = _arg(lt_min), _arg(lt_max)


def _anyall(is_all):
    def f(t, dim=None, keepdim=False):
        t = _to(lift(t), torch.bool)

        def red(bounds, body):
            bounds = [dsimp(b) for b in bounds]
            if all(isinstance(b, int) for b in bounds) and math.prod(bounds) <= UNROLL:
                es = [body(*[z3.IntVal(i) for i in tup]) for tup in itertools.product(*[range(b) for b in bounds])]
                return z3.And(*es) if is_all else z3.Or(*es)
            if not CTX.depth:
                ks = [CTX.new("k") for _ in bounds]
                e = z3.simplify(body(*ks))
                if z3.is_true(e) and is_all:
                    return z3.BoolVal(True)
                if z3.is_false(e) and not is_all:
                    return z3.BoolVal(False)
                rng = z3.And(*[z3.And(q >= 0, q < dz(b)) for q, b in zip(ks, bounds)])
                if is_all and CTX.valid(z3.Implies(rng, e)):
                    return z3.BoolVal(True)
                if not is_all and CTX.valid(z3.Implies(rng, z3.Not(e))):
                    return z3.BoolVal(False)
            r = CTX.new("all" if is_all else "any", "b")
            ws = [CTX.new("w") for _ in bounds]
            inr = z3.And(*[z3.And(w >= 0, w < dz(b)) for w, b in zip(ws, bounds)])
            if is_all:
                CTX.fact(z3.Implies(z3.Not(r), z3.And(inr, z3.Not(body(*ws)))))
                CTX.univ.append(([dz(b) for b in bounds], lambda *ks: z3.Implies(r, body(*ks))))
            else:
                CTX.fact(z3.Implies(r, z3.And(inr, body(*ws))))
                CTX.univ.append(([dz(b) for b in bounds], lambda *ks: z3.Implies(body(*ks), r)))
            return r
        return _reduce(t, _dims_arg(t, dim), keepdim, red, torch.bool)
    return f


OPS["all"], OPS["any"] = _anyall(True), _anyall(False)


@op("equal")
def _equal(a, b):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim or not all(deq(x, y, fork=True) for x, y in zip(a.dims(), b.dims())):
        return False
    return bool(_anyall(True)(_eq(a, b)))


@op("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_anyall(True)(ew(lambda x, y: zabs(x - y) <= rv(atol) + rv(rtol) * zabs(y), a, b, in_kind="r", out_dtype=torch.bool)))


@op("cumsum")
def _cumsum(t, dim=0, dtype=None, axis=None):
    t = lift(t)
    dim = ndim_norm(axis if axis is not None else dim, t.ndim)
    t = _flat_dim(t, dim)
    t = _to(t, dtype or (torch.int64 if t._kind in "bi" else t._dt))
    n = t.dims()[dim]
    sl = group_slices(t._groups)
    a, b = sl[dim]
    fn = t.snap()
    k = t._kind
    if a == b:
        return t

    def f(*p):
        i = p[a]
        ci = conc(z3.simplify(i))
        if ci is not None and ci <= UNROLL:
            r = None
            for j in range(int(ci) + 1):
                e = fn(*(list(p[:a]) + [z3.IntVal(j)] + list(p[b:])))
                r = e if r is None else r + e
            return r
        if isinstance(n, int) and n <= UNROLL:
            r = None
            for j in range(n):
                e = fn(*(list(p[:a]) + [z3.IntVal(j)] + list(p[b:])))
                e = e if j == 0 else z3.If(i >= j, e, cast(z3.IntVal(0), k))
                r = e if r is None else r + e
            return r
        return make_sum("sum", [z3.simplify(i + 1)], lambda j: fn(*(list(p[:a]) + [j] + list(p[b:]))), k)
    return SymTensor(t._groups, f, t._dt)


@op("norm")
def _norm(t, p=2, dim=None, keepdim=False, dtype=None):
    if p in (2, "fro", 2.0, None):
        return OPS["sqrt"](_sum(OPS["square"](lift(t)), dim, keepdim))
    if p == 1:
        return _sum(OPS["abs"](lift(t)), dim, keepdim)
    raise Unsupported("norm p=%r" % (p,))


OPS["linalg_norm"] = lambda t, ord=None, dim=None, keepdim=False, dtype=None: _norm(t, 2 if ord is None else ord, dim, keepdim)
OPS["linalg_vector_norm"] = OPS["vector_norm"] = lambda t, ord=2, dim=None, keepdim=False, dtype=None: _norm(t, ord, dim, keepdim)


@op("normalize")
def _normalize(t, p=2.0, dim=1, eps=1e-12, out=None):
    t = lift(t)
    n = OPS["clamp"](_norm(t, p, dim, True), min=eps)
    return t / n


@op("logsumexp")
def _logsumexp(t, dim, keepdim=False):
    return OPS["log"](_sum(OPS["exp"](t), dim, keepdim))


HOOKS = {}


@op("softmax", "_softmax")
def _softmax(t, dim=None, dtype=None, _stacklevel=3):
    t = lift(t)
    if "softmax" in HOOKS:
        return HOOKS["softmax"](t, dim)
    e = OPS["exp"](t)
    return e / _sum(e, dim, True)


@op("log_softmax")
def _log_softmax(t, dim=None, dtype=None, _stacklevel=3):
    t = lift(t)
    return t - _logsumexp(t, dim, True)


# ---------------------------------------------------------------- contractions
@op("matmul", "__matmul__", "bmm", "mm", "mv", "dot")
def _matmul(a, b):
    a, b = lift(a), lift(b)
    dt = torch.promote_types(a._dt, b._dt)
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = _unsqueeze(a, 0)
    if vb:
        b = _unsqueeze(b, 1)
    # (..., m, k) @ (..., k, n)
    A1 = _unsqueeze(a, -1)          # ..., m, k, 1
    B1 = _unsqueeze(b, -3)          # ..., 1, k, n
    r = _sum(_mulr(A1, B1), -2)
    if va:
        r = _squeeze_at(r, r.ndim - 2)
    if vb:
        r = _squeeze_at(r, r.ndim - 1)
    return r


def _mulr(a, b):
    return ew(zmul, a, b)


def _squeeze_at(t, d):
    g = list(t._groups)
    assert len(g[d]) == 0
    return regroup(t, g[:d] + g[d + 1:])


OPS["__rmatmul__"] = lambda a, b: _matmul(b, a)
OPS["baddbmm"] = lambda i, a, b, beta=1, alpha=1: i * beta + _matmul(a, b) * alpha
OPS["addmm"] = OPS["baddbmm"]


@op("einsum")
def _einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    eq = eq.replace(" ", "")
    if "." in eq:
        raise Unsupported("einsum ellipsis")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if not _:
        rhs = "".join(sorted(c for c in set(lhs.replace(",", "")) if lhs.count(c) == 1))
    letters = list(rhs) + sorted(set(lhs.replace(",", "")) - set(rhs))
    prod = None
    for sub, t in zip(ins, ops):
        t = lift(t)
        if len(set(sub)) != len(sub):
            raise Unsupported("einsum diagonal")
        perm = [sub.index(c) for c in letters if c in sub]
        t = _permute(t, *perm)
        k = 0
        for pos, c in enumerate(letters):
            if c not in sub:
                t = _unsqueeze(t, pos)
        prod = t if prod is None else _mulr(prod, t)
    red = list(range(len(rhs), len(letters)))
    return _sum(prod, red) if red else prod
