"""Make torch's namespaces accept symbolic values (see tensor.py)."""
import builtins
import math
import sys
import torch
import torch.nn.functional as F
from . import REPO
from . import axioms as A
from .core import CTX, SymBool, SymInt, SymReal, Unsupported, is_sym, wrap, zi, zr, z3, to_int, round_half_even, rv, rdiv
from .tensor import OPS, SymTensor, SymSize, has_sym, lift
from . import nnops  # noqa: F401  (registers ops)

_REAL = {}


def _wrap_ns(ns, name):
    real = getattr(ns, name)
    impl = OPS[name]
    _REAL[(ns.__name__, name)] = real

    def w(*a, **k):
        if has_sym(a) or (k and has_sym(k)):
            return impl(*a, **k)
        return real(*a, **k)
    w.__name__ = name
    w.__wrapped_real__ = real
    setattr(ns, name, w)


class FakeCtx:
    def __init__(self):
        self.saved_tensors = ()
        self.needs_input_grad = (True,) * 8

    def save_for_backward(self, *ts):
        self.saved_tensors = ts

    def mark_non_differentiable(self, *a):
        pass

    def set_materialize_grads(self, v):
        pass

    def mark_dirty(self, *a):
        pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class sint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(zi(x))
        if isinstance(x, SymReal):
            return wrap(to_int(x.e))
        if isinstance(x, SymTensor):
            return sint(x._sym_scalar())
        return builtins.int(x, *a)

    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or isinstance(x, SymReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


class sfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return wrap(zr(x))
        if isinstance(x, SymTensor):
            return sfloat(x._sym_scalar())
        return builtins.float(x)


def slen(x):
    if isinstance(x, SymTensor):
        return x.shape[0]
    if hasattr(x, "_sym_len"):
        return x._sym_len()
    return builtins.len(x)


class SymRange:
    """range with symbolic bounds; iteration needs a loop invariant or a determined trip count"""

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def count(self):
        s = self.s
        if isinstance(s, builtins.int) and s == 1:
            n = self.b - self.a
        else:
            n = (self.b - self.a + s - 1) // s
        return n

    def __iter__(self):
        hook = CTX.cache.get("loop_hook")
        if hook is not None:
            yield from hook(self)
            return
        i = 0
        while True:
            # unfold with a path decision per iteration (bounded by the path budget)
            v = self.a + i * self.s
            if not (v < self.b):
                return
            if i > 40:
                raise Unsupported("symbolic trip count without an invariant")
            yield v
            i += 1


def srange(*a):
    if not has_sym(a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        a = (0, a[0], 1)
    elif builtins.len(a) == 2:
        a = (a[0], a[1], 1)
    return SymRange(*a)


def sround(x, n=None):
    if isinstance(x, (SymReal, SymInt)):
        return x.__round__(n)
    return builtins.round(x) if n is None else builtins.round(x, n)


INJECT = {"int": sint, "float": sfloat, "len": slen, "range": srange, "round": sround}


def inject(modules):
    for m in modules:
        for k, v in INJECT.items():
            if k not in m.__dict__:
                m.__dict__[k] = v


def preload(names):
    import importlib
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:
            pass


def repo_modules(prefixes=(REPO + "/",)):
    out = []
    for m in builtins.list(sys.modules.values()):
        f = getattr(m, "__file__", None)
        if f and any(f.startswith(p) for p in prefixes):
            out.append(m)
    return out


def _math_patch():
    def mk(name, fn):
        real = getattr(math, name)

        def w(x, *a):
            if is_sym(x) or isinstance(x, SymTensor) or any(is_sym(y) for y in a):
                if isinstance(x, SymTensor):
                    x = x._sym_scalar()
                return fn(x, *a)
            return real(x, *a)
        w.__name__ = name
        setattr(math, name, w)

    def log(x, base=None):
        if not is_sym(x):
            return wrap(rdiv(rv(_rlog(x)), A.log(zr(base))))
        r = A.log(zr(x))
        if base is not None:
            r = rdiv(r, A.log(zr(base)) if is_sym(base) else rv(_rlog(base)))
        return wrap(r)
    _rlog = math.log
    mk("log", log)
    mk("log2", lambda x: wrap(rdiv(A.log(zr(x)), rv(_rlog(2.0)))))
    mk("log10", lambda x: wrap(rdiv(A.log(zr(x)), rv(_rlog(10.0)))))
    mk("log1p", lambda x: wrap(A.log(1 + zr(x))))
    mk("exp", lambda x: wrap(A.exp(zr(x))))
    mk("sqrt", lambda x: wrap(A.sqrt(zr(x))))
    mk("cos", lambda x: wrap(A.cos_f(zr(x))))
    mk("sin", lambda x: wrap(A.sin_f(zr(x))))
    mk("tanh", lambda x: wrap(A.tanh_f(zr(x))))
    mk("erf", lambda x: wrap(A.erf_f(zr(x))))
    mk("isnan", lambda x: False)
    mk("isinf", lambda x: False)
    mk("fabs", lambda x: abs(x))
    mk("pow", lambda x, y: x ** y)
    real_prod = math.prod

    def prod(it, *, start=1):
        it = builtins.list(it)
        if has_sym(it) or is_sym(start):
            r = start
            for v in it:
                r = r * v
            return r
        return real_prod(it, start=start)
    math.prod = prod


_done = [False]


def install():
    if _done[0]:
        return
    _done[0] = True
    torch.jit.script = lambda obj=None, *a, **k: obj
    torch.jit.script_if_tracing = lambda fn: fn
    # symbolic tensors: methods
    for n, f in OPS.items():
        if hasattr(torch.Tensor, n) and n not in SymTensor.__dict__:
            def m(*a, _f=f, **k):
                return _f(*a, **k)
            m.__name__ = n
            setattr(SymTensor, n, m)
    for ns in (torch, F, torch.linalg, torch.special):
        for n in builtins.list(OPS):
            if hasattr(ns, n) and callable(getattr(ns, n)) and not isinstance(getattr(ns, n), type):
                _wrap_ns(ns, n)
    if hasattr(torch.linalg, "norm"):
        real_ln = torch.linalg.norm
        torch.linalg.norm = lambda t, ord=None, dim=None, keepdim=False, **k: OPS["linalg_norm"](t, ord, dim, keepdim) if has_sym(t) else real_ln(t, ord, dim, keepdim, **k)
    # concrete tensors combined with symbolic arguments
    for n in ("repeat", "expand", "view", "reshape", "__getitem__", "new_zeros", "new_ones", "new_full", "roll", "narrow",
              "index_select", "flip", "unsqueeze", "split", "add", "sub", "mul", "div", "pow", "masked_fill", "clamp", "fill_", "to"):
        real = getattr(torch.Tensor, n)
        impl = OPS[n]

        def w(self, *a, _real=real, _impl=impl, **k):
            if a and has_sym(a) or k and has_sym(k):
                return _impl(self, *a, **k)
            return _real(self, *a, **k)
        w.__name__ = n
        if n not in torch.Tensor.__dict__ or n in ("__getitem__",) or True:
            setattr(torch.Tensor, n, w)
    # arithmetic of concrete tensors with symbolic scalars: let the scalar's reflected op run through lift
    for n in ("__add__", "__sub__", "__mul__", "__truediv__", "__pow__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__",
              "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__mod__", "__floordiv__"):
        real = getattr(torch.Tensor, n)
        impl = OPS[n]

        def w(self, o, _real=real, _impl=impl):
            if is_sym(o) or isinstance(o, SymTensor) or isinstance(self, SymTensor):
                return _impl(self, o)
            return _real(self, o)
        w.__name__ = n
        setattr(torch.Tensor, n, w)
    for n in ("__add__", "__sub__", "__mul__", "__truediv__", "__pow__", "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__",
              "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__mod__", "__floordiv__"):
        f = OPS[n]

        def m2(self, o, _f=f):
            return _f(self, o)
        setattr(SymTensor, n, m2)
    SymTensor.__hash__ = lambda self: id(self)
    # custom autograd functions: run the real forward; keep ctx for the contract on backward
    real_apply = torch.autograd.Function.apply

    def apply(cls, *a, **k):
        if has_sym(a):
            ctx = FakeCtx()
            out = cls.forward(ctx, *a, **k)
            if isinstance(out, SymTensor):
                if any(out is x for x in a):
                    out = SymTensor(out._groups, out.snap(), out._dt)
                out.__dict__["_history"] = (cls, ctx, a)
            return out
        return real_apply.__func__(cls, *a, **k)
    torch.autograd.Function.apply = classmethod(apply)
    _math_patch()
    # torch.Size over symbolic dims
    real_bt = torch.broadcast_tensors

    def broadcast_tensors(*ts):
        if has_sym(ts):
            from .tensor import bcast
            ts = [lift(t) for t in ts]
            g, fns = bcast(ts)
            return tuple(SymTensor(g, (lambda *p, f=f: f(p)), t._dt) for f, t in zip(fns, ts))
        return real_bt(*ts)
    torch.broadcast_tensors = broadcast_tensors
    torch.functional.broadcast_tensors = broadcast_tensors
    real_bs = torch.broadcast_shapes
    real_rt = torch.result_type
    torch.is_tensor = lambda x: isinstance(x, torch.Tensor)
    real_isfp = torch.is_floating_point
    torch.is_floating_point = lambda x: x.dtype.is_floating_point
    real_numel = torch.numel
    torch.numel = lambda x: x.numel()
    real_nan = torch._is_all_true if hasattr(torch, "_is_all_true") else None
    if real_nan is not None:
        torch._is_all_true = lambda x: OPS["all"](x) if isinstance(x, SymTensor) else real_nan(x)
    # Uniform/Normal helper
    import torch.distributions.utils as du
    real_ball = du.broadcast_all

    def broadcast_all(*values):
        if has_sym(values):
            vals = [v if isinstance(v, torch.Tensor) else lift(v, torch.get_default_dtype()) if is_sym(v) else torch.tensor(builtins.float(v)) for v in values]
            return broadcast_tensors(*vals)
        return real_ball(*values)
    for mod in builtins.list(sys.modules.values()):
        if getattr(mod, "__name__", "").startswith("torch.distributions") and getattr(mod, "broadcast_all", None) is real_ball:
            mod.broadcast_all = broadcast_all
