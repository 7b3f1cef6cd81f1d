"""python -m pyvc.conformance: compare the contracts assumed for torch operations with the real torch.

Each case applies one expression to symbolic tensors (element = uninterpreted function of its index) twice: with all sizes symbolic and
with concrete sizes.  The resulting shapes, dtypes and element terms are then evaluated under a concrete valuation of sizes and elements
(reductions by their definition, transcendental functions by float64) and compared with what torch computes on those numbers.  Exactly
one explored path must be taken by the valuation.  This is testing of the trusted base, not part of any verdict.
"""
import itertools
import math
import random
import sys
import time
from fractions import Fraction

import torch
import torch.nn.functional as F

from . import patch
from .core import CTX, Unsupported, Undecided, explore, z3
from .tensor import SymTensor, fresh_tensor


class NoValue(Exception):
    pass


UF1 = {"exp": math.exp, "log": math.log, "erf": math.erf, "tanh": math.tanh, "atanh": math.atanh, "sqrt": math.sqrt, "sin": math.sin,
       "cos": math.cos, "erfinv": lambda x: torch.erfinv(torch.tensor(x, dtype=torch.float64)).item()}


class Eval:
    def __init__(self, ints, tensors):
        self.ints, self.tensors, self.memo, self.keep, self.bound = ints, tensors, {}, [], {}

    def __call__(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self.ev(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def ev(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return t.as_fraction()
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        if k is None:
            raise NoValue("quantifier")
        if k == z3.Z3_OP_ITE:
            return self(t.arg(1)) if self(t.arg(0)) else self(t.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self(c) for c in t.children())
        if k == z3.Z3_OP_OR:
            return any(self(c) for c in t.children())
        if k == z3.Z3_OP_IMPLIES:
            return (not self(t.arg(0))) or self(t.arg(1))
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.uf(t)
        a = [self(c) for c in t.children()]
        if k == z3.Z3_OP_ADD:
            return sum(a[1:], a[0])
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:]) if len(a) > 1 else -a[0]
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise NoValue("division by zero")
            return a[0] / a[1] if isinstance(a[0], float) or isinstance(a[1], float) else Fraction(a[0]) / a[1]
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if a[1] == 0:
                raise NoValue("division by zero")
            m = a[0] % abs(a[1])
            return m if k == z3.Z3_OP_MOD else (a[0] - m) // a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        raise NoValue("operator %s" % t.decl().name())

    def uf(self, t):
        n = t.decl().name()
        if not t.num_args():
            if n in self.ints:
                return self.ints[n]
            if n in CTX.sums:
                return self.reduction(CTX.sums[n])
            if n in self.tensors:
                return self.elem(self.tensors[n].reshape(()))
            return self.defined(t)
        a = [self(c) for c in t.children()]
        if n in self.tensors:
            x = self.tensors[n]
            x = x.reshape([d for d in x.shape if d != 1])
            if not all(0 <= i < d for i, d in zip(a, x.shape)):
                raise NoValue("element %s[%s] outside the tensor" % (n, a))
            return self.elem(x[tuple(a)])
        if n in UF1:
            try:
                return UF1[n](float(a[0]))
            except ValueError as e:
                raise NoValue(str(e))
        if n == "atan2":
            return math.atan2(float(a[0]), float(a[1]))
        if n == "pow":
            return float(a[0]) ** float(a[1])
        raise NoValue("function %s" % n)

    @staticmethod
    def elem(x):
        v = x.item()
        return Fraction(v) if isinstance(v, float) else v

    def reduction(self, node):
        bs = [self(b) for b in node.bounds]
        r = 0 if node.kind == "sum" else 1
        for tup in itertools.product(*[range(b) for b in bs]):
            v = self(node.mk([z3.IntVal(i) for i in tup]))
            r = r + v if node.kind == "sum" else r * v
        return r

    def defined(self, t):
        """an auxiliary constant, by the facts that define it (m == value, or the only integer allowed)"""
        for f in CTX.facts:
            if z3.is_eq(f):
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if x.eq(t):
                        return self(y)
        if t.sort_kind() == z3.Z3_INT_SORT:
            s = z3.Solver()
            s.set("timeout", 3000)
            sub = [(z3.Int(n), z3.IntVal(v)) for n, v in self.ints.items()]
            s.add(*[z3.substitute(f, *sub) for f in list(CTX.facts) + list(CTX.path)])
            if s.check() == z3.sat:
                v = s.model().eval(t, model_completion=True)
                s.add(t != v)
                if s.check() == z3.unsat:
                    return v.as_long()
        raise NoValue("constant %s" % t)


class DimT:
    """a case's argument: shape and kind of one tensor"""
    def __init__(self, *shape, dtype=torch.float64, lo=-3.0, hi=3.0):
        self.shape, self.dtype, self.lo, self.hi = shape, dtype, lo, hi

    def real(self, rng):
        n = math.prod(self.shape)
        if self.dtype == torch.bool:
            v = [rng.random() < 0.5 for _ in range(n)]
        elif self.dtype in (torch.int64, torch.int32, torch.uint8):
            v = [rng.randint(int(self.lo), int(self.hi)) for _ in range(n)]
        else:
            v = [rng.uniform(self.lo, self.hi) for _ in range(n)]
        return torch.tensor(v, dtype=self.dtype).reshape(self.shape)


T = DimT
I = lambda *s, lo=-4, hi=5: DimT(*s, dtype=torch.int64, lo=lo, hi=hi)
B = lambda *s: DimT(*s, dtype=torch.bool)
P = lambda *s: DimT(*s, lo=0.1, hi=3.0)
U = lambda *s: DimT(*s, lo=-0.95, hi=0.95)
CASES = []


def case(name, fn, *args):
    CASES.append((name, fn, args))


def _cases():
    for n in ("abs", "neg", "exp", "expm1", "exp2", "erf", "erfc", "tanh", "square", "sin", "cos", "sigmoid", "relu", "sign", "floor", "ceil",
              "round", "trunc", "isnan", "isfinite", "logical_not"):
        case(n, lambda x, n=n: getattr(torch, n)(x), T(3, 4))
    for n in ("log", "log2", "log10", "log1p", "sqrt", "rsqrt", "reciprocal"):
        case(n, lambda x, n=n: getattr(torch, n)(x), P(3, 4))
    for n in ("erfinv", "atanh"):
        case(n, lambda x, n=n: getattr(torch, n)(x), U(3, 4))
    case("round-half", lambda x: torch.round(x / 2), I(4, 3))
    case("abs-int", lambda x: x.abs(), I(4, 3))
    for n in ("softplus", "leaky_relu", "relu6", "hardtanh", "logsigmoid", "silu", "gelu", "elu"):
        case("F." + n, lambda x, n=n: getattr(F, n)(x), T(3, 4))
    for n in ("add", "sub", "mul", "div", "maximum", "minimum", "atan2", "fmod", "remainder", "lt", "le", "gt", "ge", "eq", "ne"):
        case(n, lambda x, y, n=n: getattr(torch, n)(x, y), T(3, 4), P(3, 4))
        case(n + "-broadcast", lambda x, y, n=n: getattr(torch, n)(x, y), T(3, 1, 4), P(5, 1))
    for n in ("add", "sub", "mul", "maximum", "minimum", "lt", "le", "eq", "ne", "remainder", "floor_divide"):
        case(n + "-int", lambda x, y, n=n: getattr(torch, n)(x, y), I(3, 4), I(3, 4, lo=1, hi=4))
    case("div-int", lambda x, y: x / y, I(3, 4), I(3, 4, lo=1, hi=4))
    case("floordiv", lambda x, y: x // y, T(3, 4), P(3, 4))
    case("div-trunc", lambda x, y: torch.div(x, y, rounding_mode="trunc"), T(3, 4), P(3, 4))
    case("div-floor", lambda x, y: torch.div(x, y, rounding_mode="floor"), I(3, 4), I(3, 4, lo=1, hi=4))
    case("rops", lambda x: 2 - x + 3 * x / 4 + 1.5 / (x + 7) - (5 - x), T(3, 4))
    case("rpow", lambda x: 2 ** x, T(3))
    case("pow-int", lambda x: x ** 3 + x ** 2 + x.pow(0), T(3, 4))
    case("pow-half", lambda x: x ** 0.5 + x ** -1, P(3, 4))
    case("pow-tensor", lambda x, y: torch.pow(x, y), P(3, 4), T(3, 4))
    case("bool-ops", lambda a, b: (a & b) | (~a ^ b), B(3, 4), B(3, 4))
    case("logical", lambda a, b: torch.logical_xor(torch.logical_and(a, b), torch.logical_or(a, b)), B(3, 4), B(3, 4))
    case("clamp", lambda x: x.clamp(-1, 1.5), T(3, 4))
    case("clamp-min", lambda x: x.clamp(min=0.25), T(3, 4))
    case("clamp-t", lambda x, y: torch.clamp(x, min=y), T(3, 4), T(4))
    case("where", lambda c, x, y: torch.where(c, x, y), B(3, 1), T(3, 4), T(4))
    case("where-scalar", lambda x: torch.where(x > 0, x, 0.5), T(3, 4))
    case("masked_fill", lambda x, m: x.masked_fill(m, -2.0), T(3, 4), B(3, 4))
    case("lerp", lambda x, y: torch.lerp(x, y, 0.3), T(3, 4), T(3, 4))
    for a, b in ((torch.float32, torch.int64), (torch.bool, torch.float64), (torch.int64, torch.float32)):
        case("promote %s %s" % (a, b), lambda x, y, a=a, b=b: (x > 0).to(a) + (y > 0).to(b), T(3), T(3))
    case("to-int", lambda x: x.long() + x.to(torch.int32), T(3, 4))
    case("to-bool", lambda x: x.bool(), I(3, 4))
    case("type-mix", lambda x, y: x * y + 2, I(3, 4), T(3, 4))
    # shape
    case("permute", lambda x: x.permute(2, 0, 1), T(2, 3, 4))
    case("transpose", lambda x: x.transpose(1, -1), T(2, 3, 4))
    case("movedim", lambda x: x.movedim(0, -1), T(2, 3, 4))
    case("unsqueeze", lambda x: x.unsqueeze(1).unsqueeze(-1), T(2, 3))
    case("squeeze", lambda x: x.squeeze(1), T(2, 1, 3))
    case("view-merge", lambda x: x.view(x.shape[0], -1), T(2, 3, 4))
    case("flatten-all", lambda x: x.reshape(-1), T(2, 3, 4))
    case("flatten", lambda x: x.flatten(1), T(2, 3, 4))
    case("unflatten", lambda x: x.unflatten(1, (3, 4)), T(2, 12))
    case("split-merge", lambda x: x.reshape(x.shape[0], 2, x.shape[1] // 2, x.shape[2]).transpose(1, 2), T(2, 6, 3))
    case("merge-split", lambda x: x.transpose(0, 1).reshape(x.shape[1], -1).reshape(x.shape[1], x.shape[0], x.shape[2]), T(2, 3, 4))
    case("expand", lambda x: x.expand(5, -1, 3), T(1, 4, 1))
    case("repeat", lambda x: x.repeat(2, 3), T(2, 3))
    case("repeat_interleave", lambda x: x.repeat_interleave(3, dim=1), T(2, 3))
    case("cat", lambda x, y: torch.cat((x, y, x), dim=1), T(2, 3, 2), T(2, 4, 2))
    case("stack", lambda x, y: torch.stack((x, y), dim=-1), T(2, 3), T(2, 3))
    case("split", lambda x: torch.cat(list(x.split(2, dim=1))[::-1], dim=1), T(3, 4))
    case("split-sizes", lambda x: x.split([1, 3], dim=1)[1], T(3, 4))
    case("chunk", lambda x: x.chunk(2, dim=1)[1] - x.chunk(2, dim=1)[0], T(3, 8))
    case("unbind", lambda x: x.unbind(1)[1], T(3, 4))
    case("flip", lambda x: x.flip(0, 2), T(2, 3, 4))
    case("roll", lambda x: x.roll((1, -2), (0, 1)), T(3, 4))
    case("triu", lambda x: x.triu(1) - x.tril(-1), T(3, 4))
    case("diag", lambda x: torch.diag(x), T(4))
    case("eye", lambda x: torch.eye(x.shape[0], dtype=torch.float64), T(4, 2))
    case("arange", lambda x: torch.arange(1, x.shape[0], 2), T(6))
    case("linspace", lambda x: torch.linspace(-1, 1, x.shape[0], dtype=torch.float64), T(5))
    case("meshgrid", lambda x: torch.stack(torch.meshgrid(torch.arange(x.shape[0]), torch.arange(x.shape[1]), indexing="ij")), T(2, 3))
    case("full", lambda x: torch.full((x.shape[0], 2), 1.5) + torch.zeros_like(x[:, :2]) + x.new_ones(x.shape[0], 1), T(3, 4))
    # indexing
    case("slice", lambda x: x[1:, ::2, -1], T(3, 5, 4))
    case("slice-neg", lambda x: x[:-1, -3:-1], T(3, 5))
    case("index-none", lambda x: x[..., None, 0], T(3, 5))
    case("mask-sum", lambda x: x[x > 0].sum(), T(3, 4))
    case("mask-mean", lambda x, m: x[m].mean() if m.any() else x.sum(), T(4, 4), B(4, 4))
    case("adv-index", lambda x, i: x[i], T(5, 3), I(4, lo=0, hi=4))
    case("adv-index2", lambda x, i: x[:, i], T(3, 5), I(4, lo=-5, hi=4))
    case("gather", lambda x, i: x.gather(1, i), T(3, 5), I(3, 2, lo=0, hi=4))
    case("index_select", lambda x, i: x.index_select(1, i), T(3, 5), I(4, lo=0, hi=4))

    def setslice(x):
        y = x.clone()
        y[:, 1:3] = x[:, :2] * 2
        y[0] += 1
        return y
    case("setitem", setslice, T(3, 5))

    def setmask(x, m):
        y = x.clone()
        y[m] = 9.0
        return y
    case("setitem-mask", setmask, T(3, 5), B(3, 5))

    def inplace(x):
        y = x.clone()
        y.add_(1).mul_(2)
        v = y[1:]
        v.zero_()
        return y
    case("inplace-view", inplace, T(3, 5))
    # reductions
    for n in ("sum", "mean", "prod", "amax", "amin", "logsumexp"):
        case(n + "-dim", lambda x, n=n: getattr(x, n)(dim=1), T(3, 4, 2))
        if n != "logsumexp":
            case(n + "-keep", lambda x, n=n: getattr(x, n)(dim=-1, keepdim=True), T(3, 4))
    case("sum-all", lambda x: x.sum(), T(3, 4, 2))
    case("mean-dims", lambda x: x.mean((0, 2)), T(3, 4, 2))
    case("max-all", lambda x: x.max() - x.min(), T(3, 4))
    case("max-dim", lambda x: x.max(dim=1)[0], T(3, 4))
    case("argmax", lambda x: x.argmax(dim=1), T(3, 4))
    case("argmin-ties", lambda x: x.argmin(dim=1), I(3, 4, lo=0, hi=20))
    case("var", lambda x: x.var(dim=1), T(3, 4))
    case("var-biased", lambda x: x.var(dim=1, unbiased=False), T(3, 4))
    case("std", lambda x: x.std(dim=0), T(3, 4))
    case("any-all", lambda x: x.any(dim=1) & x.all(dim=1), B(4, 2))
    case("count", lambda x: (x > 0).sum(dim=1), T(3, 4))
    case("cumsum", lambda x: x.cumsum(dim=1), T(3, 4))
    case("norm", lambda x: torch.norm(x, dim=1), T(3, 4))
    case("linalg.norm", lambda x: torch.linalg.norm(x, dim=(1,), keepdim=True), T(3, 4))
    case("normalize", lambda x: F.normalize(x, dim=1), T(3, 4))
    case("softmax", lambda x: x.softmax(dim=1), T(3, 4))
    case("log_softmax", lambda x: F.log_softmax(x, dim=-1), T(3, 4))
    case("matmul", lambda x, y: x @ y, T(3, 4), T(4, 2))
    case("bmm", lambda x, y: torch.matmul(x, y), T(2, 3, 4), T(2, 4, 2))
    case("mv", lambda x, y: x @ y, T(3, 4), T(4))
    case("matmul-broadcast", lambda x, y: x @ y, T(2, 3, 4), T(4, 2))
    case("einsum", lambda x, y: torch.einsum("bij,bjk->bik", x, y), T(2, 3, 4), T(2, 4, 2))
    case("linear", lambda x, w, b: F.linear(x, w, b), T(2, 3, 4), T(5, 4), T(5))
    case("equal", lambda x: torch.tensor(torch.equal(x, x.clone())), T(2, 3))
    # nn
    case("pad", lambda x: F.pad(x, (1, 2, 0, 3), value=0.5), T(2, 3, 4))
    case("pad-neg", lambda x: F.pad(x, (-1, 2)), T(2, 5))
    case("pad-reflect", lambda x: F.pad(x, (1, 2, 2, 0), mode="reflect"), T(1, 2, 4, 5))
    case("pad-replicate", lambda x: F.pad(x, (1, 2, 2, 0), mode="replicate"), T(1, 2, 4, 5))
    case("avg_pool2d", lambda x: F.avg_pool2d(x, 2), T(1, 2, 6, 5))
    case("avg_pool2d-s1", lambda x: F.avg_pool2d(x, 3, stride=1), T(1, 2, 4, 5))
    case("max_pool2d", lambda x: F.max_pool2d(x, 2), T(1, 2, 4, 6))
    case("adaptive_avg_pool2d", lambda x: F.adaptive_avg_pool2d(x, 1), T(1, 2, 4, 3))
    case("pixel_shuffle", lambda x: F.pixel_shuffle(x, 2), T(1, 8, 2, 3))
    case("interp-nearest", lambda x: F.interpolate(x, scale_factor=2, mode="nearest"), T(1, 2, 2, 3))
    case("interp-bilinear", lambda x: F.interpolate(x, scale_factor=2, mode="bilinear", align_corners=False), T(1, 1, 3, 4))
    case("interp-bilinear-ac", lambda x: F.interpolate(x, size=(5, 7), mode="bilinear", align_corners=True), T(1, 1, 3, 4))
    case("conv2d", lambda x, w, b: F.conv2d(x, w, b, stride=2, padding=1), T(1, 2, 5, 4), T(3, 2, 3, 3), T(3))
    case("conv2d-groups", lambda x, w: F.conv2d(x, w, groups=2), T(1, 4, 4, 4), T(4, 2, 2, 2))
    case("conv3d", lambda x, w: F.conv3d(x, w, padding=(1, 0, 1)), T(1, 2, 3, 3, 3), T(2, 2, 2, 2, 2))
    case("layer_norm", lambda x, w, b: F.layer_norm(x, (4,), w, b), T(2, 3, 4), T(4), T(4))
    case("unfold", lambda x: F.unfold(x, 2, stride=2), T(1, 2, 4, 6))
    case("fold", lambda x: F.fold(x, (4, 6), 2, stride=2), T(1, 8, 6))
    case("grid_sample", lambda x, g: F.grid_sample(x, g, mode="bilinear", padding_mode="border", align_corners=False), T(1, 1, 4, 5), U(1, 3, 3, 2))
    case("grid_sample-zeros", lambda x, g: F.grid_sample(x, g * 1.3, mode="bilinear", padding_mode="zeros", align_corners=True), T(1, 1, 4, 5),
         U(1, 3, 3, 2))
    case("mse", lambda x, y: F.mse_loss(x, y) + F.l1_loss(x, y), T(3, 4), T(3, 4))
    case("mse-none", lambda x, y: F.mse_loss(x, y, reduction="none"), T(3, 4), T(3, 4))
    case("bce-logits", lambda x, y: F.binary_cross_entropy_with_logits(x, y), T(3, 4), DimT(3, 4, lo=0, hi=1))
    case("cross_entropy", lambda x, y: F.cross_entropy(x, y), T(5, 3), I(5, lo=0, hi=2))
    case("cross_entropy-2d", lambda x, y: F.cross_entropy(x, y, reduction="none"), T(2, 3, 2, 2), I(2, 2, 2, lo=0, hi=2))
    case("one_hot", lambda y: F.one_hot(y, 4), I(5, lo=0, hi=3))
    case("embedding", lambda i, w: F.embedding(i, w), I(2, 3, lo=0, hi=4), T(5, 3))
    case("histc", lambda x: torch.histc(x, 4, -3, 3), T(12))


def compare(fn, args, rng, symdims):
    reals = [a.real(rng) for a in args]
    want = fn(*[r.clone() for r in reals])
    ints = {}
    res = {"taken": 0, "bad": None, "skip": None}

    def one():
        ints.clear()
        sym = []
        names = {}
        for k, a in enumerate(args):
            dims = []
            for d in a.shape:
                if symdims and d > 1:
                    n = "n%d" % d          # equal sizes share one symbol
                    ints[n] = d
                    z = z3.Int(n)
                    CTX.assume(z >= 1)
                    dims.append(z)
                else:
                    dims.append(d)
            sym.append(fresh_tensor("x%d" % k, dims, a.dtype))
            names["x%d" % k] = reals[k]
        ev = Eval(ints, names)
        try:
            got = fn(*sym)
        except Undecided as e:
            res["skip"] = str(e)
            return
        except (Unsupported, Exception) as e:
            try:
                if all(ev(c) for c in CTX.path):
                    if isinstance(e, Unsupported):
                        res["skip"] = str(e)
                    else:
                        res["bad"] = "raises %s: %s, torch does not" % (type(e).__name__, str(e)[:200])
            except NoValue as e2:
                res["skip"] = "path condition: %s" % e2
            return
        try:
            if not all(ev(c) for c in CTX.path):
                return
        except NoValue as e:
            res["skip"] = "path condition: %s" % e
            return
        res["taken"] += 1
        if not isinstance(got, SymTensor):
            if isinstance(got, torch.Tensor) and torch.equal(got, want):
                return
            res["bad"] = "result %r, torch gives %r" % (got, want)
            return
        try:
            sh = tuple(ev(d) if z3.is_expr(d) else int(d) for d in [getattr(x, "e", x) for x in got.shape])
            if sh != tuple(want.shape):
                res["bad"] = "shape %s, torch gives %s" % (sh, tuple(want.shape))
                return
            if got.dtype != want.dtype:
                res["bad"] = "dtype %s, torch gives %s" % (got.dtype, want.dtype)
                return
            for idx in itertools.product(*[range(d) for d in sh]):
                e = ev(got.el(*idx))
                w = want[idx].item()
                if abs(float(e) - float(w)) > 1e-6 * (1 + abs(float(w))):
                    res["bad"] = "element %s is %s, torch gives %s" % (idx, float(e), w)
                    return
        except (NoValue, Unsupported) as e:
            res["skip"] = "value: %s" % e
    CTX.reset_run()
    CTX.deadline = time.time() + 40
    try:
        explore(one, CTX, 300)
    except Undecided as e:
        res["skip"] = str(e)
    except Exception as e:
        res["skip"] = "%s: %s" % (type(e).__name__, str(e)[:200])
    if not res["bad"] and not res["skip"] and res["taken"] != 1:
        res["bad"] = "%d paths taken by the valuation" % res["taken"]
    return res


def main():
    torch.set_num_threads(1)
    patch.install()
    patch.inject([sys.modules[__name__]])
    _cases()
    only = sys.argv[1] if len(sys.argv) > 1 else ""
    rng = random.Random(5)
    good = bad = skip = 0
    for name, fn, args in CASES:
        if only and only not in name:
            continue
        for symdims in (False, True):
            r = compare(fn, args, rng, symdims)
            tag = "%s [%s sizes]" % (name, "symbolic" if symdims else "concrete")
            if r["bad"]:
                bad += 1
                print("MISMATCH %s: %s" % (tag, r["bad"]))
            elif r["skip"]:
                skip += 1
                print("no comparison %s: %s" % (tag, r["skip"].split("\n")[0][:150]))
            else:
                good += 1
    print("%d comparisons agree with torch, %d without comparison, %d disagree" % (good, skip, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
