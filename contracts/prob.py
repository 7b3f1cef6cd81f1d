"""Contracts for probability helpers: C05 normal CDF family, C06 noisy distributions, C07 rounding surrogates."""
import math
from pyvc.api import contract

PRELOAD = ["neuralcompression.functional", "neuralcompression.distributions"]
F = "neuralcompression.functional."
S = math.sqrt(0.5)
BIG = 40.0


def Phi(v, z):
    """standard normal CDF as the reference formula"""
    if v.sym:
        return 0.5 + 0.5 * v.erf(z * S)
    return 0.5 * math.erfc(-z * S)


def vec(v, name="x", lo=None, hi=None, dtype=None, style=None):
    n = v.int("n", 1)
    return n, v.tensor(name, (n,), lo, hi, dtype, style=style)


# ------------------------------------------------------------------ C05
@contract("C05", "ndtr", funcs=[F + "ndtr"])
def c_ndtr(v):
    from neuralcompression.functional import ndtr
    n, x = vec(v, lo=-BIG, hi=BIG)
    y = ndtr(x)
    v.ensure_shape("shape", y, [n])
    v.ensure_elems("is-normal-cdf", y, lambda i: Phi(v, v.at(x, i)))
    v.forall_elems("in-[0,1]", y, lambda p, i: v.And(p >= 0, p <= 1))


@contract("C05", "log_ndtr", funcs=[F + "log_ndtr"],
          notes="below the switch point (-20 for float64, -10 for float32) the contract is the 3-term asymptotic series of log Phi; its accuracy against log Phi is part of the bounded contract tails_accuracy")
def c_log_ndtr(v):
    import torch
    from neuralcompression.functional import log_ndtr
    dt = v.choose("dtype", [torch.float64, torch.float32])
    n, x = vec(v, lo=-BIG, hi=BIG, dtype=dt)
    y = log_ndtr(x)
    m = -20.0 if dt == torch.float64 else -10.0
    tol = 1e-6 if dt == torch.float64 else 3e-4

    def spec(i):
        z = v.at(x, i)
        if not v.sym:
            import scipy.special
            return float(scipy.special.log_ndtr(z))
        z2 = z * z
        ser = 1 - 1 / z2 + 3 / (z2 * z2) - 15 / (z2 * z2 * z2)
        asy = -0.5 * (math.log(2 * math.pi) + z2) - v.log(-z) + v.log(ser)
        return v.If(z >= m, v.log(Phi(v, z)), asy)
    v.ensure_shape("shape", y, [n])
    v.ensure_elems("is-log-normal-cdf", y, spec, tol=tol)


@contract("C05", "normal_survival", funcs=[F + "survival_function", F + "log_survival_function", F + "log_cdf"])
def c_survival(v):
    from torch.distributions import Normal
    from neuralcompression.functional import log_cdf, log_survival_function, survival_function
    n = v.int("n", 1)
    x = v.tensor("x", (n,), -8, 8)
    loc = v.tensor("loc", (n,), -2, 2)
    scale = v.tensor("scale", (n,), 0.5, 4)
    d = Normal(loc, scale)
    z = lambda i: (v.at(x, i) - v.at(loc, i)) / v.at(scale, i)
    v.ensure_elems("survival", survival_function(x, d), lambda i: 1 - Phi(v, z(i)))
    with v.stub(F + "_log_ndtr.log_ndtr", lambda t: v.build((n,), lambda i: v.log(Phi(v, v.at(t, i))))):
        v.ensure_elems("log-survival", log_survival_function(x, d), lambda i: v.log(Phi(v, -z(i))), tol=2e-6)
        v.ensure_elems("log-cdf", log_cdf(x, d), lambda i: v.log(Phi(v, z(i))), tol=2e-6)


class _Dist:
    """an arbitrary continuous distribution: any cdf with values in (0,1)"""

    def __init__(self, v):
        import torch
        from torch.distributions import Distribution
        outer = self

        if v.sym:
            import z3
            cdf = z3.Function("cdf", z3.RealSort(), z3.RealSort())

            class D(Distribution):
                def __init__(s):
                    super().__init__(validate_args=False)

                def cdf(s, value):
                    from pyvc.tensor import ew
                    from pyvc.core import CTX

                    def f(e):
                        r = cdf(e)
                        CTX.fact(r > 0)
                        CTX.fact(r < 1)
                        return r
                    return ew(f, value, in_kind="r")
            self.d = D()
            from pyvc.core import wrap, zr
            self.cdf = lambda t: wrap(cdf(zr(t)))
        else:
            from torch.distributions import Cauchy, Exponential, Gumbel, Laplace, LogNormal, TransformedDistribution, Uniform
            from torch.distributions.transforms import AffineTransform, SigmoidTransform
            D = torch.float64
            t = lambda a: torch.tensor(a, dtype=D)
            self.d = v.rng.choice([Cauchy(t(0.3), t(1.5)), Laplace(t(-1.0), t(2.0)), Gumbel(t(0.5), t(2.0)), Uniform(t(-10.0), t(12.0)),
                                   Uniform(t(-1000.0), t(1000.0)),
                                   TransformedDistribution(Uniform(t(0.0), t(1.0)), [SigmoidTransform().inv, AffineTransform(0.4, 1.3)])])
            self.cdf = lambda q: float(self.d.cdf(t(float(q))))


@contract("C05", "other_distributions", funcs=[F + "survival_function", F + "log_survival_function", F + "log_cdf"])
def c_other(v):
    from neuralcompression.functional import log_cdf, log_survival_function, survival_function
    D = _Dist(v)
    n, x = vec(v, lo=-6, hi=6)
    c = lambda i: D.cdf(v.at(x, i))
    v.ensure_elems("survival", survival_function(x, D.d), lambda i: 1 - c(i))
    v.ensure_elems("log-survival", log_survival_function(x, D.d), lambda i: v.log(1 - c(i)))
    v.ensure_elems("log-cdf", log_cdf(x, D.d), lambda i: v.log(c(i)))


@contract("C05", "other_distributions_tails", funcs=[F + "survival_function", F + "log_survival_function", F + "log_cdf"], bounded=True, runs=120,
          notes="far tails of non-normal distributions in floating point; bounded: 120 seeded vectors, both precisions, CDF down to 1e-300 (1e-37 in single)")
def c_other_tails(v):
    import torch
    from torch.distributions import Cauchy, Gumbel, Laplace, LogNormal
    from neuralcompression.functional import log_cdf, log_survival_function, survival_function
    dt = v.choose("dtype", [torch.float64, torch.float32])
    tiny = 1e-300 if dt == torch.float64 else 1e-37
    k = v.choose("family", ["laplace", "cauchy", "gumbel", "lognormal"])
    t = lambda a: torch.tensor(a, dtype=dt)
    d = {"laplace": lambda: Laplace(t(0.5), t(0.7)), "cauchy": lambda: Cauchy(t(0.3), t(1.5)), "gumbel": lambda: Gumbel(t(0.5), t(2.0)),
         "lognormal": lambda: LogNormal(t(0.1), t(1.2))}[k]()
    lo, hi = {"laplace": (-200, 60), "cauchy": (-1e6, 1e6), "gumbel": (-8, 20), "lognormal": (1e-9, 2e3)}[k]
    n, x = vec(v, "x", lo=lo, hi=hi, dtype=dt)
    c = d.cdf(x)
    a, b, s = log_cdf(x, d), log_survival_function(x, d), survival_function(x, d)
    for i in range(n):
        ci = float(c[i])
        v.ensure("survival-is-1-cdf", abs(float(s[i]) - (1 - ci)) <= 1e-6, (k, float(x[i]), float(s[i]), ci))
        if ci > tiny:
            v.ensure("log-cdf-is-log-of-cdf", abs(float(a[i]) - math.log(ci)) <= 1e-4 * (1 + abs(math.log(ci))), (k, float(x[i]), float(a[i]), ci))
        if 1 - ci > (1e-10 if dt == torch.float64 else 1e-3):
            w = math.log1p(-ci)
            v.ensure("log-survival-is-log-of-survival", abs(float(b[i]) - w) <= 1e-3 * (1 + abs(w)), (k, float(x[i]), float(b[i]), ci))


@contract("C05", "uniform_distribution", funcs=[F + "log_cdf", F + "log_survival_function"])
def c_uniform(v):
    from torch.distributions import Uniform
    from neuralcompression.functional import log_cdf, log_survival_function
    n = v.int("n", 1)
    low = v.tensor("low", (n,), -3, 3)
    w = v.tensor("w", (n,), 0.5, 4)
    u = v.tensor("u", (n,), 0.01, 0.99)
    hi = low + w
    x = low + u * w
    d = Uniform(low, hi)
    v.ensure_elems("log-cdf", log_cdf(x, d), lambda i: v.log(v.at(u, i)))
    v.ensure_elems("log-survival", log_survival_function(x, d), lambda i: v.log(1 - v.at(u, i)))


@contract("C05", "tails_accuracy", funcs=[F + "log_ndtr", F + "ndtr", F + "log_cdf", F + "log_survival_function"], bounded=True, runs=200,
          notes="floating-point accuracy in the tails is outside real-arithmetic contracts; bounded: 200 seeded vectors over |z| <= 60 against scipy")
def c_tails(v):
    import scipy.special
    import torch
    from torch.distributions import Normal
    from neuralcompression.functional import log_cdf, log_ndtr, log_survival_function, ndtr
    dt = v.choose("dtype", [torch.float64, torch.float32])
    lim = 60.0 if dt == torch.float64 else 30.0
    n, z = vec(v, "z", lo=-lim, hi=lim, dtype=dt)
    loc = v.real("loc", -3, 3)
    sc = v.real("scale", 0.25, 3)
    d = Normal(torch.tensor(loc, dtype=dt), torch.tensor(sc, dtype=dt))
    x = d.loc + d.scale * z
    zz = (x - d.loc) / d.scale
    ref = torch.from_numpy(scipy.special.log_ndtr(zz.double().numpy()))
    rrf = torch.from_numpy(scipy.special.log_ndtr(-zz.double().numpy()))

    def rel(name, got, want):
        got = got.double()
        # log-scale: absolute error = relative error of the probability; the three-term series is good to 105/z^8
        f32 = dt == torch.float32
        atol = (3e-6 if f32 else 2e-8) + (5e-7 if f32 else 1e-14) * want.abs()
        rtol = 2e-3 if f32 else 1e-6
        # positive tail: log Phi is tiny, -Phi(-z): relative accuracy (ndtr is a single-precision quantity for float32)
        ok = torch.isfinite(got) & ((got - want).abs() <= torch.where(want > -1e-3, rtol * want.abs() + (1e-37 if f32 else 1e-290)
                                                                              + torch.where(want.abs() > (2.5e-7 if f32 else 5e-16), 2e-7 if f32 else 3e-16, 0.0), atol))
        i = int((~ok).nonzero()[0]) if not bool(ok.all()) else 0
        v.ensure(name, bool(ok.all()), lambda: "z=%r got %r want %r" % (float(zz[i]), float(got[i]), float(want[i])))
    rel("log_ndtr-accurate", log_ndtr(zz), ref)
    rel("log_cdf-accurate", log_cdf(x, d), ref)
    rel("log_survival-accurate", log_survival_function(x, d), rrf)
    p = ndtr(zz)
    v.ensure("ndtr-in-range", bool(((p >= 0) & (p <= 1)).all()))


# ------------------------------------------------------------------ C06
UN = "neuralcompression.distributions.UniformNoise."


def _noisy_normal(v):
    from torch.distributions import Normal
    from neuralcompression.distributions import NoisyNormal, UniformNoise
    n = v.int("n", 1)
    loc = v.tensor("loc", (n,), -2, 2, wide=(-30, 30), sym=(-2, 2))
    scale = v.tensor("scale", (n,), 0.4, 4, wide=(0.05, 60), sym=(0.4, 4))
    which = v.choose("which", [0, 1])
    d = NoisyNormal(loc, scale) if which else UniformNoise(Normal(loc, scale))
    y = v.tensor("y", (n,), -5, 5, wide=(-40, 40), sym=(-5, 5))

    def c(i, t):
        return Phi(v, (t - v.at(loc, i)) / v.at(scale, i))
    return n, loc, scale, d, y, c


@contract("C06", "normal_prob", funcs=[UN + "prob"])
def u_prob(v):
    n, loc, scale, d, y, c = _noisy_normal(v)
    p = d.prob(y)
    v.ensure_shape("shape", p, [n])
    v.ensure_elems("prob-is-cdf-difference", p, lambda i: c(i, v.at(y, i) + 0.5) - c(i, v.at(y, i) - 0.5))
    v.forall_elems("probability", p, lambda q, i: v.And(q >= 0, q <= 1))


@contract("C06", "normal_log_prob", funcs=[UN + "log_prob"])
def u_logprob(v):
    n, loc, scale, d, y, c = _noisy_normal(v)
    with v.stub(F + "_log_ndtr.log_ndtr", lambda t: v.build((n,), lambda i: v.log(Phi(v, v.at(t, i))))):
        lp = d.log_prob(y)
    v.ensure_shape("shape", lp, [n])

    def spec(i):
        a, b = c(i, v.at(y, i) + 0.5), c(i, v.at(y, i) - 0.5)
        return a - b
    el = v.build((n,), lambda i: v.exp(v.at(lp, i)))
    v.ensure_elems("exp-log_prob-is-prob", el, spec, tol=1e-5)


@contract("C06", "mass_accuracy", funcs=[UN + "prob", UN + "log_prob"], bounded=True, runs=300,
          notes="floating-point accuracy of the mass, into the tails and for scales from 1e-2 to 1e4; bounded: 300 seeded vectors against scipy")
def u_acc(v):
    import torch
    from scipy.special import ndtr
    from torch.distributions import Normal
    from neuralcompression.distributions import NoisyNormal, UniformNoise
    n = v.int("n", 1)
    lg = v.tensor("log10_scale", (n,), -2, 4)
    scale = 10 ** lg
    loc = v.tensor("loc", (n,), -20, 20)
    z = v.tensor("z", (n,), -7, 7, style="u")
    d = NoisyNormal(loc, scale) if v.choose("which", [0, 1]) else UniformNoise(Normal(loc, scale))
    y = loc + z * scale.clamp(min=0.2)
    a, b = ((y - 0.5 - loc) / scale).numpy(), ((y + 0.5 - loc) / scale).numpy()
    import numpy as np
    neg = a + b > 0
    lo, hi = np.where(neg, -b, a), np.where(neg, -a, b)
    side = ndtr(hi)
    want = side - ndtr(lo)
    for name, got, rs, rp in (("prob", d.prob(y), 2e-5, 1e-4), ("log_prob", torch.exp(d.log_prob(y)), 1e-6, 1e-5)):
        got = got.numpy()
        bad = ~(np.abs(got - want) <= rs * side + rp * want + 1e-15)
        k = int(bad.nonzero()[0][0]) if bad.any() else 0
        v.ensure(name + "-accurate", not bad.any(), lambda: "y=%r loc=%r scale=%r got %r want %r" % (
            float(y[k]), float(loc[k]), float(scale[k]), float(got[k]), float(want[k])))


@contract("C06", "mass_accuracy_single", funcs=[UN + "prob", UN + "log_prob"], bounded=True, runs=150,
          notes="single precision: the mass above the mean comes from survival values and keeps its relative accuracy; bounded: 150 seeded vectors against scipy")
def u_acc32(v):
    import numpy as np
    import torch
    from scipy.special import ndtr
    from neuralcompression.distributions import NoisyNormal
    n = v.int("n", 1)
    D = torch.float32
    scale = v.tensor("scale", (n,), 0.5, 8, dtype=D, style="u")
    loc = v.tensor("loc", (n,), -2, 2, dtype=D, style="u")
    z = v.tensor("z", (n,), 1, 9, dtype=D, style="u")
    d = NoisyNormal(loc, scale)
    y = loc + z * scale
    a, b = [((y.double() + o - loc.double()) / scale.double()).numpy() for o in (-0.5, 0.5)]
    want = ndtr(-a) - ndtr(-b)
    for name, got in (("prob", d.prob(y)), ("log_prob", torch.exp(d.log_prob(y).double()))):
        got = got.double().numpy()
        bad = ~(np.abs(got - want) <= 2e-3 * want + 1e-4 * ndtr(-a) + 1e-30)
        k = int(bad.nonzero()[0][0]) if bad.any() else 0
        v.ensure(name + "-accurate", not bad.any(), lambda: "y=%r loc=%r scale=%r got %r want %r" % (
            float(y[k]), float(loc[k]), float(scale[k]), float(got[k]), float(want[k])))


@contract("C06", "base_delegation", funcs=[UN + "cdf", UN + "quantization_offset", UN + "survival_function", UN + "log_cdf", UN + "log_survival_function", UN + "mean"])
def u_delegate(v):
    n, loc, scale, d, y, c = _noisy_normal(v)
    v.ensure_elems("cdf", d.cdf(y), lambda i: Phi(v, (v.at(y, i) - v.at(loc, i)) / v.at(scale, i)), tol=1e-6)
    v.ensure_elems("survival", d.survival_function(y), lambda i: 1 - c(i, v.at(y, i)))
    v.ensure_elems("mean", d.mean, lambda i: v.at(loc, i))
    q = d.quantization_offset
    v.forall_elems("offset-range", q, lambda o, i: v.And(o >= -0.5, o <= 0.5))
    v.forall_elems("offset-aligns-mean", q, lambda o, i: v.close(v.at(loc, i) - o, v.to_real(v.round(v.at(loc, i))), 1e-9))
    bs = d.batch_shape
    v.ensure("batch-shape", len(bs) == 1 and bs[0] == n)
    v.ensure("event-shape", len(d.event_shape) == 0)


@contract("C06", "sampling", funcs=[UN + "rsample"], bounded=True, runs=60,
          notes="sampling draws from torch's generator; bounded: 60 seeded configurations; noise recovered by subtracting the base sample drawn from the same generator state")
def u_sample(v):
    import torch
    from torch.distributions import Normal
    from neuralcompression.distributions import UniformNoise
    n = v.int("n", 1, 6)
    ss = v.choose("sample_shape", [(), (3,), (5, 4), (1,), (7, 1)])
    bshape = v.choose("batch", [(), (n,), (2, n), (n, 1, 3)])
    loc = v.tensor("loc", bshape, -2, 2, dtype=torch.float32)
    # zero-variance base: the sample minus loc is exactly the noise
    base = Normal(loc, torch.full_like(loc, 1e-12))
    d = UniformNoise(base)
    s = d.rsample(torch.Size(ss))
    want = list(ss) + list(bshape)
    v.ensure("shape", list(s.shape) == want, lambda: "%s vs %s" % (list(s.shape), want))
    noise = (s - loc).double()
    v.ensure("noise-in-half-open-unit-box", bool((noise.abs() <= 0.5 + 1e-6).all()))
    big = (d.rsample(torch.Size((400,) + tuple(ss))) - loc).double()
    flat = big.reshape(400, -1)
    v.ensure("noise-not-degenerate", bool((flat.std(0) > 0.2).all()) and bool((flat.std(0) < 0.38).all()))
    if flat.shape[1] > 1:
        cc = torch.corrcoef(flat.t())
        off = cc - torch.eye(cc.shape[0], dtype=cc.dtype)
        v.ensure("noise-independent", float(off.abs().max()) < 0.45, lambda: "correlation %r" % float(off.abs().max()))


@contract("C06", "tails", funcs=[UN + "lower_tail", UN + "upper_tail", F + "lower_tail", F + "upper_tail"], bounded=True, runs=12,
          notes="iterative tail search / icdf in floating point; bounded: 12 seeded distributions")
def u_tails(v):
    import torch
    from torch.distributions import Laplace, Normal, TransformedDistribution, Uniform, Distribution
    from neuralcompression.distributions import UniformNoise
    from neuralcompression.functional import lower_tail, upper_tail
    mass = v.choose("mass", [2.0 ** -8, 1e-2, 0.1, 2.0 ** -4])
    kind = v.choose("kind", ["normal", "laplace", "noicdf"])
    loc = v.real("loc", -0.5, 0.5) if kind == "noicdf" else v.real("loc", -40, 40)
    sc = v.real("scale", 0.5, 1.2) if kind == "noicdf" else v.real("scale", 0.1, 20)
    if kind == "normal":
        base = Normal(torch.tensor(loc), torch.tensor(sc))
    elif kind == "laplace":
        base = Laplace(torch.tensor(loc), torch.tensor(sc))
    else:
        class NoIcdf(Distribution):
            def __init__(s):
                super().__init__(batch_shape=torch.Size([2]), validate_args=False)

            def cdf(s, x):
                return torch.sigmoid((x - loc) / torch.tensor([sc, 2.5 * sc]))
        base = NoIcdf()
    un = UniformNoise(base)
    for nm, lo, hi in (("functional", lower_tail(base, mass), upper_tail(base, mass)), ("method", un.lower_tail(mass), un.upper_tail(mass))):
      for k in range(2 if kind == "noicdf" else 1):
        cl, cu = float(base.cdf(lo).reshape(-1)[k]), float(base.cdf(hi).reshape(-1)[k])
        f = 1.1 if kind == "noicdf" else 1.001
        v.ensure(nm + "-lower-tail-mass", mass / 2 / f <= cl <= mass / 2 * f, lambda: "cdf(lower)=%r mass/2=%r" % (cl, mass / 2))
        v.ensure(nm + "-upper-tail-mass", mass / 2 / f <= 1 - cu <= mass / 2 * f, lambda: "sf(upper)=%r mass/2=%r" % (1 - cu, mass / 2))
        v.ensure(nm + "-no-grad", not lo.requires_grad and not hi.requires_grad)


# ------------------------------------------------------------------ C07
@contract("C07", "soft_round", funcs=[F + "soft_round"])
def s_round(v):
    from neuralcompression.functional import soft_round
    n, x = vec(v, lo=-1e5, hi=1e5)
    a = v.real("alpha", 0, 12)
    y = soft_round(x, a)
    v.ensure_shape("shape", y, [n])

    def spec(i):
        t = v.at(x, i)
        m = v.floor(t) + 0.5
        return v.If(a < 1e-3, lambda: t, lambda: m + v.tanh(a * (t - m)) / (2 * v.tanh(a / 2)))
    v.ensure_elems("formula", y, spec)
    v.forall_elems("stays-in-unit-cell", y, lambda q, i: v.Or(a < 1e-3, v.And(q >= v.floor(v.at(x, i)) - 1e-6, q <= v.floor(v.at(x, i)) + 1 + 1e-6)))


@contract("C07", "soft_round_inverse_formula", funcs=[F + "soft_round_inverse", F + "soft_round_conditional_mean"])
def s_inv(v):
    from neuralcompression.functional import soft_round_conditional_mean, soft_round_inverse
    n, y = vec(v, "y", lo=-1e5, hi=1e5)
    a = v.real("alpha", 0, 8)

    def inv(t):
        m = v.floor(t) + 0.5
        if v.sym:
            from pyvc import axioms as A
            ath = lambda q: v._un(A.atanh_f, q)
        else:
            ath = lambda q: math.atanh(q) if abs(q) < 1 else math.copysign(math.inf, q)
        e = lambda: v.max(v.min(ath((t - m) * (2 * v.tanh(a / 2))) / a, 0.5), -0.5) + m
        return v.If(a < 1e-3, lambda: t, e)
    v.ensure_elems("inverse-formula", soft_round_inverse(y, a), lambda i: inv(v.at(y, i)), tol=1e-5)
    v.ensure_elems("conditional-mean-formula", soft_round_conditional_mean(y, a), lambda i: inv(v.at(y, i) - 0.5) + 0.5, tol=1e-5)


@contract("C07", "soft_round_roundtrip", funcs=[F + "soft_round", F + "soft_round_inverse"])
def s_rt(v):
    from neuralcompression.functional import soft_round, soft_round_inverse
    n, x = vec(v, lo=-1e5, hi=1e5)
    a = v.real("alpha", 0, 8)
    if not v.sym:
        # keep clear of cell boundaries, where float rounding of floor() is undetermined
        import torch
        v.require(bool(((x - torch.floor(x) - 0.5).abs() < 0.49).all()))
    y = soft_round_inverse(soft_round(x, a), a)
    v.ensure_elems("inverse-undoes-soft_round", y, lambda i: v.at(x, i), tol=1e-4)


@contract("C07", "quantization_offset", funcs=[F + "quantization_offset"])
def s_off(v):
    from torch.distributions import Normal
    from neuralcompression.functional import quantization_offset
    n = v.int("n", 1)
    loc = v.tensor("loc", (n,))
    d = Normal(loc, v.tensor("scale", (n,), 0.1, 5))
    o = quantization_offset(d)
    v.ensure_shape("shape", o, [n])
    v.ensure_elems("mean-minus-rounded-mean", o, lambda i: v.at(loc, i) - v.round(v.at(loc, i)))

    class NoMean:
        pass
    z = quantization_offset(NoMean())
    v.ensure("undefined-mean-gives-zero", float(z) == 0.0)


@contract("C07", "log_expm1", funcs=[F + "log_expm1"])
def s_lexpm1(v):
    from neuralcompression.functional import log_expm1
    n, x = vec(v, lo=1e-6, hi=700.0)
    if not v.sym and v.rng.random() < 0.5:
        x = 10.0 ** (-40 * v.tensor("e", (n,), 0, 1))
    y = log_expm1(x)

    def spec(i):
        t = v.at(x, i)
        if not v.sym:
            return math.log(math.expm1(t)) if t < 30 else t
        return v.If(t < 15, v.log(v.exp(t) - 1), t)
    v.ensure_elems("is-log-exp-minus-one", y, spec, tol=1e-6)
