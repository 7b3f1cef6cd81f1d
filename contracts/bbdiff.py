"""C29: bits-back coding with hierarchical latent variable models (projects/bits_back_diffusion).  craystack and improved_diffusion are
absent: pyvc.crayshim states (proofs) or implements (concrete runs) what the codec uses of them."""
import sys

from pyvc import REPO
from pyvc import crayshim as S
from pyvc.api import contract

S.install()
BB = REPO + "/projects/bits_back_diffusion"
if BB not in sys.path:
    sys.path.insert(0, BB)
PRELOAD = ["bits_back_diffusion.codec"]
K = "bits_back_diffusion.codec."
CO = K + "BitsBackCodec."


class _session:
    """proofs: messages are abstract; concrete runs: the numpy coder"""

    def __init__(self, v, shape, least=1e-3):
        self.v, self.shape, self.least = v, shape, least

    def __enter__(self):
        import bits_back_diffusion.codec as c
        self.c, self.real = c, c.diag_gaussian_unif_bins
        S.HOOK.update(v=self.v if self.v.sym else None, shape=self.shape, seed=0 if self.v.sym else self.v.int("seed", 0, 1000))
        if self.v.sym:
            self.v.c.CTX.used_contracts.add(K + "diag_gaussian_unif_bins")

        def bins(mean, stdd, data_min, data_max, coding_prec, bin_prec):
            for e in S.elements(stdd, 0):
                self.v.ensure("deviation-not-below-the-minimum", e >= self.least)
            if not self.v.sym:
                return self.real(mean, stdd, data_min, data_max, coding_prec, bin_prec)
            return S.Prim("uniform-bins", [mean, stdd, data_min, data_max, coding_prec, bin_prec], self.shape, 1 << bin_prec).codec()
        c.diag_gaussian_unif_bins = bins
        return self

    def __exit__(self, *a):
        self.c.diag_gaussian_unif_bins = self.real
        S.HOOK["v"] = None
        return False


def _model(v, steps, shape):
    """an arbitrary model: parameters are functions of everything they may depend on"""
    import numpy as np
    from bits_back_diffusion.codec import BaseHLVModel, GaussianParams

    class M(BaseHLVModel):
        def __init__(self):
            super().__init__(steps=steps)
            self.calls = []

        def _params(self, tag, arrays):
            if v.sym:
                from pyvc.core import wrap, z3, zr, CTX
                args = [zr(e) for a in arrays for e in S.elements(a, 0)]
                n = int(np.prod(shape))
                mk = lambda nm, i: z3.Function("%s_%s_%d" % (nm, tag, i), *([z3.RealSort()] * (len(args) + 1)))(*args)
                sd = [mk("stdd", i) for i in range(n)]
                for s in sd:
                    CTX.fact(s > 0)
                return GaussianParams(S.Arr(v, shape, [wrap(mk("mean", i)) for i in range(n)]), S.Arr(v, shape, [wrap(s) for s in sd]))
            t = sum(np.asarray(a) * (0.6 - 0.25 * j) for j, a in enumerate(arrays)) + 0.05 * len(tag)
            sd = 0.2 + 0.1 * np.abs(np.sin(3 * t))
            return GaussianParams(np.tanh(t), np.where(np.sin(7 * t) > 0.5, 0.0, sd) if tag == "prior0" else sd)

        def infer_fn(self, data):
            self.calls.append(("infer", None, data, data))
            return self._params("top", [data])

        def generate_fn(self, latent, step, data=None):
            self.calls.append(("generate", step, latent, data))
            return self._params("%s%d" % ("prior" if data is None else "post", step), [latent] + ([] if data is None else [data]))
    return M()


def _data(v, shape, prec, tag):
    import numpy as np
    n = int(np.prod(shape))
    els = [v.int("x%s_%d" % (tag, i), 0, (1 << prec) - 1, span=1 << prec) for i in range(n)]
    return S.Arr(v, shape, els) if v.sym else np.array(els).reshape(shape)


def _eq(v, name, a, b):
    import numpy as np
    n = len(a.els) if isinstance(a, S.Arr) else int(np.asarray(a).size)
    v.ensure(name + "-shape", tuple(a.shape) == tuple(b.shape))
    for p, q in zip(S.elements(a, n), S.elements(b, n)):
        v.ensure(name, p == q)


def _shape(v):
    return (1, 1, 1, 2) if v.sym else v.choose("shape", [(1, 1, 1, 2), (2, 1, 2, 1), (1, 3, 2, 2), (2, 3, 3, 3)])


@contract("C29", "decoding_inverts_encoding", runs=14, budget=240, max_paths=400,
          funcs=[CO + "__init__", CO + "encode", CO + "decode", CO + "posterior", CO + "likelihood", CO + "prior_push", CO + "prior_pop", CO + "bb_ans",
                 CO + "_to_latent", CO + "_post_codec", CO + "_model_view", CO + "_track_codec"],
          notes="any model, data and initial message; listed numbers of steps (1, 2, 3) and of batches (1, 2)")
def roundtrip(v):
    from bits_back_diffusion.codec import BitsBackCodec
    shape = _shape(v)
    steps = v.choose("steps", [1, 2, 3])
    batches = v.choose("batches", [1, 2])
    lo, hi = v.choose("range", [(-1.0, 1.0), (0.0, 1.0), (0.0, 3.0)])
    prec = v.choose("data_prec", [3, 8])
    with _session(v, shape):
        m = _model(v, steps, shape)
        c = BitsBackCodec(m, shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=prec, data_min=lo, data_max=hi, clip_stdd=1e-3)
        start = c.message
        first = c.flat_message
        xs = [_data(v, shape, prec, str(k)) for k in range(batches)]
        for k, x in enumerate(xs):
            c.encode(x)
            v.ensure("batches-are-counted", c.data_count == k + 1)
        for k in reversed(range(batches)):
            msg, y = c.decode()
            v.ensure("the-new-message-is-kept", msg is c.message)
            _eq(v, "decoded-data", y, xs[k])
            v.ensure("batches-are-counted", c.data_count == k)
        if v.sym:
            v.ensure("the-message-is-restored", c.message is start)
        else:
            v.ensure("the-message-is-restored", S.message_equal(c.message, start) and (c.flat_message == first).all())


@contract("C29", "latents_and_steps", runs=14, budget=120, funcs=[CO + "posterior", CO + "prior_pop", CO + "likelihood", CO + "_to_latent", CO + "encode"],
          notes="listed numbers of steps")
def latents(v):
    """each level is coded given the level above it (and the data, for the posterior), in the model's data range"""
    from bits_back_diffusion.codec import BitsBackCodec
    shape = _shape(v)
    steps = v.choose("steps", [1, 2, 3])
    lo, hi = v.choose("range", [(-1.0, 1.0), (0.0, 3.0)])
    prec = v.choose("data_prec", [3, 8])
    with _session(v, shape):
        m = _model(v, steps, shape)
        c = BitsBackCodec(m, shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=prec, data_min=lo, data_max=hi, clip_stdd=1e-3)
        x = _data(v, shape, prec, "")
        S.HOOK["pops"] = pops = []
        try:
            c.encode(x)
        finally:
            S.HOOK["pops"] = None
        v.ensure("one-latent-per-level", len(pops) == steps)
        n = len(S.elements(x, 0))
        values = [[a + e * b for a, e, b in zip(S.elements(m0, n), S.elements(S.std_gaussian_centres(6)[i0], n), S.elements(s0, n))] for m0, s0, i0 in pops]
        want = [lo + e * (hi - lo) / ((1 << prec) - 1) for e in S.elements(x, 0)]
        seen = set()
        for kind, step, latent, data in m.calls:
            seen.add((kind, step, data is not None))
            if kind == "generate" and 0 <= step < steps:
                for p, q in zip(S.elements(latent, n), values[steps - 1 - step]):
                    v.ensure_close("given-the-centre-of-the-bin-of-the-level-above", p, q, tol=1e-9)
            if data is not None:
                v.ensure("data-shape", tuple(data.shape) == tuple(shape))
                for p, q in zip(S.elements(data, 0), want):
                    v.ensure_close("conditioned-on-the-data-in-its-range", p, q, tol=1e-9)
        v.ensure("every-level-inferred-and-generated", seen >= {("infer", None, True)} | {("generate", s, d) for s in range(1, steps) for d in (False, True)}
                 | {("generate", 0, False)} and all(s is None or 0 <= s < steps for _, s, _ in seen), str(seen))


@contract("C29", "invalid_data_refused", runs=40, funcs=[CO + "encode", CO + "__init__"])
def invalid(v):
    import numpy as np
    from bits_back_diffusion.codec import BitsBackCodec
    shape = (1, 1, 1, 2)
    prec = v.choose("data_prec", [1, 4, 8])
    with _session(v, shape, 1e-6):
        m = _model(v, 1, shape)
        v.raises("shape-must-have-four-dimensions", ValueError, lambda: BitsBackCodec(m, (2, 2)))
        c = BitsBackCodec(m, shape, data_prec=prec, latent_prec=14, prior_prec=6, initial_len=6000)
        before = c.message
        a, b = v.int("a", -5, 300, span=400), v.int("b", -5, 300, span=400)
        x = S.Arr(v, shape, [a, b]) if v.sym else np.array([a, b]).reshape(shape)
        if a >= 0 and b >= 0 and a < (1 << prec) and b < (1 << prec):
            c.encode(x)
            v.ensure("valid-data-accepted", c.data_count == 1)
            bad = S.Arr(v, (1, 1, 2, 1), [a, b]) if v.sym else np.array([a, b]).reshape(1, 1, 2, 1)
            v.raises("wrong-shape-refused", ValueError, lambda: c.encode(bad))
        else:
            v.raises("values-outside-the-range-refused", ValueError, lambda: c.encode(x))
            v.ensure("and-nothing-coded", c.message is before and c.data_count == 0)


@contract("C29", "quantisation", runs=60, funcs=[CO + "quantize"], budget=120)
def quantisation(v):
    """to the nearest of the 2^prec levels from data_min to data_max; levels map to themselves"""
    import numpy as np
    from bits_back_diffusion.codec import BitsBackCodec
    shape = (1, 1, 1, 2)
    lo, hi = v.choose("range", [(-1.0, 1.0), (0.0, 1.0), (-2.0, 6.0)])
    prec = v.choose("data_prec", [1, 2, 8])
    N = (1 << prec) - 1
    with _session(v, shape, 1e-6):
        c = BitsBackCodec(_model(v, 1, shape), shape, data_prec=prec, data_min=lo, data_max=hi)
        x, k = v.real("x", lo, hi), v.int("k", 0, N, span=300)
        lev = lo + v.to_real(k) * (hi - lo) / N
        d = S.Arr(v, shape, [x, lev]) if v.sym else np.array([x, lev]).reshape(shape)
        q = c.quantize(d)
        e = S.elements(q, 0)
        if not v.sym:
            v.ensure("integers", q.dtype.kind in "iu")
        v.ensure("shape", tuple(q.shape) == shape)
        v.ensure("levels-are-exact", e[1] == k)
        v.ensure("in-range", v.And(e[0] >= 0, e[0] <= N))
        err = 2 * (v.to_real(e[0]) * (hi - lo) + (lo - x) * N)
        tol = (hi - lo) + (0 if v.sym else 1e-6)
        v.ensure("nearest-level", v.And(err <= tol, err >= -tol))


@contract("C29", "rates_and_saved_state", runs=20, budget=120, funcs=[CO + "statistics", CO + "_bytes_to_bpd", CO + "state_dict", CO + "load_state_dict",
                                                                   CO + "flat_message", CO + "posterior"])
def rates(v):
    """bits per dimension of the message, of its growth, and of its growth plus the borrowed bits; a restored codec reports and decodes alike"""
    from bits_back_diffusion.codec import BitsBackCodec
    shape = _shape(v)
    steps, batches = v.choose("steps", [1, 2]), v.choose("batches", [1, 2])
    kw = dict(latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=3, clip_stdd=1e-3)
    with _session(v, shape):
        c = BitsBackCodec(_model(v, steps, shape), shape, **kw)
        n0 = c.flat_message.nbytes
        xs = [_data(v, shape, 3, str(k)) for k in range(batches)]
        for x in xs:
            c.encode(x)
        s = c.statistics()
        size = int(shape[0] * shape[1] * shape[2] * shape[3])
        n1 = c.flat_message.nbytes
        v.ensure("samples", s.samples == batches * shape[0])
        v.ensure_close("rate-total", s.rate_total, 8 * v.to_real(n1) / (batches * size), tol=1e-9)
        v.ensure_close("rate-effective", s.rate_effective, 8 * v.to_real(n1 - n0) / (batches * size), tol=1e-9)
        d = BitsBackCodec(_model(v, steps, shape), shape, **kw)
        d.load_state_dict(c.state_dict())
        t = d.statistics()
        for f in ("samples", "rate_total", "rate_used", "rate_effective"):
            v.ensure_close("restored-codec-reports-the-same-" + f, getattr(t, f), getattr(s, f), tol=1e-12)
        for x in reversed(xs):
            _, y = d.decode()
            _eq(v, "restored-codec-decodes", y, x)
        v.ensure("restored-message-size", d.flat_message.nbytes == n0)


@contract("C29", "borrowed_bits_and_tracking", bounded=True, runs=14, funcs=[CO + "statistics", CO + "_track_codec", CO + "posterior"])
def tracking(v):
    """extra bytes are what the first batch's posterior pops took; per-level bytes add up to the message's growth"""
    from bits_back_diffusion.codec import BitsBackCodec
    import numpy as np
    shape = _shape(v)
    steps, batches = v.choose("steps", [1, 2, 4]), v.choose("batches", [1, 3])
    with _session(v, shape, 1e-6):
        c = BitsBackCodec(_model(v, steps, shape), shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=4, track=True)
        n0 = c.flat_message.nbytes
        sizes = []
        for k in range(batches):
            x = _data(v, shape, 4, str(k))
            if k == 0:
                m, _ = S.substack(c.posterior(x), c._model_view).pop(c.message)
                low = S.flatten(m).nbytes
                c.pop_bytes[:] = 0
            c.encode(x)
            sizes.append(c.flat_message.nbytes)
        s = c.statistics()
        size = int(np.prod(shape))
        v.ensure_close("rate-used-is-growth-plus-borrowed", s.rate_used, 8 * (sizes[-1] - n0 + n0 - low) / (batches * size), tol=1e-9)
        v.ensure("one-entry-per-level", s.rate_effective_push.shape == (steps + 1,) and s.rate_effective_pop.shape == (steps + 1,))
        v.ensure_close("levels-add-up", float(s.rate_effective_push.sum() - s.rate_effective_pop.sum()), s.rate_effective, tol=1e-6)
        v.ensure_close("all-borrowed-bytes-are-pops", float(c.pop_bytes[0]), 0.0)
        before = c.pop_bytes.astype(float).copy()
        c.decode()
        v.ensure("decoding-pops-are-tracked", float(c.pop_bytes.astype(float).sum()) >= before.sum())
        d = BitsBackCodec(_model(v, steps, shape), shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=4)
        d.encode(_data(v, shape, 4, "0"))
        u = d.statistics()
        v.ensure("untracked-reports-none", u.rate_effective_push is None and u.rate_effective_pop is None)


@contract("C29", "uniform_bins_codec", bounded=True, runs=24, funcs=[K + "diag_gaussian_unif_bins"])
def uniform_bins(v):
    """bin k is centred on level k, the outer bins reach to infinity, the code length follows the Gaussian mass, every symbol round-trips"""
    import numpy as np
    from scipy.stats import norm
    f = v.need(K + "diag_gaussian_unif_bins")
    rng = np.random.RandomState(v.int("seed2", 0, 10 ** 6))
    n = v.int("n", 1, 4)
    prec, cp = v.choose("bin_prec", [1, 2, 3, 5]), v.choose("coding_prec", [16, 20])
    vec = v.bool("per_dim")
    lo = np.array([-2.0, -3.0]) if vec else v.choose("lo", [-1.0, 0.0])
    hi = np.array([2.0, 3.0]) if vec else v.choose("hi", [1.0, 2.0])
    mean, stdd = rng.uniform(-1.5, 1.5, (n, 2)), np.exp(rng.uniform(-1.5, 1, (n, 2)))
    S.HOOK["v"] = None
    codec = f(mean, stdd, lo, hi, cp, prec)
    N = 1 << prec
    start = rng.randint(1 << 38, 1 << 39, size=(n, 2), dtype=np.uint64), None  # no lane overflows: the head shows the code length
    L0, H0 = np.broadcast_to(lo, (n, 2)), np.broadcast_to(hi, (n, 2))
    for k in range(N):
        x = np.full((n, 2), k)
        (m,) = codec.push(start, x)
        m2, y = codec.pop(m)
        v.ensure("symbols-round-trip", bool((y == x).all()) and S.message_equal(m2, start))
        step = (H0 - L0) / (N - 1)
        a = norm.cdf(L0 + (k - 0.5) * step, mean, stdd) if k else 0.0
        b = norm.cdf(L0 + (k + 0.5) * step, mean, stdd) if k < N - 1 else 1.0
        # the head grows by about -log2 of the bin's mass
        bits = (np.log2(m[0].astype(float)) - np.log2(start[0].astype(float)))
        want = -np.log2(np.maximum(b - a, 1e-300))
        ok = (b - a) > 64.0 * N / (1 << cp)
        v.ensure("code-length-is-the-bins-information", bool((np.abs(bits - want)[ok] < 0.05).all()), "%s != %s" % (bits, want))


@contract("C29", "diffusion_model_parameters", runs=40, budget=120, funcs=[K + "DiffusionModel.__init__", K + "DiffusionModel.infer_fn",
                                                                          K + "DiffusionModel.generate_fn", K + "DiffusionModel._gaussian_params"])
def diffusion_model(v):
    """prior from the denoiser, posterior from the forward process, at the level's own time step; standard deviation from the variance"""
    import numpy as np
    import torch
    from unittest import mock
    from bits_back_diffusion.codec import DiffusionModel
    B, H = v.int("B", 1, span=2), v.int("H", 1, span=3)
    T = v.int("T", 1, span=20)
    step = v.int("step", 0, T - 1, span=20)
    which = v.choose("which", ["top", "prior", "posterior"])
    use_log, clip = v.choose("use_log_variance", [False, True]), v.choose("clip_denoised", [False, True])
    x, z = v.tensor("x", (B, 1, H, 1), -1, 1, dtype=torch.float32), v.tensor("z", (B, 1, H, 1), -3, 3, dtype=torch.float32)
    mu, var, lv = (v.tensor(n, (B, 1, H, 1), lo, hi, dtype=torch.float32) for n, lo, hi in (("mu", -2, 2), ("var", 0, 4), ("logvar", -9, 2)))
    net, calls = torch.nn.Linear(1, 1), []

    class Diff:
        num_timesteps = T

        def q_mean_variance(self, x_start, t):
            calls.append(("top", x_start, None, t, None))
            return mu, var, lv

        def q_posterior_mean_variance(self, x_start, x_t, t):
            calls.append(("posterior", x_start, x_t, t, None))
            return mu, var, lv

        def p_mean_variance(self, model, x, t, clip_denoised=True, **k):
            v.ensure("without-gradients", not torch.is_grad_enabled())
            calls.append(("prior", None, x, t, (model, clip_denoised)))
            return {"mean": mu, "variance": var, "log_variance": lv, "pred_xstart": None}
    m = DiffusionModel(net, Diff(), use_log_variance=use_log, clip_denoised=clip)
    v.ensure("one-level-per-time-step", m.steps == T)
    wrap = (lambda t: t) if v.sym else (lambda t: t.numpy())
    patches = []
    if v.sym:  # arrays are symbolic tensors on both sides of the numpy boundary
        from pyvc.tensor import SymTensor
        patches = [mock.patch.object(torch, "from_numpy", lambda a: a), mock.patch.object(SymTensor, "numpy", lambda self: self)]
    for q in patches:
        q.start()
    try:
        p = m.infer_fn(wrap(x)) if which == "top" else m.generate_fn(wrap(z), step, data=None if which == "prior" else wrap(x))
    finally:
        for q in patches:
            q.stop()
    v.ensure("one-call-of-its-kind", len(calls) == 1 and calls[0][0] == which)
    kind, xs, xt, t, extra = calls[0]
    if which == "prior":
        v.ensure("the-given-network-and-clipping", extra[0] is net and extra[1] is clip)
    v.ensure_shape("time-per-image", t, [B])
    want = (T - 1) if which == "top" else step
    v.forall_elems("the-level's-time-step", t, lambda e, b: e == want)
    if which != "prior":
        v.ensure_elems("conditioned-on-the-data", xs, lambda *i: v.at(x, *i))
    if which != "top":
        v.ensure_elems("given-the-latent-above", xt, lambda *i: v.at(z, *i))
    back = (lambda a: a) if v.sym else (lambda a: torch.from_numpy(np.asarray(a)))
    v.ensure_elems("mean", back(p.mean), lambda *i: v.at(mu, *i))
    v.ensure_elems("standard-deviation", back(p.stdd), lambda *i: v.exp(v.at(lv, *i) / 2) if use_log else v.sqrt(v.at(var, *i)), tol=1e-5)


@contract("C29", "subset_of_the_diffusion_steps", funcs=["bits_back_diffusion.script_util.space_timesteps"], bounded=True, runs=250, thorough_runs=3000,
          notes="processes of up to 4000 steps; up to 6 sections (list or string), ddimN and vlbN")
def spacing(v):
    from contracts import runs
    f = runs._su().space_timesteps
    T = v.choose("top", [3, 12, 60, 300, 4000])
    T = v.int("steps", 1, T) if v.rng.random() < 0.8 else T
    kind = v.choose("kind", ["list", "string", "ddim", "vlb"])
    if kind in ("list", "string"):
        n = v.int("sections", 1, 6)
        sizes = [T // n + (k < T % n) for k in range(n)]
        counts = [v.rng.choice([1, max(1, z), max(1, z - 1), v.rng.randint(1, max(1, z)), v.rng.randint(1, max(1, z))]) for z in sizes]
        if v.rng.random() < 0.1:
            counts[v.rng.randrange(n)] = max(sizes) + 1
        arg = counts if kind == "list" else ",".join(map(str, counts))
        if any(c > z for c, z in zip(counts, sizes)):
            return v.raises("more-steps-than-the-section-has-refused", ValueError, lambda: f(T, arg))
        got, at = f(T, arg), 0
        v.ensure("steps-of-the-process", all(0 <= k < T for k in got) and len(got) == sum(counts))
        for c, z in zip(counts, sizes):
            part = sorted(k - at for k in got if at <= k < at + z)
            v.ensure("requested-number-per-section", len(part) == c)
            v.ensure("section's-first-step-and-last", part[0] == 0 and (c == 1 or part[-1] == z - 1))
            gaps = [b - a for a, b in zip(part, part[1:])]
            v.ensure("evenly-spread", not gaps or max(gaps) - min(gaps) <= 1 or all(abs(k - j * (z - 1) / (c - 1)) <= 0.5 + 1e-6 for j, k in enumerate(part)))
            at += z
    elif kind == "ddim":
        N = v.rng.choice([len(range(0, T, v.rng.randint(1, max(1, T - 1)))), v.rng.randint(1, T)])
        fits = [i for i in range(1, T) if len(range(0, T, i)) == N]
        if not fits:
            return v.raises("no-integer-stride-refused", ValueError, lambda: f(T, "ddim%d" % N))
        got = sorted(f(T, "ddim%d" % N))
        v.ensure("requested-number", len(got) == N and got[0] == 0 and got[-1] < T)
        v.ensure("constant-stride", len({b - a for a, b in zip(got, got[1:])}) <= 1)
    else:
        N = v.int("wanted", 1, T)
        if T // N >= N:
            return v.raises("too-few-steps-refused", ValueError, lambda: f(T, "vlb%d" % N))
        got = f(T, "vlb%d" % N)
        v.ensure("requested-number", len(got) == N)
        v.ensure("dense-start-and-last-step", set(range(T // N)) <= got and T - 1 in got and max(got) == T - 1)
