"""C11 MS-SSIM, C12 accumulating metrics, C13 patch-FID routing."""
import contextlib
import math
import sys
from pyvc import REPO
from pyvc.api import contract

PRELOAD = ["neuralcompression.metrics", "neuralcompression.functional"]
F = "neuralcompression.functional."
ME = "neuralcompression.metrics."


# ------------------------------------------------------------------ helpers
@contextlib.contextmanager
def replaced(pairs):
    """dependencies (never /repo functions) replaced by their contract: (owner, attribute, value)"""
    old = []
    try:
        for o, k, new in pairs:
            old.append((o, k, o.__dict__[k] if isinstance(o, type) and k in o.__dict__ else getattr(o, k)))
            setattr(o, k, new)
        yield
    finally:
        for o, k, x in reversed(old):
            setattr(o, k, x)


def everywhere(fn, new):
    """every /repo module's reference to a third-party function"""
    out = []
    for m in list(sys.modules.values()):
        f = getattr(m, "__file__", None) or ""
        if f.startswith(REPO + "/"):
            out += [(m, k, new) for k, x in list(vars(m).items()) if x is fn]
    return out


# ------------------------------------------------------------------ C11
def _window(n, std):
    import torch
    i = torch.arange(-(n // 2), n // 2 + 1, dtype=torch.float64)
    g = torch.exp(-0.5 * (i / std).pow(2))
    g = g / g.sum()
    return (g[:, None] * g[None, :]).tolist()


def _scale(v, x, y, shape, w, n, c1, c2):
    """per (channel, image): mean SSIM and mean contrast-structure over the valid window positions"""
    B, C, H, W = shape
    oh, ow = H - n + 1, W - n + 1

    def filt(f):
        def at(b, c, i, j):
            r = 0.0
            for a in range(n):
                for k in range(n):
                    r = r + f(b, c, i + a, j + k) * w[a][k]
            return r
        return v.build([B, C, oh, ow], at)
    ex = lambda *i: v.at(x, *i)
    ey = lambda *i: v.at(y, *i)
    ux, uy = filt(ex), filt(ey)
    uxx, uyy, uxy = filt(lambda *i: ex(*i) * ex(*i)), filt(lambda *i: ey(*i) * ey(*i)), filt(lambda *i: ex(*i) * ey(*i))

    def terms(*i):
        mx, my = v.at(ux, *i), v.at(uy, *i)
        vx, vy, vxy = v.at(uxx, *i) - mx * mx, v.at(uyy, *i) - my * my, v.at(uxy, *i) - mx * my
        return (2 * mx * my + c1) / (mx * mx + my * my + c1), (2 * vxy + c2) / (vx + vy + c2)
    ssim = lambda b, c: v.sum([oh, ow], lambda i, j: terms(b, c, i, j)[0] * terms(b, c, i, j)[1]) / v.to_real(oh * ow)
    cs = lambda b, c: v.sum([oh, ow], lambda i, j: terms(b, c, i, j)[1]) / v.to_real(oh * ow)
    return ssim, cs


def _half(v, x, shape):
    B, C, H, W = shape
    h2, w2 = (H + 1) // 2, (W + 1) // 2
    r = lambda i, n: v.If(i < n, i, n - 1)

    def at(b, c, i, j):
        s = 0.0
        for di in (0, 1):
            for dj in (0, 1):
                s = s + v.at(x, b, c, r(2 * i + di, H), r(2 * j + dj, W))
        return s / 4.0
    return v.build([B, C, h2, w2], at), [B, C, h2, w2]


CONF = [dict(w=3, std=1.5, k1=0.01, k2=0.03, dr=1.0, pf=(1.0,)),
        dict(w=3, std=0.8, k1=0.02, k2=0.05, dr=4.0, pf=(0.5,)),
        dict(w=1, std=1.5, k1=0.01, k2=0.03, dr=1.0, pf=(0.4, 0.6)),
        dict(w=3, std=1.5, k1=0.01, k2=0.03, dr=1.0, pf=(0.3, 0.7))]


def _msssim(v, k):
    from neuralcompression.functional import multiscale_structural_similarity as f
    C = v.choose("C", [1, 2])
    n, L = k["w"], len(k["pf"])
    red = v.choose("reduction", ["none", "mean", "sum"] if L == 1 else ["none"])
    B = v.int("B", 1, span=2)
    lo = n if L == 1 else 2 * n - 1
    H, W = v.int("H", lo, span=5), v.int("W", lo, span=5)
    x = v.tensor("x", (B, C, H, W), 0.0, k["dr"])
    y = v.tensor("y", (B, C, H, W), 0.0, k["dr"])
    if not v.sym:
        mix = v.rng.choice([0.0, 0.0, 0.7, 1.0])  # also images of inverted structure: negative contrast terms
        y = mix * (k["dr"] - x) + (1 - mix) * y
    call = lambda: f(x, y, data_range=k["dr"], window_size=n, k1=k["k1"], k2=k["k2"], gaussian_std=k["std"], power_factors=k["pf"], reduction=red)
    half = _half
    if v.sym and L > 1:
        # modular: the downsampling step enters through its contract (proved in "downsampling")
        from pyvc.nnops import opaque

        def small(t):
            return opaque("down", (t,), [t.shape[0], t.shape[1], (t.shape[2] + 1) // 2, (t.shape[3] + 1) // 2], t.dtype)

        def half(v, t, shape):
            r = small(t)
            return r, list(r.shape)
        with v.stub(F + "_multiscale_structural_similarity._pad_and_downsample", small):
            out = call()
    else:
        out = call()
    w = _window(n, k["std"])
    c1, c2 = (k["k1"] * k["dr"]) ** 2, (k["k2"] * k["dr"]) ** 2
    cur, shape, sc = (x, y), [B, C, H, W], []
    for s in range(L):
        if s:
            a, sh = half(v, cur[0], shape)
            cur, shape = (a, half(v, cur[1], shape)[0]), sh
        sc.append(_scale(v, cur[0], cur[1], shape, w, n, c1, c2))
    relu = lambda e: v.max(e, 0.0)

    def score(b):
        t = 0.0
        for c in range(C):
            p = 1.0
            for s in range(L):
                p = p * v.pow(relu(sc[s][0 if s == L - 1 else 1](b, c)), k["pf"][s])
            t = t + p
        return t / C
    if red == "none":
        v.ensure_shape("one-score-per-image", out, [B])
        v.ensure_elems("formula", out, score)
    else:
        tot = v.sum([B], score)
        v.ensure_shape("scalar", out, [])
        v.ensure_close("reduction-" + red, v.at(out), tot / v.to_real(B) if red == "mean" else tot)


for _i, _k in enumerate(CONF):
    contract("C11", "ms_ssim_formula_%d" % _i, funcs=[F + "multiscale_structural_similarity", F + "_multiscale_structural_similarity._ssim_single_channel",
             F + "_multiscale_structural_similarity._gaussian_window"], runs=6, thorough_runs=60, budget=300)(lambda v, k=_k: _msssim(v, k))


@contract("C11", "downsampling", funcs=[F + "_multiscale_structural_similarity._pad_and_downsample"], runs=20)
def down(v):
    f = v.need(F + "_multiscale_structural_similarity._pad_and_downsample")
    B, C, H, W = v.int("B", 1, span=2), v.int("C", 1, span=2), v.int("H", 1), v.int("W", 1)
    x = v.tensor("x", (B, C, H, W))
    out = f(x)
    ref, sh = _half(v, x, [B, C, H, W])
    v.ensure_shape("ceil-half-size", out, sh)
    v.ensure_elems("replicate-padded-2x2-average", out, lambda *i: v.at(ref, *i))


@contract("C11", "small_images_are_refused", funcs=[F + "multiscale_structural_similarity"], runs=30)
def refuse(v):
    from neuralcompression.functional import multiscale_structural_similarity as f
    n = v.choose("w", [3, 5])
    L = v.choose("scales", [1, 2, 3])
    H, W = v.int("H", 1, span=22), v.int("W", 1, span=22)
    # size at the coarsest scale: ceil(H / 2^(L-1))
    q = 2 ** (L - 1)
    v.require(v.Or((H + q - 1) // q < n, (W + q - 1) // q < n))
    x, y = v.tensor("x", (1, 1, H, W), 0, 1), v.tensor("y", (1, 1, H, W), 0, 1)
    v.raises("window-does-not-fit", RuntimeError, lambda: f(x, y, window_size=n, power_factors=(0.5,) * L))


@contract("C11", "defaults_and_misuse", funcs=[F + "multiscale_structural_similarity", F + "_multiscale_structural_similarity._get_reduction_op"], runs=3, thorough_runs=10, bounded=True,
          notes="bounded: seeded 5-scale images of 161..176 pixels a side")
def msdef(v):
    import torch
    from neuralcompression.functional import multiscale_structural_similarity as f
    H, W = v.int("H", 161, span=15), v.int("W", 161, span=15)
    x = v.tensor("x", (2, 1, H, W), 0, 1, style="u")
    y = (x + 0.2 * v.tensor("n", (2, 1, H, W), -1, 1, style="u")).clamp(0, 1)
    full = f(x, y, data_range=1.0, window_size=11, k1=0.01, k2=0.03, gaussian_std=1.5, power_factors=(0.0448, 0.2856, 0.3001, 0.2363, 0.1333), reduction="mean")
    v.ensure_close("defaults-are-the-paper's", f(x, y), full)
    # the vectorised definition, scale by scale
    t = torch.tensor(_window(11, 1.5), dtype=x.dtype)[None, None]
    a, b, acc = x, y, None
    pf = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)
    conv = torch.nn.functional.conv2d
    for s in range(5):
        if s:
            ds = lambda z: torch.nn.functional.avg_pool2d(torch.nn.functional.pad(z, (0, z.shape[3] % 2, 0, z.shape[2] % 2), mode="replicate"), 2)
            a, b = ds(a), ds(b)
        ua, ub = conv(a, t), conv(b, t)
        va, vb, vab = conv(a * a, t) - ua**2, conv(b * b, t) - ub**2, conv(a * b, t) - ua * ub
        l, c = (2 * ua * ub + 1e-4) / (ua**2 + ub**2 + 1e-4), (2 * vab + 9e-4) / (va + vb + 9e-4)
        m = ((l * c) if s == 4 else c).mean(dim=(1, 2, 3)).clamp(min=0) ** pf[s]
        acc = m if acc is None else acc * m
    v.ensure_close("five-scale-value", full, float(acc.mean()), tol=1e-9)
    v.ensure_close("symmetric", f(y, x), full)
    v.ensure_close("identity-scores-one", f(x, x), 1.0)
    v.ensure("degradation-scores-lower", float(full) < 1.0)
    v.raises("unknown-reduction", ValueError, lambda: f(x, y, reduction="median"))
    for bad in (0, 4, -3):
        v.raises("even-or-empty-window-%d" % bad, (ValueError,), lambda: f(x, y, window_size=bad))


# ------------------------------------------------------------------ C12
def _scalar(v, name, dtype, lo=None):
    """an arbitrary accumulated value"""
    return v.tensor(name, (), lo, None, dtype=dtype)


@contract("C12", "msssim_accumulates", funcs=[ME + "MultiscaleStructuralSimilarity.update", ME + "MultiscaleStructuralSimilarity.compute"], runs=16)
def m_ms(v):
    import torch
    from neuralcompression.functional import multiscale_structural_similarity as f
    from neuralcompression.metrics import MultiscaleStructuralSimilarity as M
    kw = v.choose("conf", [dict(data_range=1.0, window_size=3, power_factors=(0.7,)), dict(data_range=3.0, window_size=3, k1=0.3, k2=0.2, gaussian_std=0.7, power_factors=(0.6,)),
                          dict(window_size=3, power_factors=(0.7,))])
    m = M(**kw)
    v.ensure("starts-empty", v.And(v.at(m.score_sum) == 0, v.at(m.total) == 0))
    s0, n0 = _scalar(v, "sum_before", torch.float64, 0), v.int("total_before", 0, span=5)
    m.score_sum, m.total = s0.clone(), m.total + n0
    B, H, W = v.int("B", 1, span=3), v.int("H", 3, span=3), v.int("W", 3, span=3)
    x, y = v.tensor("x", (B, 1, H, W), 0, 1), v.tensor("y", (B, 1, H, W), 0, 1)
    m.update(x, y)
    ref = f(x, y, reduction="sum", **{**dict(data_range=1.0, k1=0.01, k2=0.03, gaussian_std=1.5), **kw})
    v.ensure_close("sum-grows-by-batch-scores", v.at(m.score_sum), v.at(s0) + v.at(ref))
    v.ensure("count-grows-by-batch-size", v.at(m.total) == n0 + B)
    v.ensure_close("compute-is-mean-score", v.at(m.compute()), (v.at(s0) + v.at(ref)) / v.to_real(n0 + B))
    m.reset()
    v.ensure("reset-empties", v.And(v.at(m.score_sum) == 0, v.at(m.total) == 0))


def _dists_net(v):
    import torch
    import DISTS_pytorch
    D = DISTS_pytorch.DISTS

    def init(self, load_weights=True):
        torch.nn.Module.__init__(self)

    def fwd(self, a, b, *rest, **k):
        if v.sym:
            from pyvc.nnops import opaque
            return opaque("dists", (a, b), [a.shape[0]])
        return (a * 0.5 + b * b).flatten(1).mean(1)
    return replaced([(D, "__init__", init), (D, "forward", fwd)])


@contract("C12", "dists_accumulates", funcs=[ME + "DeepImageStructureTextureSimilarity.update", ME + "DeepImageStructureTextureSimilarity.compute"], runs=30,
          assumes=["DISTS_pytorch.DISTS is an arbitrary deterministic function of the two images giving one score per image"])
def m_dists(v):
    import torch
    from neuralcompression.metrics import DeepImageStructureTextureSimilarity as M
    with _dists_net(v):
        red = v.choose("reduction", ["mean", "sum"])
        m = M(reduction=red)
        m.train()
        v.ensure("backbone-stays-in-evaluation-mode", not m.net.training)
        v.ensure("starts-empty", v.And(v.at(m.sum_scores) == 0, v.at(m.total) == 0))
        s0, n0 = _scalar(v, "sum_before", torch.float64), v.int("total_before", 0, span=5)
        m.sum_scores, m.total = s0.clone(), m.total + n0
        B, H, W = v.int("B", 1, span=3), v.int("H", 1, span=3), v.int("W", 1, span=3)
        x, y = v.tensor("x", (B, 3, H, W), 0, 1), v.tensor("y", (B, 3, H, W), 0, 1)
        m.update(x, y)
        ref = m.net(x, y)
        tot = v.at(s0) + v.sum([B], lambda b: v.at(ref, b))
        v.ensure_close("sum-grows-by-batch-scores", v.at(m.sum_scores), tot)
        v.ensure("count-grows-by-batch-size", v.at(m.total) == n0 + B)
        v.ensure_close("compute", v.at(m.compute()), tot / v.to_real(n0 + B) if red == "mean" else tot)
        m.reset()
        v.ensure("reset-empties", v.And(v.at(m.sum_scores) == 0, v.at(m.total) == 0))
        v.raises("unknown-reduction", ValueError, lambda: M(reduction="none"))


@contract("C12", "dists_rejects_bad_images", funcs=[ME + "DeepImageStructureTextureSimilarity.update", ME + "_dists._valid_img"], runs=30)
def m_dists_bad(v):
    import torch
    from neuralcompression.metrics import DeepImageStructureTextureSimilarity as M
    with _dists_net(v):
        m = M()
        B, H, W = v.int("B", 1, span=3), v.int("H", 1, span=3), v.int("W", 1, span=3)
        good = v.tensor("x", (B, 3, H, W), 0, 1)
        how = v.choose("how", ["above", "below", "channels", "rank"])
        if how in ("above", "below"):
            bad = v.tensor("bad", (B, 3, H, W), -1, 2)
            i = [v.index("i%d" % k, d) for k, d in enumerate((B, 3, H, W))]
            v.require(v.at(bad, *i) > 1.001 if how == "above" else v.at(bad, *i) < -0.001)
        else:
            bad = v.tensor("bad", (B, 4, H, W) if how == "channels" else (B, H, W), 0, 1)
        if v.bool("first"):
            v.raises("invalid-image", ValueError, lambda: m.update(bad, good))
        else:
            v.raises("invalid-image", ValueError, lambda: m.update(good, bad))
        v.ensure("nothing-accumulated", v.And(v.at(m.sum_scores) == 0, v.at(m.total) == 0))


D_ = 3


def _backbones(v, seen):
    """feature extractors: arbitrary deterministic functions, one row of D_ features per image"""
    import torch
    import torchmetrics.image.fid as tmf
    I = tmf.NoTrainInceptionV3

    class Feat(torch.nn.Module):
        def forward(self, x):
            return feats(x)

    def feats(x):
        seen.append(x)
        if v.sym:
            from pyvc.nnops import opaque
            return opaque("features", (x,), [x.shape[0], D_], torch.float32)
        z = x.to(torch.float64).flatten(1)
        return torch.stack([z.mean(1), (z * torch.linspace(0, 1, z.shape[1], dtype=z.dtype)).sum(1) / 7, z[:, -1]], 1).float()

    def init(self, name=None, features_list=None, feature_extractor_weights_path=None, *a, **k):
        torch.nn.Module.__init__(self)
        self.features_list = features_list
        self.eval()

    def fwd(self, x):
        if self.training:
            raise RuntimeError("backbone in training mode")
        return feats(x)

    def load(repo, model=None, *a, **k):
        net = Feat()
        net.fc = torch.nn.Linear(1, 1)
        return net
    return feats, replaced([(I, "__init__", init), (I, "forward", fwd), (torch.hub, "load", load)])


def _metric(v, which, normalize):
    import neuralcompression.metrics as nm
    if which == "fid":
        return nm.FrechetInceptionDistance(normalize=normalize)
    if which == "swav":
        return nm.FrechetInceptionDistanceSwAV(normalize=normalize)
    return nm.KernelInceptionDistance(normalize=normalize, subsets=4, subset_size=2, degree=2, gamma=0.25, coef=0.5)


@contract("C12", "feature_metrics_update", funcs=[ME + "FrechetInceptionDistance.update", ME + "FrechetInceptionDistanceSwAV.update", ME + "KernelInceptionDistance.update"], runs=40,
          assumes=["InceptionV3 / SwAV backbones are arbitrary deterministic functions giving one feature row per image"])
def m_feat(v):
    import torch
    which = v.choose("metric", ["fid", "swav", "kid"])
    norm = v.choose("normalize", [False, True])
    seen = []
    feats, ctx = _backbones(v, seen)
    with ctx:
        m = _metric(v, which, norm)
        m.train()
        n1, n2, B = v.int("n1", 1, span=3), v.int("n2", 1, span=3), v.int("B", 1, span=3)
        R0, K0 = v.tensor("R0", (n1, D_), dtype=torch.float32), v.tensor("K0", (n2, D_), dtype=torch.float32)
        more = v.choose("earlier_batches", [0, 2, 3])
        m.real_features, m.fake_features = [R0], [K0]
        for e in range(more):
            ne = v.int("ne%d" % e, 1, span=3)
            m.real_features.append(v.tensor("RE%d" % e, (ne, D_), dtype=torch.float32))
            m.fake_features.append(v.tensor("KE%d" % e, (ne, D_), dtype=torch.float32))
        if more:
            R0, K0 = torch.cat(m.real_features), torch.cat(m.fake_features)
            n1, n2 = R0.shape[0], K0.shape[0]
        H, W = v.int("H", 1, span=3), v.int("W", 1, span=3)
        byte = which == "swav" or not norm
        x = v.tensor("x", (B, 3, H, W), 0, 255, dtype=torch.uint8) if byte else v.tensor("x", (B, 3, H, W), 0, 1, dtype=torch.float64)
        real = v.choose("real", [True, False])
        m.update(x, real)
        v.ensure("network-run-once-per-image", v.And(len(seen) == 1, seen[0].shape[0] == B))
        mean, std = [0.485, 0.456, 0.406], [0.228, 0.224, 0.225]

        def inp(b, c, i, j):
            e = v.at(x, b, c, i, j)
            if which == "swav":
                e = v.to_real(e) / 255.0
                r = e
                for k in range(3):
                    if norm:
                        r = v.If(c == k, (e - mean[k]) / std[k], r)
                return r
            return v.floor(e * 255) if norm else e
        v.ensure_elems("network-input", seen[0], inp, tol=1e-5)
        got = torch.cat(list(m.real_features if real else m.fake_features))
        old = R0 if real else K0
        n0 = n1 if real else n2
        ref = feats(seen[0])
        v.ensure_shape("one-row-per-image", got, [n0 + B, D_])
        v.ensure_elems("features-appended", got, lambda r, d: v.If(r < n0, lambda: v.at(old, v.min(r, n0 - 1), d), lambda: v.at(ref, v.max(r - n0, 0), d)))
        other = torch.cat(list(m.fake_features if real else m.real_features))
        oo = K0 if real else R0
        v.ensure_shape("other-side-length", other, [n2 if real else n1, D_])
        v.ensure_elems("other-side-untouched", other, lambda r, d: v.at(oo, r, d))
        m.reset()
        v.ensure("reset-empties", v.And(len(m.real_features) == 0, len(m.fake_features) == 0))


@contract("C12", "single_feature_vector", funcs=[ME + "FrechetInceptionDistance.update", ME + "FrechetInceptionDistanceSwAV.update"], runs=12)
def m_feat1(v):
    """a backbone that squeezes the batch dimension of a single image still contributes one row"""
    import torch
    which = v.choose("metric", ["fid", "swav"])
    real = v.choose("real", [True, False])
    seen = []
    feats, ctx = _backbones(v, seen)
    with ctx:
        m = _metric(v, which, False)
        f = v.tensor("f", (D_,), dtype=torch.float32)
        net = lambda x: f
        if which == "fid":
            m._modules.pop("inception", None)
            object.__setattr__(m, "inception", net)
        else:
            m._modules.pop("feature_extractor", None)
            object.__setattr__(m, "feature_extractor", net)
        m.update(v.tensor("x", (1, 3, 4, 4), 0, 255, dtype=torch.uint8), real)
        got = torch.cat(list(m.real_features if real else m.fake_features))
        v.ensure_shape("one-row", got, [1, D_])
        v.ensure_elems("row-is-the-feature", got, lambda r, d: v.at(f, d))


@contract("C12", "feature_metrics_compute", funcs=[ME + "FrechetInceptionDistance.compute", ME + "FrechetInceptionDistanceSwAV.compute", ME + "KernelInceptionDistance.compute"], runs=40,
          assumes=["torch_fidelity computes the Frechet distance / polynomial-kernel MMD of the feature sets it is given (deductive run; checked against the formulas in the concrete run)"])
def m_comp(v):
    import torch
    import torch_fidelity.metric_fid as tf
    import torch_fidelity.metric_kid as tk
    which = v.choose("metric", ["fid", "swav", "kid"])
    calls = []

    def stats(features):
        return ("stats", features)

    def dist(a, b, verbose=False):
        calls.append((a[1], b[1], {}))
        return {"frechet_inception_distance": 2.5}

    def kid(a, b, **k):
        calls.append((a, b, k))
        return {"kernel_inception_distance_mean": 2.5, "kernel_inception_distance_std": 0.5}
    _, ctx = _backbones(v, [])
    with ctx:
        m = _metric(v, which, True)
        n1, n2, n3 = v.int("n1", 2, span=4), v.int("n2", 2, span=4), v.int("n3", 2, span=4)
        R1, R2 = v.tensor("R1", (n1, D_), -2, 2, dtype=torch.float32, style="u"), v.tensor("R2", (n2, D_), -2, 2, dtype=torch.float32, style="u")
        K1 = v.tensor("K1", (n3, D_), -2, 3, dtype=torch.float32, style="u")
        m.real_features, m.fake_features = [R1, R2], [K1]
        if v.sym:
            with replaced(everywhere(tf.fid_features_to_statistics, stats) + everywhere(tf.fid_statistics_to_metric, dist) + everywhere(tk.kid_features_to_metric, kid)):
                out = m.compute()
            v.ensure("distance-computed-once", len(calls) == 1)
            a, b, kw = calls[0]
            v.ensure_shape("all-real-features", a, [n1 + n2, D_])
            v.ensure_elems("real-features-in-order", a, lambda r, d: v.If(r < n1, lambda: v.at(R1, v.min(r, n1 - 1), d), lambda: v.at(R2, v.max(r - n1, 0), d)))
            v.ensure_shape("all-fake-features", b, [n3, D_])
            v.ensure_elems("fake-features-in-order", b, lambda r, d: v.at(K1, r, d))
            v.ensure("double-precision", a.dtype == torch.float64 and b.dtype == torch.float64)
            if which == "kid":
                v.ensure("subsets", kw.get("kid_subsets") == 4 and kw.get("kid_subset_size") == 2)
                v.ensure("kernel", kw.get("kid_kernel_poly_degree") == 2 and kw.get("kid_kernel_poly_gamma") == 0.25 and kw.get("kid_kernel_poly_coef0") == 0.5)
                v.ensure("mean-and-std-returned", v.And(v.at(out[0]) == 2.5, v.at(out[1]) == 0.5))
            else:
                v.ensure("distance-returned", v.at(out) == 2.5)
        else:
            import numpy as np
            out = m.compute()
            a, b = torch.cat([R1, R2]).double().numpy(), K1.double().numpy()
            if which == "kid":
                r = tk.kid_features_to_metric(torch.from_numpy(a), torch.from_numpy(b), kid_subsets=4, kid_subset_size=2, kid_kernel_poly_degree=2, kid_kernel_poly_gamma=0.25, kid_kernel_poly_coef0=0.5)
                v.ensure_close("kid-mean", out[0], r["kernel_inception_distance_mean"], tol=1e-5)
                v.ensure_close("kid-std", out[1], r["kernel_inception_distance_std"], tol=1e-5)
            else:
                import scipy.linalg
                s1, s2 = np.cov(a, rowvar=False), np.cov(b, rowvar=False)
                ev = np.linalg.eigvals(s1 @ s2).astype(complex)
                ref = float(((a.mean(0) - b.mean(0)) ** 2).sum() + np.trace(s1) + np.trace(s2) - 2 * np.sqrt(ev).real.sum())
                v.ensure_close("frechet-distance", out, ref, tol=1e-4)


@contract("C12", "feature_metrics_construction", funcs=[ME + "FrechetInceptionDistance.__init__", ME + "KernelInceptionDistance.__init__"], runs=6)
def m_init(v):
    import neuralcompression.metrics as nm
    _, ctx = _backbones(v, [])
    with ctx:
        f = v.choose("feature", [64, 192, 768, 2048])
        v.ensure("feature-layer", list(nm.FrechetInceptionDistance(feature=f).inception.features_list) == [str(f)])
        v.ensure("kid-feature-layer", list(nm.KernelInceptionDistance(feature=f).inception.features_list) == [str(f)])
        v.raises("unknown-layer", ValueError, lambda: nm.FrechetInceptionDistance(feature=100))
        v.raises("normalize-must-be-bool", ValueError, lambda: nm.FrechetInceptionDistance(normalize=1))
        d = nm.KernelInceptionDistance()
        v.ensure("kid-defaults", (d.subsets, d.subset_size, d.degree, d.gamma, d.coef) == (100, 1000, 3, None, 1.0))
        for m in (nm.FrechetInceptionDistance(), nm.FrechetInceptionDistanceSwAV(), d):
            v.ensure("starts-empty", len(m.real_features) == 0 and len(m.fake_features) == 0)


@contract("C12", "psnr", funcs=[ME + "calc_psnr"], runs=40)
def psnr(v):
    from neuralcompression.metrics import calc_psnr
    dims = [v.int("d%d" % i, 1, span=3) for i in range(4)]
    x, y = v.tensor("x", dims, -1, 1, wide=(-300, 300)), v.tensor("y", dims, -1, 1, wide=(-300, 300))
    dr = v.choose("data_range", [255.0, 1.0, 2.0, None])
    mse = v.sum(dims, lambda *i: (v.at(x, *i) - v.at(y, *i)) * (v.at(x, *i) - v.at(y, *i))) / v.to_real(dims[0] * dims[1] * dims[2] * dims[3])
    if not v.sym and v.rng.random() < 0.4:
        y = x + 1e-8 * y
        mse = float(((x - y) ** 2).mean())
    v.require(mse > 1e-25)
    out = calc_psnr(x, y) if dr is None else calc_psnr(x, y, data_range=dr)
    v.ensure_shape("scalar", out, [])
    v.ensure_close("psnr", v.at(out), 20 * math.log10(dr or 255.0) - 10 * (v.log(mse) / math.log(10)))


@contract("C12", "psnr_numpy", funcs=[ME + "calc_psnr_numpy"], runs=60, bounded=True, notes="bounded: numpy arrays are outside the front end; seeded arrays, float and uint8")
def psnr_np(v):
    import numpy as np
    import torch
    from neuralcompression.metrics import calc_psnr_numpy
    dims = [v.int("d%d" % i, 1, span=3) for i in range(4)]
    dt = v.choose("dtype", [torch.float64, torch.float32, torch.uint8])
    rng = dict(lo=0, hi=255)
    x, y = v.tensor("x", dims, dtype=dt, **rng).numpy(), v.tensor("y", dims, dtype=dt, **rng).numpy()
    mse = float(np.mean([(float(a) - float(b)) ** 2 for a, b in zip(x.ravel(), y.ravel())]))
    v.require(mse > 1e-12)
    dr = v.choose("data_range", [255.0, 1.0, None])
    out = calc_psnr_numpy(x, y) if dr is None else calc_psnr_numpy(x, y, data_range=dr)
    v.ensure_close("psnr", float(out), 10 * math.log10((dr or 255.0) ** 2 / mse), tol=1e-4)


@contract("C12", "pickle_size", funcs=[ME + "pickle_size_of"], runs=40, bounded=True, notes="bounded: pickle byte streams of seeded objects")
def psize(v):
    import os
    import pickle
    import tempfile
    from neuralcompression.metrics import pickle_size_of
    n = v.int("n", 0, span=4000)
    obj = v.choose("obj", [b"x" * n, list(range(n)), {"a": "y" * n, "size": (n, 3)}, None])
    with tempfile.TemporaryFile() as fh:
        pickle.dump(obj, fh)
        fh.flush()
        want = os.fstat(fh.fileno()).st_size
    v.ensure("size-of-the-file", pickle_size_of(obj) == want)


# ------------------------------------------------------------------ C13
class _Rec:
    def __init__(self):
        self.calls = []

    def update(self, imgs, real):
        self.calls.append((imgs, real))


@contract("C13", "patches_and_routing", funcs=[ME + "update_patch_fid"], runs=40, budget=240)
def patches(v):
    import torch
    from neuralcompression.metrics import update_patch_fid
    p, which = v.choose("conf", [(2, (1, 0, 0)), (3, (0, 1, 0)), (2, (0, 0, 1)), (4, (1, 1, 1)), (3, (1, 0, 1))])
    B, H, W = v.int("B", 1, span=2), v.int("H", p, span=3 * p), v.int("W", p, span=3 * p)
    x, y = v.tensor("x", (B, 3, H, W), 0, 1, dtype=torch.float32), v.tensor("y", (B, 3, H, W), 0, 1, dtype=torch.float32)
    ms = [_Rec() if k else None for k in which]
    # modular: 8-bit conversion enters through its contract (proved in C14)
    to8 = lambda t, dtype=None: torch.round(t * 255.0).to(dtype)
    with v.stub(F + "image_to_255_scale", to8):
        n = update_patch_fid(x, y, fid_metric=ms[0], fid_swav_metric=ms[1], kid_metric=ms[2], patch_size=p)
    full = lambda n, off: (n - off - p) // p + 1      # whole patches from `off` on
    v.ensure("whole-patches", v.And(full(H, 0) == H // p, full(W, 0) == W // p))
    g = [(0, full(H, 0), full(W, 0))]
    if v.And(2 * H >= 3 * p, 2 * W >= 3 * p):
        g.append((p // 2, full(H, p // 2), full(W, p // 2)))
    v.ensure("patch-count", n == sum(B * a * b for _, a, b in g))

    from neuralcompression.functional import image_to_255_scale
    x8, y8 = (to8 if v.sym else image_to_255_scale)(x, dtype=torch.uint8), (to8 if v.sym else image_to_255_scale)(y, dtype=torch.uint8)
    for m in ms:
        if m is None:
            continue
        for real, im in ((True, x8), (False, y8)):
            got = [c for c, r in m.calls if bool(r) == real]
            v.ensure("every-update-is-8-bit", all(c.dtype == torch.uint8 for c in got))
            if v.sym:
                v.ensure("one-update-per-grid", len(got) == len(g))
                for c, (off, nh, nw) in zip(got, g):
                    v.ensure_shape("patch-shape", c, [B * nh * nw, 3, p, p])

                    def spec(k, ch, i, j):
                        b, r, q = v.split(k, [B, nh, nw])
                        return v.at(im, b, ch, off + r * p + i, off + q * p + j)
                    v.ensure_elems("patch-contents", c, spec)
            else:
                allp = torch.cat(got)
                want = [im[b, :, off + r * p: off + (r + 1) * p, off + c * p: off + (c + 1) * p] for off, nh, nw in g
                        for b in range(B) for r in range(nh) for c in range(nw)]
                key = lambda t: tuple(t.reshape(-1).tolist())
                v.ensure("patch-shape", list(allp.shape[1:]) == [3, p, p])
                v.ensure("patch-contents", sorted(key(t) for t in allp) == sorted(key(t) for t in want))


@contract("C13", "needs_a_metric", funcs=[ME + "update_patch_fid"], runs=3)
def nometric(v):
    import torch
    from neuralcompression.metrics import update_patch_fid
    x = torch.zeros(1, 3, 4, 4)
    v.raises("no-metric", ValueError, lambda: update_patch_fid(x, x, patch_size=2))


@contract("C13", "default_patch_256", funcs=[ME + "update_patch_fid"], runs=4, thorough_runs=12, bounded=True, notes="bounded: the default patch size on seeded image sizes 256..800")
def dflt(v):
    import torch
    from neuralcompression.metrics import update_patch_fid
    H, W = v.choose("H", [256, 383, 384, 512, 640, 700]), v.choose("W", [256, 383, 384, 512, 640, 700])
    x = v.tensor("x", (1, 3, H, W), 0, 1, dtype=torch.float32, style="u")
    r = _Rec()
    n = update_patch_fid(x, x, kid_metric=r)
    want = (H // 256) * (W // 256) + ((H - 128) // 256 * ((W - 128) // 256) if H >= 384 and W >= 384 else 0)
    v.ensure("patch-count", n == want and sum(c.shape[0] for c, re in r.calls if re) == want)
    v.ensure("patch-size", all(tuple(c.shape[1:]) == (3, 256, 256) for c, _ in r.calls))
