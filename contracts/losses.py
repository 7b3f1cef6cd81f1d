"""C16 training losses, C17 learning-rate schedules, C18 rate targeting (projects/illm)."""
import importlib.machinery
import math
import sys
import types
from pyvc import REPO
from pyvc.api import contract
from contracts.metrics import replaced, everywhere

PRELOAD = ["neuralcompression.loss_fn", "neuralcompression.optim", "neuralcompression.functional", "neuralcompression.metrics", "neuralcompression.models"]
LF = "neuralcompression.loss_fn."


# ------------------------------------------------------------------ C16
def _bce(v, x, t):
    """-(t log s(x) + (1 - t) log(1 - s(x)))"""
    return (1 - t) * x + v.log(1 + v.exp(-x))


@contract("C16", "bce_losses", funcs=[LF + "BinaryCrossentropyDiscriminatorLoss.__call__", LF + "BinaryCrossentropyGeneratorLoss.__call__"], runs=40)
def bce(v):
    import torch
    from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss
    rank = v.choose("rank", [2, 4])
    dims = [v.int("d%d" % i, 1, span=3) for i in range(rank)]
    r, f = v.tensor("real", dims, -5, 5, wide=(-600, 600)), v.tensor("fake", dims, -5, 5, wide=(-600, 600))
    full = v.choose("target", ["scalar", "full"])
    t = v.tensor("t", dims if full == "full" else (), 0, 1)
    at = (lambda *i: v.at(t, *i)) if full == "full" else (lambda *i: v.at(t))
    n = 1
    for d in dims:
        n = n * d
    mean = lambda g: v.sum(dims, g) / v.to_real(n)
    gl = BinaryCrossentropyGeneratorLoss()(r, t)
    v.ensure_close("generator-loss", v.at(gl), mean(lambda *i: _bce(v, v.at(r, *i), at(*i))))
    dl = BinaryCrossentropyDiscriminatorLoss()(real_logits=r, fake_logits=f, target=t)
    v.ensure_close("discriminator-loss", v.at(dl),
                   0.5 * (mean(lambda *i: _bce(v, v.at(r, *i), at(*i))) + mean(lambda *i: _bce(v, v.at(f, *i), 0.0))))
    bad = v.tensor("bad", (dims[0],) if rank == 2 else dims[:2], 0, 1)
    v.raises("target-rank-generator", ValueError, lambda: BinaryCrossentropyGeneratorLoss()(r, bad))
    v.raises("target-rank-discriminator", ValueError, lambda: BinaryCrossentropyDiscriminatorLoss()(r, f, bad))


@contract("C16", "oasis_losses", funcs=[LF + "OASISDiscriminatorLoss.__call__", LF + "OASISGeneratorLoss.__call__"], runs=40)
def oasis(v):
    import torch
    from neuralcompression.loss_fn import OASISDiscriminatorLoss, OASISGeneratorLoss
    K = v.choose("classes", [2, 3])      # labels 0..K-1, channel 0 is 'fake'
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    r, f = v.tensor("real", (B, K + 1, H, W), -4, 4, wide=(-600, 600)), v.tensor("fake", (B, K + 1, H, W), -4, 4, wide=(-600, 600))
    t = v.tensor("labels", (B, H, W), 0, K - 1, dtype=torch.int64)

    def ce(x, cls):
        def at(b, i, j):
            lse = v.log(sum((v.exp(v.at(x, b, c, i, j)) for c in range(1, K + 1)), v.exp(v.at(x, b, 0, i, j))))
            c = cls(b, i, j)
            e = v.at(x, b, 0, i, j)
            for k in range(1, K + 1):
                e = v.If(c == k, v.at(x, b, k, i, j), e)
            return lse - e
        return v.sum([B, H, W], at) / v.to_real(B * H * W)
    lab = lambda b, i, j: v.at(t, b, i, j) + 1
    gl = OASISGeneratorLoss()(r, t)
    v.ensure_close("generator-loss", v.at(gl), ce(r, lab))
    dl = OASISDiscriminatorLoss()(r, f, t)
    v.ensure_close("discriminator-loss", v.at(dl), 0.5 * (ce(r, lab) + ce(f, lambda *i: 0)))


@contract("C16", "oasis_rejects", funcs=[LF + "_oasis_loss._verify_logit_target_shape"], runs=30)
def oasis_bad(v):
    import torch
    from neuralcompression.loss_fn import OASISDiscriminatorLoss, OASISGeneratorLoss
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    r = v.tensor("real", (B, 3, H, W))
    how = v.choose("how", ["dtype", "numel", "rank", "fake-size"])
    t = v.tensor("labels", (B, H, W), 0, 1, dtype=torch.int64)
    D, G = OASISDiscriminatorLoss(), OASISGeneratorLoss()
    if how == "dtype":
        tf = v.tensor("tf", (B, H, W), 0, 1)
        v.raises("float-labels", ValueError, lambda: G(r, tf))
        v.raises("float-labels-d", ValueError, lambda: D(r, r, tf))
        ti = v.tensor("ti", (B, H, W), 0, 1, dtype=torch.int32)
        v.raises("int32-labels", ValueError, lambda: G(r, ti))
        v.raises("int32-labels-d", ValueError, lambda: D(r, r, ti))
    elif how == "numel":
        t2 = v.tensor("t2", (B, H, W + 1), 0, 1, dtype=torch.int64)
        v.raises("label-count", ValueError, lambda: G(r, t2))
        v.raises("label-count-d", ValueError, lambda: D(r, r, t2))
    elif how == "rank":
        r3 = v.tensor("r3", (B, 3, H * W))
        v.raises("logit-rank", ValueError, lambda: G(r3, t))
        v.raises("logit-rank-d", ValueError, lambda: D(r3, r3, t))
    else:
        f = v.tensor("fake", (B, 3, H, W + 1))
        v.raises("fake-size", ValueError, lambda: D(r, f, t))


@contract("C16", "mse_loss", funcs=[LF + "MSELoss.__call__"], runs=30)
def mse(v):
    from neuralcompression.loss_fn import MSELoss
    dims = [v.int("d%d" % i, 1, span=3) for i in range(4)]
    x, y = v.tensor("x", dims, 0, 1, wide=(-900, 900)), v.tensor("y", dims, 0, 1, wide=(-900, 900))
    s = v.choose("scale", [None, 1.0, 3.5])
    out = (MSELoss() if s is None else MSELoss(scale_param=s))(x, y)
    n = dims[0] * dims[1] * dims[2] * dims[3]
    sq = v.sum(dims, lambda *i: (v.at(x, *i) - v.at(y, *i)) * (v.at(x, *i) - v.at(y, *i)))
    v.ensure_shape("scalar", out, [])
    v.ensure_close("scaled-mean-squared-error", v.at(out), (255.0 ** 2 if s is None else s) * sq / v.to_real(n), tol=1e-6)


def _lpips(v, chns=(2, 2), log=None):
    """lpips.LPIPS without its downloaded trunk: an arbitrary feature extractor of two layers, real scaling and linear layers"""
    import torch
    import lpips as lp
    import lpips.lpips as ll

    class Trunk(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.weight, self.bias = torch.nn.Parameter(torch.zeros(2, 3, 1, 1)), torch.nn.Parameter(torch.zeros(2))

        def forward(self, x):
            if v.sym:
                from pyvc.nnops import opaque
                return [opaque("trunk%d" % k, (x,), [x.shape[0], c, x.shape[2], x.shape[3]], x.dtype) for k, c in enumerate(chns)]
            a = torch.stack([x[:, 0] - x[:, 1], x[:, 2] * x[:, 1]], 1)
            return [a, torch.relu(a * 2 - 0.5)]

    def init(self, pretrained=True, net="alex", version="0.1", lpips=True, spatial=False, pnet_rand=False, pnet_tune=False, use_dropout=True,
             model_path=None, eval_mode=True, verbose=True):
        torch.nn.Module.__init__(self)
        if log is not None:
            log.append(dict(net=net, version=version, lpips=lpips))
        self.version, self.lpips, self.spatial, self.L, self.chns = version, lpips, spatial, len(chns), list(chns)
        self.scaling_layer = ll.ScalingLayer()
        self.net = Trunk()
        lins = []
        for k, c in enumerate(chns):
            l = ll.NetLinLayer(c, use_dropout=use_dropout)
            with torch.no_grad():
                l.model[-1].weight.copy_(torch.tensor([0.25, 0.5][:c] if k == 0 else [1.0, 0.125][:c]).view(1, c, 1, 1))
            lins.append(l)
        self.lins = torch.nn.ModuleList(lins)
        if eval_mode:
            self.eval()
    return replaced([(ll.LPIPS, "__init__", init)])


def _lpips_spec(v, m, x, y, B, H, W, normalize, eps, layer=None):
    """per image: sum over layers of the spatial mean of the weighted squared difference of unit-normalised features"""
    import torch

    def inp(t):
        t = (2 * t - 1) if normalize else t
        return m.scaling_layer(t) if m.version == "0.1" else t
    fx, fy = m.net(inp(x)), m.net(inp(y))

    def at(k, b, i, j):
        c = m.chns[k]
        w = [float(q) for q in m.lins[k].model[-1].weight.detach().reshape(-1)] if m.lpips else [1.0] * c

        def nrm(f):
            s = 0.0
            for ch in range(c):
                e = v.at(f[k], b, ch, i, j)
                s = s + (e * e + eps)
            return v.sqrt(s)
        nx, ny = nrm(fx), nrm(fy)
        s = 0.0
        for ch in range(c):
            d = v.at(fx[k], b, ch, i, j) / nx - v.at(fy[k], b, ch, i, j) / ny
            s = s + d * d * w[ch]
        return s

    def one(b):
        r = 0.0
        for k in range(len(m.chns)):
            r = r + v.sum([H, W], lambda i, j: at(k, b, i, j)) / v.to_real(H * W)
        return r
    return one if layer is None else (lambda b, i, j: at(layer, b, i, j))


@contract("C16", "normfix_lpips", funcs=[LF + "NormFixLPIPS.forward", LF + "_normfix_lpips.normalize_tensor"], runs=30, budget=240,
          assumes=["the pretrained trunk is an arbitrary deterministic feature extractor (two layers of two channels)"])
def normfix(v):
    import torch
    from neuralcompression.loss_fn import NormFixLPIPS
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    x, y = [v.tensor(n_, (B, 3, H, W), 0, 1, dtype=torch.float32, wide=(-1.5, 2.5)) for n_ in "xy"]
    norm = v.choose("normalize", [False, True])
    ver, lin = v.choose("variant", [("0.1", True), ("0.0", True), ("0.1", False)])
    with _lpips(v):
        m = NormFixLPIPS(net="vgg", version=ver, lpips=lin)
        m.train()
        v.ensure("stays-in-evaluation-mode", not m.training and all(not q.training for q in m.modules()))
        with torch.no_grad():
            out = m(x, y, normalize=norm)
            v.ensure_shape("one-value-per-image", out, [B, 1, 1, 1])
            spec = _lpips_spec(v, m, x, y, B, H, W, norm, 1e-8)
            v.ensure_elems("normalised-feature-distance", out, lambda b, *r: spec(b), tol=2e-4)


@contract("C16", "normfix_lpips_maps", funcs=[LF + "NormFixLPIPS.forward"], runs=30, budget=240)
def normfix_maps(v):
    import torch
    from neuralcompression.loss_fn import NormFixLPIPS
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    x, y = [v.tensor(n_, (B, 3, H, W), 0, 1, dtype=torch.float32, wide=(-1.5, 2.5)) for n_ in "xy"]
    ver, lin, spatial = v.choose("variant", [("0.1", True, True), ("0.0", False, True), ("0.1", False, False), ("0.1", True, False)])
    with _lpips(v):
        m = NormFixLPIPS(net="vgg", version=ver, lpips=lin, spatial=spatial)
        with torch.no_grad():
            out, layers = m(x, y, retPerLayer=True)
            v.ensure("one-entry-per-layer", len(layers) == 2)
            dims = [B, 1, H, W] if spatial else [B, 1, 1, 1]
            v.ensure_shape("size", out, dims)
            for k in range(2):
                at = _lpips_spec(v, m, x, y, B, H, W, False, 1e-8, layer=k)
                one = (lambda b, _, i, j, at=at: at(b, i, j)) if spatial else (lambda b, *r, at=at: v.sum([H, W], lambda i, j: at(b, i, j)) / v.to_real(H * W))
                v.ensure_shape("layer%d-size" % k, layers[k], dims)
                v.ensure_elems("layer%d" % k, layers[k], one, tol=2e-4)
            v.ensure_elems("total-is-the-sum-of-the-layers", out, lambda *i: v.at(layers[0], *i) + v.at(layers[1], *i), tol=2e-4)


@contract("C16", "normfix_gradient_is_finite", funcs=[LF + "_normfix_lpips.normalize_tensor"], runs=20, bounded=True, notes="bounded: torch autograd on seeded images, including features that are exactly zero")
def normfix_grad(v):
    import torch
    from neuralcompression.loss_fn import NormFixLPIPS
    with _lpips(v):
        m = NormFixLPIPS(net="vgg")
        x = v.tensor("x", (2, 3, 4, 4), 0, 1, dtype=torch.float32).requires_grad_(True)
        y = v.tensor("y", (2, 3, 4, 4), 0, 1, dtype=torch.float32)
        if v.bool("zero"):
            x = (torch.ones(2, 3, 4, 4) * torch.tensor([0.0, 0.0, 0.0]).view(1, 3, 1, 1)).requires_grad_(True)
            m.scaling_layer = torch.nn.Identity()
        m(x, y).sum().backward()
        v.ensure("finite-gradient", bool(torch.isfinite(x.grad).all()))


@contract("C16", "mse_lpips_loss", funcs=[LF + "MSELPIPSLoss.__call__"], runs=20)
def mselpips(v):
    import torch
    from neuralcompression.loss_fn import MSELPIPSLoss
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    x, y = [v.tensor(n_, (B, 3, H, W), 0, 1, dtype=torch.float32, wide=(-1.5, 2.5)) for n_ in "xy"]
    a, c, nrm, bb = v.choose("conf", [(255.0 ** 2, 1.0, True, "vgg"), (2.0, 0.5, False, "alex"), (None, None, None, None)])
    log = []
    with _lpips(v, log=log):
        m = MSELPIPSLoss() if a is None else MSELPIPSLoss(a, c, nrm, bb)
        a, c, nrm, bb = (255.0 ** 2, 1.0, True, "vgg") if a is None else (a, c, nrm, bb)
        v.ensure("backbone", len(log) == 1 and log[0]["net"] == bb)
        m.train()
        v.ensure("perceptual-net-frozen", all(not p.requires_grad for p in m.lpips_model.parameters()) and not m.lpips_model.training)
        with torch.no_grad():
            out = m(x, y)
            lp = m.lpips_model(x, y, normalize=nrm)
        sq = v.sum([B, 3, H, W], lambda *i: (v.at(x, *i) - v.at(y, *i)) * (v.at(x, *i) - v.at(y, *i))) / v.to_real(B * 3 * H * W)
        pl = v.sum([B], lambda b: v.at(lp, b, 0, 0, 0)) / v.to_real(B)
        v.ensure_close("weighted-sum", v.at(out), a * sq + c * pl, tol=2e-4)


@contract("C16", "lpips_metric", funcs=["neuralcompression.functional.lpips"], runs=20)
def lpipsfn(v):
    import torch
    import lpips.lpips as ll
    from neuralcompression.functional import lpips
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    x, y = v.tensor("x", (B, 3, H, W), -1, 1), v.tensor("y", (B, 3, H, W), -1, 1)
    kw = v.choose("conf", [dict(), dict(base_network="vgg", use_linear_calibration=False, linear_weights_version="0.0"), dict(base_network="squeeze", normalize=True),
                           dict(linear_weights_version="0.0", use_linear_calibration=True)])
    red = v.choose("reduction", ["none", "mean", "sum"])
    log = []

    def fwd(self, a, b, retPerLayer=False, normalize=False):
        log.append(normalize)
        if self.training:
            raise RuntimeError("dropout active")
        if v.sym:
            from pyvc.nnops import opaque
            return opaque("lpips", (a, b), [a.shape[0], 1, 1, 1], a.dtype)
        return ((a - b * 0.5) ** 2).mean(dim=(1, 2, 3), keepdim=True) + 0.1 * a.mean(dim=(1, 2, 3), keepdim=True)
    with _lpips(v, log=log), replaced([(ll.LPIPS, "forward", fwd)]):
        out = lpips(x, y, reduction=red, **kw)
        v.ensure("one-model", len(log) == 2)
        v.ensure("network-and-calibration", log[0] == dict(net=kw.get("base_network", "alex"), version=kw.get("linear_weights_version", "0.1"), lpips=kw.get("use_linear_calibration", True)))
        v.ensure("normalize-passed-on", bool(log[1]) == kw.get("normalize", False))
        q = ll.LPIPS(net="alex")
        ref = fwd(q, x, y)
        if red == "none":
            v.ensure_shape("per-image", out, [B])
            v.ensure_elems("per-image-values", out, lambda b: v.at(ref, b, 0, 0, 0))
        else:
            s = v.sum([B], lambda b: v.at(ref, b, 0, 0, 0))
            v.ensure_close(red, v.at(out), s / v.to_real(B) if red == "mean" else s)
        v.raises("unknown-network", ValueError, lambda: lpips(x, y, base_network="resnet"))
        v.raises("unknown-version", ValueError, lambda: lpips(x, y, linear_weights_version="0.2"))
        v.raises("unknown-reduction", ValueError, lambda: lpips(x, y, reduction="max"))


@contract("C16", "target_rate_config", funcs=[LF + "TargetRateConfig.__init__"], runs=10)
def trc(v):
    from neuralcompression.loss_fn import TargetRateConfig as T
    n, m = v.choose("n", [0, 1, 2, 3]), v.choose("m", [0, 1, 2, 3])
    tf, ts = [1.5 - 0.1 * i for i in range(n + 1)], [10 * (i + 1) for i in range(n)]
    lf, ls = [2.0 - 0.2 * i for i in range(m + 1)], [7 * (i + 1) for i in range(m)]
    t = v.real("target", 0, 3)
    c = T(t, tf, ts, (0.25, 2.5), lf, ls)
    v.ensure("keeps-values", v.And(c.target_bpp == t, list(c.target_factors) == tf, list(c.target_steps) == ts, tuple(c.lam_levels) == (0.25, 2.5),
                                   list(c.lam2_factors) == lf, list(c.lam2_steps) == ls))
    v.raises("target-lengths", ValueError, lambda: T(t, tf + [1.0], ts, (0.25, 2.5), lf, ls))
    v.raises("lambda-lengths", ValueError, lambda: T(t, tf, ts, (0.25, 2.5), lf, ls + [100]))


# ------------------------------------------------------------------ C17
def _opt(n=2):
    import torch
    ps = [torch.nn.Parameter(torch.zeros(1)) for _ in range(n)]
    return torch.optim.SGD([{"params": [p], "lr": 0.25 * (i + 1)} for i, p in enumerate(ps)], lr=0.1)


def _lr(v, sched, opt, step):
    """learning rates the scheduler sets for `step`"""
    sched.last_epoch = step - 1
    sched.step()
    return [g["lr"] for g in opt.param_groups]


@contract("C17", "ramp_const_cosine", funcs=["neuralcompression.optim.RampConstCosineLRSchedule.__init__"], runs=80)
def rcc(v):
    from neuralcompression.optim import RampConstCosineLRSchedule
    ramp, const, cos = v.int("ramp", 0, span=10), v.int("const", 0, span=10), v.int("cosine", 0, span=10)
    mn = v.choose("min_val", [1e-12, 0.01, None])
    total = ramp + const + cos
    v.require(total >= 1)
    opt = _opt()
    s = RampConstCosineLRSchedule(opt, total, ramp, cos) if mn is None else RampConstCosineLRSchedule(opt, total, ramp, cos, mn)
    mn = mn or 1e-12
    step = v.int("step", 0, span=30)
    v.require(step <= total)
    if step < ramp:
        f = v.max(v.to_real(step) / v.to_real(ramp), mn)
    elif step > ramp + const:
        f = v.max(_cos(v, v.to_real(step - ramp - const) / v.to_real(cos)), mn)
    else:
        f = 1.0
    lrs = _lr(v, s, opt, step)
    for i, lr in enumerate(lrs):
        v.ensure_close("group%d-factor" % i, lr, 0.25 * (i + 1) * f, tol=1e-9)
        v.ensure("group%d-bounds" % i, v.And(lr >= 0.25 * (i + 1) * mn * (1 - 1e-12), lr <= 0.25 * (i + 1)))


def _cos(v, q):
    """cos(q * pi / 2)"""
    if v.sym:
        from pyvc import axioms as A
        return v._un(A.cos_f, q * math.pi / 2)
    return math.cos(q * math.pi / 2)


@contract("C17", "ramp_cosine", funcs=["neuralcompression.optim.RampCosineLRSchedule.__init__"], runs=80)
def rc(v):
    from neuralcompression.optim import RampCosineLRSchedule
    ramp, rest = v.int("ramp", 0, span=10), v.int("rest", 1, span=10)
    mn = v.choose("min_val", [1e-12, 0.01, None])
    total = ramp + rest
    opt = _opt()
    s = RampCosineLRSchedule(opt, ramp, total) if mn is None else RampCosineLRSchedule(opt, ramp, total, mn)
    mn = mn or 1e-12
    step = v.int("step", 0, span=30)
    v.require(step <= total)
    if step < ramp:
        f = v.max(v.to_real(step) / v.to_real(ramp), mn)
    else:
        f = v.max(_cos(v, v.to_real(step - ramp) / v.to_real(total)), mn)
    lrs = _lr(v, s, opt, step)
    for i, lr in enumerate(lrs):
        v.ensure_close("group%d-factor" % i, lr, 0.25 * (i + 1) * f, tol=1e-9)
        v.ensure("group%d-bounds" % i, v.And(lr >= 0.25 * (i + 1) * mn * (1 - 1e-12), lr <= 0.25 * (i + 1)))


@contract("C17", "identity", funcs=["neuralcompression.optim.IdentitySchedule.__init__"], runs=20)
def ident(v):
    from neuralcompression.optim import IdentitySchedule
    opt = _opt()
    s = IdentitySchedule(opt)
    lrs = _lr(v, s, opt, v.int("step", 0, span=100000))
    for i, lr in enumerate(lrs):
        v.ensure("group%d-unchanged" % i, lr == 0.25 * (i + 1))


# ------------------------------------------------------------------ C18
def _illm():
    """import projects/illm with its absent frameworks (lightning, hydra, omegaconf) as empty shells"""
    import torch
    if "target_compression_module" in sys.modules:
        return sys.modules["target_compression_module"]
    lt, lp = types.ModuleType("lightning"), types.ModuleType("lightning.pytorch")

    class LightningModule(torch.nn.Module):
        device = torch.device("cpu")

        def log(self, *a, **k):
            pass
        log_dict = log
    lp.LightningModule = LightningModule
    lt.pytorch = lp
    hy, oc = types.ModuleType("hydra"), types.ModuleType("omegaconf")
    oc.DictConfig = dict
    for n, m in (("lightning", lt), ("lightning.pytorch", lp), ("hydra", hy), ("omegaconf", oc)):
        m.__spec__ = importlib.machinery.ModuleSpec(n, None, is_package=True)
        m.__path__ = []
        sys.modules.setdefault(n, m)
    sys.path.insert(0, REPO + "/projects/illm")
    try:
        import target_compression_module
        import gan_compression_module
    finally:
        sys.path.remove(REPO + "/projects/illm")
    return target_compression_module


def _tmod(v, cfg, lam=1.0, loss=None, cls=None):
    """the real module object with its configuration, without constructing the logging metrics (they need downloaded weights)"""
    import torch
    m = _illm()
    o = (cls or m.TargetRateCompressionModule).__new__(cls or m.TargetRateCompressionModule)
    torch.nn.Module.__init__(o)
    o.target_rate_config = cfg
    o.distortion_lam = lam
    o.distortion_loss = loss
    o.trainer = types.SimpleNamespace(global_step=0)
    return o


def _bits(v, p, dims, b):
    return -v.sum(dims, lambda *i: v.log(v.at(p, b, *i))) / math.log(2.0)


def _sched(v, base, factors, steps, g):
    r = base * factors[-1]
    for k in reversed(range(len(steps))):
        r = v.If(g < steps[k], base * factors[k], r)
    return r


@contract("C18", "scheduled_rate_parameter", funcs=["target_compression_module.TargetRateCompressionModule._get_scheduled_rate_param"], runs=60)
def sched(v):
    import inspect
    from neuralcompression.loss_fn import TargetRateConfig
    n = v.choose("n", [0, 1, 2, 3])
    _illm()
    o = _tmod(v, None)
    fs = [v.real("f%d" % i, 0, 4) for i in range(n + 1)]
    ss, last = [], 0
    for i in range(n):
        last = last + v.int("gap%d" % i, 1, span=6)
        ss.append(last)
    base, g = v.real("base", 0, 5), v.int("global_step", 0, span=30)
    o.trainer.global_step = g
    out = o._get_scheduled_rate_param(base, fs, ss)
    v.ensure_close("factor-of-the-current-stage", out, _sched(v, base, fs, ss, g), tol=1e-9)


@contract("C18", "rate_loss", funcs=["target_compression_module.TargetRateCompressionModule.rate_loss", "target_compression_module.TargetRateCompressionModule._calc_bits_per_batch"], runs=40, budget=240)
def rate(v):
    import torch
    from neuralcompression.loss_fn import TargetRateConfig
    _illm()
    t = v.real("target", 0, 3)
    cfg = TargetRateConfig(t, [1.5, 1.0], [10], (0.25, 4.0), [2.0, 1.0], [20])
    o = _tmod(v, cfg)
    g = v.choose("global_step", [0, 9, 10, 19, 20])
    o.trainer.global_step = g
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4)
    h, w, hh, hw = v.int("h", 1, span=2), v.int("w", 1, span=2), v.int("hh", 1, span=2), v.int("hw", 1, span=2)
    im = v.tensor("image", (B, 3, H, W), 0, 1)
    ld, hd = [2, h, w], [2, hh, hw]
    L, Lq = v.tensor("L", [B] + ld, 0.01, 1.0), v.tensor("Lq", [B] + ld, 0.01, 1.0)
    Z, Zq = v.tensor("Z", [B] + hd, 0.01, 1.0), v.tensor("Zq", [B] + hd, 0.01, 1.0)
    out = o.rate_loss(original=im, latent_likelihoods=L, quantized_latent_likelihoods=Lq, hyper_latent_likelihoods=Z, quantized_hyper_latent_likelihoods=Zq)
    npx = v.to_real(H * W)
    tgt = t * (1.5 if g < 10 else 1.0)
    l2 = 4.0 * (2.0 if g < 20 else 1.0)
    bpp = lambda b: _bits(v, L, ld, b) / npx + _bits(v, Z, hd, b) / npx
    qbpp = lambda b: _bits(v, Lq, ld, b) / npx + _bits(v, Zq, hd, b) / npx
    mean = lambda f: v.sum([B], f) / v.to_real(B)
    if not v.sym:
        # away from the switching point (float rounding)
        v.require(all(abs(qbpp(b) - tgt) > 1e-9 for b in range(B)))
    v.ensure_close("target-of-this-stage", out.target, tgt, tol=1e-9)
    v.ensure_close("lambda-of-this-stage", out.lam2, l2, tol=1e-9)
    v.ensure_close("noisy-bpp", v.at(out.total_bpp), mean(bpp))
    v.ensure_close("quantised-bpp", v.at(out.quantized_total_bpp), mean(qbpp))
    v.ensure_close("latent-bpp", v.at(out.latent_bpp), mean(lambda b: _bits(v, L, ld, b) / npx))
    v.ensure_close("quantised-latent-bpp", v.at(out.quantized_latent_bpp), mean(lambda b: _bits(v, Lq, ld, b) / npx))
    v.ensure_close("hyper-bpp", v.at(out.hyper_bpp), mean(lambda b: _bits(v, Z, hd, b) / npx))
    v.ensure_close("quantised-hyper-bpp", v.at(out.quantized_hyper_bpp), mean(lambda b: _bits(v, Zq, hd, b) / npx))
    v.ensure_close("each-image-charged-by-its-own-rate", v.at(out.rate_loss), mean(lambda b: v.If(qbpp(b) > tgt, l2, 0.25) * bpp(b)))


@contract("C18", "gan_batch_split", funcs=["gan_compression_module.GANCompressionModule._resample_batch"], runs=30)
def split(v):
    _illm()
    G = sys.modules["gan_compression_module"].GANCompressionModule
    o = _tmod(v, None, cls=G)
    B, H = v.int("B", 2, span=6), v.int("H", 1, span=3)
    x = v.tensor("x", (B, 3, H, H))
    mc = v.choose("mc", [True, False])
    a, b = o._resample_batch(x, mc_sampling=mc)
    if mc:
        n = B // 2
        v.ensure_shape("model-half", a, [n, 3, H, H])
        v.ensure_shape("discriminator-half", b, [n, 3, H, H])
        v.ensure_elems("model-half-contents", a, lambda k, *i: v.at(x, k, *i))
        v.ensure_elems("disjoint-second-half", b, lambda k, *i: v.at(x, k + n, *i))
    else:
        v.ensure_shape("whole", a, [B, 3, H, H])
        v.ensure_elems("model-sees-all", a, lambda *i: v.at(x, *i))
        v.ensure_elems("discriminator-sees-all", b, lambda *i: v.at(x, *i))
