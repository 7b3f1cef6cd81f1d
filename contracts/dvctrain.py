"""C31: staged training of the DVC model (projects/deep_video_compression).  pytorch_lightning is absent and replaced by an empty shell;
the pretrained I-frame model, the sub-networks and the optimizers are arbitrary (uninterpreted functions in the proofs, recorded calls)."""
import importlib.machinery
import sys
import types

from pyvc.api import contract
from pyvc import REPO
from contracts.dvc import CC, _model, _stub
from contracts.illm import _net, _scalar

PRELOAD = ["neuralcompression.models.deep_video_compression", "neuralcompression.models", "neuralcompression.functional"]
U, D = "_utils.", "dvc_module.DvcModule."
STAGES = ["1_motion_estimation", "2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total"]


def _mods():
    import os
    import torch
    if "dvc_module" in sys.modules:
        return sys.modules["dvc_module"]
    pl = types.ModuleType("pytorch_lightning")

    class LightningModule(torch.nn.Module):
        def log(self, k, x, **kw):
            self.__dict__.setdefault("logged", {})[k] = x

        def log_dict(self, d, **k):
            for a, b in d.items():
                self.log(a, b)
    pl.LightningModule = LightningModule
    pl.__spec__ = importlib.machinery.ModuleSpec("pytorch_lightning", None, is_package=True)
    pl.__path__ = []
    sys.modules.setdefault("pytorch_lightning", pl)
    import torchmetrics

    class PSNR(torch.nn.Module):
        """records what it is given"""

        def __init__(self, data_range=None, **k):
            super().__init__()
            self.data_range, self.got = data_range, []

        def forward(self, a, b):
            self.got.append((a, b))

        update = forward
    torchmetrics.PSNR = PSNR
    sys.path.insert(0, REPO + "/projects/deep_video_compression")
    try:
        import dvc_module
    finally:
        sys.path.remove(REPO + "/projects/deep_video_compression")
    from pyvc import patch
    if os.environ.get("PYVC_MODE") == "sym":
        patch.inject(patch.repo_modules())
    return dvc_module


def _iframe(v, keys):
    import torch

    class IFrame(torch.nn.Module):
        def __init__(s):
            super().__init__()
            s.calls, s.updates = [], 0
            s.w = torch.nn.Parameter(torch.ones(()))

        def update(s, *a, **k):
            s.updates += 1

        def forward(s, x):
            s.calls.append((s.training, torch.is_grad_enabled()))
            B, C, H, W = x.shape
            f = (lambda t: t * 0.8 + 0.05) if v.sym else (lambda t: t * 0.8 * s.w.to(t.dtype) + 0.05)
            return {"x_hat": _net(v, "iframe", (x,), [B, C, H, W], 0, 1, f),
                    "likelihoods": {k: _net(v, "ilik" + k, (x,), [B, 2, H, W], 0.01, 1, lambda t: (t[:, :2] * 0.5 + 0.1 * (i + 1))) for i, k in enumerate(keys)}}
    return IFrame()


def _module(v, model, stage, np_, lam=256.0, keys=("y",), **kw):
    """the real module from its real constructor; only the downloaded I-frame model is a stand-in"""
    import compressai.zoo
    from unittest import mock
    dm = _mods()
    made = []

    def factory(q, *a, **k):
        made.append((q, k.get("pretrained", a[1] if len(a) > 1 else None)))
        return _iframe(v, keys)
    with mock.patch.dict(compressai.zoo.models, {"stub": factory}):
        o = dm.DvcModule(model, stage, "stub", 5, num_pframes=np_, distortion_lambda=lam, **kw)
    v.ensure("pretrained-iframe-model-of-the-given-quality", made == [(5, True)])
    return o, dm


def _bits(v, p, n):
    """code length of the latents in bits per pixel"""
    import torch
    return v.at(-(torch.log(p).sum() if v.sym else torch.log(p.double()).sum()) / 0.6931471805599453) / v.to_real(n)


def _mse(v, a, b):
    return v.at(((a - b) ** 2).mean())


def _compressing(v, o, dt):
    """an arbitrary DVC model (concrete runs: the real small one)"""
    m = _model(v)
    if v.sym:
        m = _stub(v, m)
        from pyvc.nnops import opaque

        def pairs(a, b):
            f = m.motion_estimator(a, b)
            r = lambda n, k: opaque(n, (a, b), [a.shape[0], 3, a.shape[2] // k + 1, a.shape[3] // k + 1])
            return f, [(r("w%d" % k, k), r("t%d" % k, k)) for k in (4, 2, 1)]
        m.motion_estimator.__dict__["calculate_flow_with_image_pairs"] = pairs
    return m


@contract("C31", "stage_losses", funcs=[U + "DvcStage1.compute_batch_loss", U + "DvcStage2.compute_batch_loss", U + "DvcStage2.forward", U + "DvcStage3.compute_batch_loss", U + "DvcStage3.forward",
                                        U + "DvcStage4and5.compute_batch_loss", D + "__init__"], runs=20, thorough_runs=150, budget=300,
          assumes=["sub-networks are arbitrary deterministic functions (DVC.forward itself: C03)"])
def stage_losses(v):
    import torch
    from neuralcompression.functional import dense_image_warp
    stage = v.choose("stage", STAGES)
    lam = v.real("lambda", 0, 2048)
    m = _compressing(v, None, None)
    m.eval()
    o, dm = _module(v, m, stage, 1, lam)
    o.eval()
    B, H, W = v.int("B", 1, span=1), v.int("H", 8, span=30), v.int("W", 8, span=30)
    x1 = v.tensor("image1", (B, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    x2 = v.tensor("image2", (B, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    lv, im = o.model.compute_batch_loss(x1, x2)
    with torch.no_grad():
        fr = rr = None
        if stage[0] == "1":
            flow, pairs = m.motion_estimator.calculate_flow_with_image_pairs(x1, x2)
            est = dense_image_warp(x1, flow.permute(0, 2, 3, 1))
            dist = sum(_mse(v, a, b) for a, b in pairs) / len(pairs)
        elif stage[0] in "23":
            lat, s = m.motion_encoder(m.motion_estimator(x1, x2))
            q, p = m.motion_entropy_bottleneck(lat)
            flow = m.motion_decoder(q, s)
            est = dense_image_warp(x1, flow.permute(0, 2, 3, 1))
            if stage[0] == "3":
                est = m.motion_compensation(x1, est, flow)
            dist, fr = _mse(v, x2, est), _bits(v, p, B * H * W)
        else:
            out = m(x1, x2)
            flow, est, dist = out.flow, out.image2_est, _mse(v, x2, out.image2_est)
            fr, rr = _bits(v, out.flow_probabilities, B * H * W), _bits(v, out.resid_probabilities, B * H * W)
    v.ensure_close("distortion-is-lambda-times-mean-squared-error", v.at(lv.distortion_loss), lam * dist, tol=1e-3)
    v.ensure("flow-bits-exactly-where-flow-is-coded", (lv.flow_entropy_loss is None) == (fr is None))
    v.ensure("residual-bits-exactly-where-the-residual-is-coded", (lv.resid_entropy_loss is None) == (rr is None))
    if fr is not None:
        v.ensure_close("flow-bits-per-pixel", v.at(lv.flow_entropy_loss), fr, tol=1e-4)
    if rr is not None:
        v.ensure_close("residual-bits-per-pixel", v.at(lv.resid_entropy_loss), rr, tol=1e-4)
    v.ensure_shape("reconstruction-size", im.image2_est, [B, 3, H, W])
    v.ensure_elems("reconstruction", im.image2_est, lambda *i: v.at(est, *i), tol=1e-4)
    v.ensure_elems("flow", im.flow, lambda *i: v.at(flow, *i), tol=1e-4)
    v.ensure_elems("image1", im.image1, lambda *i: v.at(x1, *i))
    v.ensure_elems("image2", im.image2, lambda *i: v.at(x2, *i))
    if not v.sym:
        v.ensure("images-carry-no-gradient", not any(t.requires_grad for t in im))
        v.ensure("losses-carry-gradients", all(t.requires_grad for t in lv if t is not None))


@contract("C31", "i_frame", funcs=[D + "compress_iframe"], runs=25)
def iframe(v):
    import torch
    keys = v.choose("likelihoods", [("y",), ("y", "z")])
    o, dm = _module(v, _compressing(v, None, None), v.choose("stage", STAGES[::4]), 1, keys=keys)
    B, Tn, H, W = v.int("B", 1, span=2), v.int("T", 2, span=4), v.int("H", 1, span=5), v.int("W", 1, span=5)
    x = v.tensor("frames", (B, Tn, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    x0 = x.clone()
    o.train(v.choose("training", [True, False]))
    out, bpp = o.compress_iframe(x)
    calls = list(o.iframe_model.calls)
    v.ensure("one-pass-in-evaluation-mode", len(calls) == 1 and calls[0][0] is False)
    if not v.sym:
        v.ensure("without-gradients", calls[0][1] is False and not out.requires_grad and not bpp.requires_grad)
    with torch.no_grad():
        ref = o.iframe_model(x0[:, 0])
    v.ensure_shape("same-size", out, [B, Tn, 3, H, W])
    v.ensure_elems("first-frame-decoded", out[:, 0], lambda *i: v.at(ref["x_hat"], *i))
    v.ensure_elems("other-frames-untouched", out[:, 1:], lambda b, t, *i: v.at(x0, b, t + 1, *i))
    v.ensure_close("bits-per-pixel-of-all-latents", _scalar(v, bpp), sum(_bits(v, p, B * H * W) for p in ref["likelihoods"].values()), tol=1e-4)


class _Stage:
    """compute_batch_loss by its contract: some losses and a reconstruction, functions of the two images it is given"""

    def __init__(self, v, dm, kind):
        self.v, self.u, self.kind, self.calls, self.train_calls = v, sys.modules["_utils"], kind, [], []

    def train(self, mode=True):
        self.train_calls.append(mode)
        return self

    def one(self, a, b):
        v = self.v
        sc = lambda n, k: _net(v, n, (a, b), [], 0, 9, lambda p, q: ((p - k * q) ** 2).mean() + 0.1 * k)
        return (sc("dist", 1), sc("flow_bits", 2) if self.kind > 0 else None, sc("resid_bits", 3) if self.kind > 1 else None,
                _net(v, "recon", (a, b), list(a.shape), 0, 1, lambda p, q: 0.3 * p + 0.6 * q), _net(v, "flow", (a, b), [a.shape[0], 2, a.shape[2], a.shape[3]], -9, 9, lambda p, q: p[:, :2]))

    def compute_batch_loss(self, a, b):
        self.calls.append((a, b))
        d, f, r, est, flow = self.one(a, b)
        return self.u.LossValues(d, f, r), self.u.OutputTensors(flow, a, b, est)

    def quantile_loss(self):
        import torch
        return _net(self.v, "quantile_loss", (), [], 0, 5, lambda: torch.tensor(0.625, dtype=torch.float64))


class _Opt:
    """records every step with the gradients it saw"""

    def __init__(self, log, name):
        import torch
        self.log, self.name = log, name
        self.param_groups = [{"params": [torch.nn.Parameter(torch.zeros(2)) for _ in range(2)]}]

    def params(self):
        return self.param_groups[0]["params"]

    def zero_grad(self, *a, **k):
        for p in self.params():
            p.grad = None

    def add(self, g):
        for p in self.params():
            p.grad = g.clone() if p.grad is None else p.grad + g

    def step(self, *a, **k):
        self.log.append(("step", self.name, [None if p.grad is None else [float(e) for e in p.grad] for p in self.params()]))


def _gop(v, train):
    import torch
    np_ = v.choose("pframes", [1, 2, 3, 6])
    kind = v.choose("stage", [0, 1, 2])
    dm = _mods()
    stage = STAGES[[0, 1, 4][kind]]
    clip, sched = v.choose("clip_and_schedule", [(1.0, True), (0.25, False)]) if train else (1.0, True)
    o, _ = _module(v, _compressing(v, None, None), stage, np_, keys=("y",), grad_clip_value=clip)
    st = _Stage(v, dm, kind)
    o._modules.pop("model")
    d = o.__dict__
    d["model"] = st
    log = []
    aux = kind > 0
    opts = [_Opt(log, "main")] + ([_Opt(log, "aux")] if aux else [])
    d["optimizers"] = lambda *a, **k: opts if aux else opts[0]
    s = types.SimpleNamespace(step=lambda *a, **k: log.append(("sched",)))
    d["lr_schedulers"] = lambda *a, **k: s if sched else None
    grads = []

    def backward(loss, *a, **k):
        g = torch.tensor([3.0 + len(grads), 4.0])
        grads.append(g)
        log.append(("backward", loss))
        opts[0].add(g)
        if aux:
            opts[1].add(g)
    d["manual_backward"] = backward
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4)
    x = v.tensor("frames", (B, np_ + 1, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    x0 = x.clone()
    (o.training_step if train else o.validation_step)(x, 0)
    ref = o.iframe_model(x0[:, 0])
    im1 = ref["x_hat"]
    bpp = _bits(v, ref["likelihoods"]["y"], B * H * W)
    tot = dist = fl = rs = 0.0
    want, ests = [], []
    v.ensure("one-evaluation-per-predicted-frame", len(st.calls) == np_)
    for i in range(np_):
        im2 = x0[:, i + 1]
        v.ensure_elems("coded-against-the-previous-reconstruction", st.calls[i][0], lambda *j: v.at(im1, *j))
        v.ensure_elems("codes-the-next-frame", st.calls[i][1], lambda *j: v.at(im2, *j))
        a, f, r, est, _f = st.one(im1, im2)
        a, f, r = v.at(a), 0.0 if f is None else v.at(f), 0.0 if r is None else v.at(r)
        want.append(a + f + r)
        tot, dist, fl, rs, bpp = tot + a + f + r, dist + a, fl + f, rs + r, bpp + f + r
        ests.append((im2, est))
        im1 = est
    n, L = np_ + 1, o.logged
    p = stage + ("/train_" if train else "/val_")
    for k, val, on in (("gop_loss", tot, True), ("gop_distortion_loss", dist, True), ("gop_bpp", bpp, True), ("gop_flow_bpp", fl, kind > 0), ("gop_residual_bpp", rs, kind > 1)):
        v.ensure("logs-%s-where-it-exists" % k, (p + k in L) == on)
        if on:
            v.ensure_close("logged-" + k, _scalar(v, L[p + k]), val / n, tol=1e-4)
    v.ensure("logs-psnr", L.get(p + "psnr") is o.psnr and len(o.psnr.got) == 1 and o.psnr.data_range == 1.0)
    a, b = o.psnr.got[0]
    v.ensure_shape("psnr-of-all-predicted-frames", a, [np_ * B, 3, H, W])
    sq = (a - b) ** 2
    for i, (im2, est) in enumerate(ests):
        v.ensure_elems("psnr-frame-%d" % i, sq[i * B:(i + 1) * B], lambda *j: (v.at(im2, *j) - v.at(est, *j)) * (v.at(im2, *j) - v.at(est, *j)), tol=1e-5)
    return o, st, log, opts, grads, want, np_, clip, sched, aux


@contract("C31", "training_step", funcs=[D + "training_step", D + "compute_loss_and_metrics", D + "log_all_metrics"], runs=30, budget=300,
          notes="groups of 1, 2, 3 and 6 predicted frames (the data set's clips hold seven frames); any batch and image size; networks and losses arbitrary")
def training(v):
    import torch
    o, st, log, opts, grads, want, np_, clip, sched, aux = _gop(v, True)
    main = [e for e in log if e[:2] == ("step", "main")]
    bw = [e for e in log if e[0] == "backward"]
    v.ensure("one-step-per-predicted-frame", len(main) == np_)
    v.ensure("one-backward-pass-per-loss", len(bw) == np_ + aux)
    order = [e[1] if e[0] == "step" else e[0] for e in log]
    Q = v.at(st.quantile_loss())
    j = 0
    for i, e in enumerate(log):
        if e[:2] == ("step", "main"):
            prev = [k for k in range(i) if log[k][0] == "backward"]
            v.ensure("backward-before-the-step", len(prev) >= 1)
            k = len(prev) - 1
            v.ensure_close("steps-on-this-frame's-loss", v.at(log[prev[-1]][1]), want[j], tol=1e-5)
            g = torch.cat([grads[k]] * 2)
            c = min(1.0, clip / (float(g.norm()) + 1e-6))
            v.ensure("gradient-of-this-frame-alone-clipped", all(q is not None and all(abs(s - float(t) * c) < 1e-4 for s, t in zip(q, grads[k])) for q in e[2]))
            j += 1
        if e[:2] == ("step", "aux"):
            prev = [k for k in range(i) if log[k][0] == "backward"]
            v.ensure_close("quantiles-step-on-the-quantile-loss", v.at(log[prev[-1]][1]), Q, tol=1e-6)
            g = grads[len(prev) - 1]
            v.ensure("quantile-gradient-alone", all(q is not None and all(abs(s - float(t)) < 1e-4 for s, t in zip(q, g)) for q in e[2]))
    v.ensure("one-quantile-step-where-there-are-quantiles", sum(e[:2] == ("step", "aux") for e in log) == int(aux))
    v.ensure("schedule-advances-once", order.count("sched") == int(sched))
    if sched:
        v.ensure("schedule-after-the-steps", max(k for k, e in enumerate(order) if e == "main") < order.index("sched"))
    key = o.training_stage + "/train_quantile_loss"
    v.ensure("logs-quantile-loss-where-trained", (key in o.logged) == aux)
    if aux:
        v.ensure_close("logged-quantile-loss", _scalar(v, o.logged[key]), Q, tol=1e-6)


@contract("C31", "validation_step", funcs=[D + "validation_step", D + "compute_loss_and_metrics", D + "log_all_metrics"], runs=30, budget=300,
          notes="groups of 1, 2, 3 and 6 predicted frames; any batch and image size; networks and losses arbitrary")
def validation(v):
    o, st, log, *_ = _gop(v, False)
    v.ensure("nothing-trained", log == [])
    v.ensure("reports-a-validation-loss", "val_loss" in o.logged)


@contract("C31", "parameters_and_recomposition", funcs=[U + "DvcStage.collect_parameters", U + "DvcStage1.collect_parameters", D + "configure_optimizers", D + "recompose_model", D + "update",
                                                        U + "DvcStage1.recompose_model", U + "DvcStage2.recompose_model", U + "DvcStage3.recompose_model", U + "DvcStage4and5.recompose_model",
                                                        U + "DvcStage2.quantile_loss", U + "DvcStage3.quantile_loss", U + "DvcStage4and5.quantile_loss", U + "DvcStage4and5.update"],
          bounded=True, runs=30, thorough_runs=60, notes="the real small DVC model, every stage, with and without frozen parameters and learning-rate schedule")
def parameters(v):
    import torch
    from neuralcompression.models.deep_video_compression import DVC, DVCPyramidFlowEstimator
    stage = v.choose("stage", STAGES)
    build = lambda: DVC(coder_channels=CC, motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3, levels=2))
    m = build()
    sp = v.choose("schedule", [None, {"step_size": 3, "gamma": 0.5}])
    frozen = v.choose("frozen", [False, True])
    parts = {"1": ["motion_estimator"], "2": ["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder"]}
    parts["3"] = parts["2"] + ["motion_compensation"]
    parts["4"] = parts["5"] = [n for n, _ in m.named_children()]
    ps = parts[stage[0]]
    if frozen:
        for p in list(getattr(m, v.rng.choice(ps)).parameters())[:2]:
            p.requires_grad_(False)
    o, dm = _module(v, m, stage, 1, learning_rate=0.01, aux_learning_rate=0.03, lr_scheduler_params=sp)
    cfg = o.configure_optimizers()
    train = {id(p): (n, p) for part in ps for n, p in getattr(m, part).named_parameters() if p.requires_grad}
    quant = {i for i, (n, p) in train.items() if n.split(".")[-1] == "quantiles"}
    ids = lambda c: [id(p) for g in c["optimizer"].param_groups for p in g["params"]]
    v.ensure("main-optimizer-has-every-other-parameter-once", sorted(ids(cfg[0])) == sorted(set(train) - quant))
    v.ensure("main-learning-rate", cfg[0]["optimizer"].param_groups[0]["lr"] == 0.01)
    if stage[0] == "1":
        v.ensure("no-quantiles-no-second-optimizer", len(cfg) == 1 and not quant)
    else:
        v.ensure("quantiles-in-their-own-optimizer", len(cfg) == 2 and sorted(ids(cfg[1])) == sorted(quant) and len(quant) == (2 if stage[0] in "45" else 1) - (0 if not frozen else sum(
            not p.requires_grad for part in ps for n, p in getattr(m, part).named_parameters() if n.endswith("quantiles"))))
        v.ensure("quantile-learning-rate", cfg[1]["optimizer"].param_groups[0]["lr"] == 0.03)
    if sp is None:
        v.ensure("no-schedule", all("lr_scheduler" not in c for c in cfg))
    else:
        s = cfg[0]["lr_scheduler"]
        s = s["scheduler"] if isinstance(s, dict) else s
        v.ensure("schedule-drives-the-main-optimizer", s.optimizer is cfg[0]["optimizer"] and s.step_size == 3 and s.gamma == 0.5)
    # the quantile loss is that of every bottleneck this stage trains
    bn = [getattr(m, n) for n in ps if n.endswith("entropy_bottleneck")]
    v.ensure("quantile-loss-of-every-bottleneck", abs(float(o.model.quantile_loss()) - sum(float(b.loss()) for b in bn)) < 1e-4)
    for b in bn:
        v.ensure("not-yet-updated", b._offset.numel() == 0)
    o.update(force=v.choose("force", [True, False]))
    for b in bn:
        v.ensure("coder-tables-built", b._offset.numel() > 0 and b._quantized_cdf.shape[0] == CC)
    old = [b._quantized_cdf.clone() for b in bn]
    with torch.no_grad():
        for b in bn:
            b.quantiles[:, 0, 0] -= 6.0
            b.quantiles[:, 0, 2] += 9.0
    o.update(force=False)
    v.ensure("tables-kept-unless-forced", all(torch.equal(a, b._quantized_cdf) for a, b in zip(old, bn)))
    o.update(force=True)
    v.ensure("tables-rebuilt-when-forced", all(b._quantized_cdf.shape[1] > a.shape[1] for a, b in zip(old, bn)))
    # afterwards the trained parts are in the model handed on
    with torch.no_grad():
        for i, (n, p) in train.items():
            p.add_(1.0)
    other = build()
    keep = {n: c for n, c in other.named_children()}
    r = o.recompose_model(other)
    for n, c in m.named_children():
        if n in ps:
            v.ensure("trained-part-handed-on", getattr(r, n) is c or all(torch.equal(a, b) for a, b in zip(getattr(r, n).state_dict().values(), c.state_dict().values())))
        else:
            v.ensure("other-parts-kept", getattr(r, n) is keep[n])
    v.raises("unknown-stage-refused", (ValueError, KeyError), lambda: _module(v, build(), "6_none", 1))


@contract("C31", "training_moves_parameters", funcs=[D + "training_step", U + "DvcStage2.compute_batch_loss", U + "DvcStage3.compute_batch_loss", U + "DvcStage4and5.compute_batch_loss"],
          bounded=True, runs=10, thorough_runs=60, notes="real autograd, SGD and the real small model: each predicted frame moves the parameters by its own gradient only, the I-frame model stays")
def moves(v):
    import copy
    import torch
    from neuralcompression.models.deep_video_compression import DVC, DVCPyramidFlowEstimator
    from neuralcompression.functional import dense_image_warp
    stage = v.choose("stage", STAGES)
    torch.manual_seed(v.rng.randrange(10**6))
    m = DVC(coder_channels=CC, motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3, levels=2))
    np_ = v.choose("pframes", [1, 2, 3])
    o, dm = _module(v, m, stage, np_, lam=8.0, grad_clip_value=1e9)
    o.eval()                                   # quantisation by rounding: no noise to reproduce
    lr = 1e-3
    mp, qp = o.model.collect_parameters()
    opts = [torch.optim.SGD(list(mp.values()), lr)] + ([torch.optim.SGD(list(qp.values()), lr)] if qp else [])
    d = o.__dict__
    d.update(optimizers=lambda *a, **k: opts if len(opts) > 1 else opts[0], lr_schedulers=lambda *a, **k: None, manual_backward=lambda l: l.backward())
    x = torch.rand(1, np_ + 1, 3, 32, 32)
    ref = copy.deepcopy(o.model)
    w0 = o.iframe_model.w.detach().clone()
    with torch.no_grad():
        im1 = o.iframe_model(x[:, 0])["x_hat"]
    rp, rq = ref.collect_parameters()
    for i in range(np_):
        for p in ref.parameters():
            p.grad = None
        lv, im = ref.compute_batch_loss(im1, x[:, i + 1].clone())
        loss = sum(t for t in lv if t is not None)
        gs = torch.autograd.grad(loss, list(rp.values()), allow_unused=True)
        with torch.no_grad():
            for p, g in zip(rp.values(), gs):
                if g is not None:
                    p.sub_(lr * g)
        im1 = im.image2_est.detach()
    q0 = {n: p.detach().clone() for n, p in rq.items()} if rq else {}
    o.training_step(x.clone(), 0)
    v.ensure("iframe-model-not-trained", torch.equal(w0, o.iframe_model.w.detach()) and o.iframe_model.w.grad is None)
    for n in mp:
        v.ensure("moves-by-each-frame's-own-gradient", bool(torch.allclose(mp[n], rp[n], atol=2e-5)), n)
    if qp:
        ql = torch.autograd.grad(ref.quantile_loss(), list(rq.values()))
        for (n, p), g in zip(qp.items(), ql):
            v.ensure("quantiles-move-by-their-own-loss", bool(torch.allclose(p, q0[n] - lr * g, atol=2e-5)), n)
