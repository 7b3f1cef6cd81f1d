"""C25: the ILLM training, validation and test steps (projects/illm).  lightning, hydra and omegaconf are absent and replaced by empty
shells; optimizers, networks and losses are arbitrary (uninterpreted functions in the proofs, recorded calls)."""
import sys
import types

from pyvc.api import contract
from contracts.losses import _illm

PRELOAD = ["neuralcompression.models", "neuralcompression.functional", "neuralcompression.loss_fn"]
T = "target_compression_module.TargetRateCompressionModule."
G = "gan_compression_module.GANCompressionModule."
I = "image_module.ImageModule."


def _net(v, name, args, shape, lo, hi, f):
    """an arbitrary network: uninterpreted in the proof, a fixed formula in concrete runs"""
    import torch
    if v.sym:
        from pyvc.nnops import opaque
        return opaque(name, args, shape, torch.float64, lo=lo, hi=hi)
    return f(*args)


class _Bottleneck:
    def __init__(self, v):
        self.v = v

    def loss(self):
        import torch
        return _net(self.v, "quantile_loss", (), [], 0, 5, lambda: torch.tensor(0.625, dtype=torch.float64))


class _Model:
    def __init__(self, v, log):
        self.v, self.log, self.hyper_bottleneck, self.calls = v, log, _Bottleneck(v), []

    def __call__(self, x):
        from neuralcompression import HyperpriorOutput
        v = self.v
        self.calls.append(x)
        B, C, H, W = x.shape
        n = lambda nm, lo, hi, a, b: _net(v, nm, (x,), [B, 2, H, W], lo, hi, lambda t: (t[:, :2] * a + b).clamp(lo, hi))
        im = _net(v, "reconstruction", (x,), [B, C, H, W], None, None, lambda t: t * 1.4 - 0.2)
        return HyperpriorOutput(image=im, latent=n("latent", -9, 9, 7.0, -3.0), latent_likelihoods=n("lik", 0.01, 1, 0.5, 0.3),
                                quantized_latent_likelihoods=n("qlik", 0.01, 1, 0.4, 0.2), hyper_latent=n("hyper", -9, 9, 2.0, 0.0),
                                hyper_latent_likelihoods=n("hlik", 0.01, 1, 0.3, 0.5), quantized_hyper_latent_likelihoods=n("qhlik", 0.01, 1, 0.2, 0.1))


class _Opt:
    def __init__(self, log, name):
        import torch
        self.log, self.name = log, name
        self.param_groups = [{"params": [torch.nn.Parameter(torch.zeros(1)) for _ in range(2)]}]

    def zero_grad(self, *a, **k):
        self.log.append(("zero_grad", self.name))

    def step(self, *a, **k):
        self.log.append(("step", self.name))

    def on(self):
        return [p.requires_grad for g in self.param_groups for p in g["params"]]


class _Sched:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def step(self, *a, **k):
        self.log.append(("sched", self.name))


def _module(v, cls, clip, aux=True):
    """the real module object on recorded optimizers and arbitrary networks (its constructor needs downloaded weights)"""
    import torch
    from neuralcompression.loss_fn import TargetRateConfig
    m = _illm()
    c = m.TargetRateCompressionModule if cls == "target" else sys.modules["gan_compression_module"].GANCompressionModule
    o = c.__new__(c)
    torch.nn.Module.__init__(o)
    log, d = [], o.__dict__
    d["trainer"] = types.SimpleNamespace(global_step=15)
    d["target_rate_config"] = TargetRateConfig(0.75, [1.5, 1.0], [10], (0.25, 4.0), [2.0, 1.0], [20])
    d["model"] = _Model(v, log)
    d["distortion_lam"] = v.real("distortion_lam", 0, 5)
    d["distortion_loss"] = lambda a, b: _net(v, "distortion", (a, b), [], 0, 9, lambda p, q: ((p - q) ** 2 * (1 + q)).mean())
    d["gradient_clip_val"] = clip
    d["gradient_clip_algorithm"] = "norm"
    d["clip_gradients"] = lambda opt, gradient_clip_val=None, gradient_clip_algorithm=None: log.append(("clip", opt.name, gradient_clip_val, gradient_clip_algorithm))
    names = (["model"] + ["disc"] * (cls == "gan") + ["quantile"] * aux)
    opts, scheds = {n: _Opt(log, n) for n in names}, {n: _Sched(log, n) for n in names}
    d["optimizers"] = lambda *a, **k: [opts[n] for n in names]
    d["lr_schedulers"] = lambda *a, **k: [scheds[n] for n in names]
    d["manual_backward"] = lambda loss: log.append(("backward", loss, {n: p.on() for n, p in opts.items()}))
    d["logged"], d["quality"] = {}, []
    d["log_dict"] = lambda x, **k: d["logged"].update(x)
    d["log"] = lambda k, x, **kw: d["logged"].update({k: x})
    d["log_quality_metrics"] = lambda output, input_images, prefix, dataset_name=None: d["quality"].append((output, input_images, prefix, dataset_name))
    if cls == "gan":
        cond = v.choose("conditional", [True, False])

        class D(torch.nn.Module):
            is_conditional = cond
            calls = []

            def forward(s, image, context=None):
                if (context is None) == cond:
                    raise TypeError("a %sconditional discriminator called %s context" % ("" if cond else "un", "without" if context is None else "with"))
                s.calls.append((image, context))
                B, _, H, W = image.shape
                a = (image,) if context is None else (image, context)
                return _net(v, "logits", a, [B, 1, H, W], -9, 9, lambda im, cx=None: im[:, :1] * 3 - 1 + (0 if cx is None else cx[:, :1] * 0.7))
        d["discriminator"] = D()
        D.calls = []
        d["generator_loss"] = lambda logits, target: _net(v, "generator_loss", (logits, target), [], -9, 9, lambda lg, t: (lg * (t + 0.5)).mean())
        d["discriminator_loss"] = lambda real_logits, fake_logits, target: _net(
            v, "discriminator_loss", (real_logits, fake_logits, target), [], -9, 9, lambda r, f, t: (2 * r * (t + 1)).mean() - 3 * f.mean())
        d["generator_weight"] = v.real("generator_weight", 0, 3)
        d["mc_sampling"] = v.choose("mc_sampling", [True, False])
        proj = v.choose("projector", [True, False])
        d["latent_projector"] = None if not proj else (lambda x: _net(v, "projector", (x,), [x.shape[0], 1, x.shape[2], x.shape[3]], 0, 9, lambda t: t[:, 2:] * 4))
    return o, log, opts


def _sizes(v, b=1):
    B, H, W = v.int("B", b, span=3), v.int("H", 1, span=4), v.int("W", 1, span=4)
    import torch
    return v.tensor("images", (B, 3, H, W), 0, 1, dtype=torch.float64)


def _scalar(v, x):
    return v.at(x) if hasattr(x, "shape") else x


def _rate(o, out, images):
    return o.rate_loss(original=images, latent_likelihoods=out.latent_likelihoods, quantized_latent_likelihoods=out.quantized_latent_likelihoods,
                       hyper_latent_likelihoods=out.hyper_latent_likelihoods, quantized_hyper_latent_likelihoods=out.quantized_hyper_latent_likelihoods)


def _one_update(v, log, name, loss, clip):
    """this optimizer: gradients cleared, then this loss's backward pass, then (clipping and) exactly one step; schedule stepped once"""
    z = [i for i, e in enumerate(log) if e[:2] == ("zero_grad", name)]
    s = [i for i, e in enumerate(log) if e[:2] == ("step", name)]
    sc = [i for i, e in enumerate(log) if e[:2] == ("sched", name)]
    v.ensure(name + "-one-step", len(s) == 1 and len(z) >= 1 and len(sc) == 1)
    z = [i for i in z if i < s[0]]
    v.ensure(name + "-gradients-cleared-before", len(z) >= 1)
    bw = [i for i, e in enumerate(log) if e[0] == "backward" and z[-1] < i < s[0]]
    v.ensure(name + "-one-backward-pass", len(bw) == 1)
    v.ensure(name + "-schedule-after-step", sc[0] > s[0])
    v.ensure_close(name + "-loss", v.at(log[bw[0]][1]), loss, tol=1e-6)
    cl = [e for i, e in enumerate(log) if e[0] == "clip" and e[1] == name and bw[0] < i < s[0]]
    ncl = sum(e[0] == "clip" and e[1] == name for e in log)
    if clip is None:
        v.ensure(name + "-not-clipped", ncl == 0)
    else:
        v.ensure(name + "-clipped-once-before-the-step", len(cl) == 1 and ncl == 1 and cl[0][2:] == (clip, "norm"))
    return log[bw[0]]


def _common_logs(v, L, p, noisy, r, D, q=None):
    for k, x in (("distortion_loss", D), ("rate_loss", v.at(r.rate_loss)), (noisy + "total_bpp", v.at(r.total_bpp)), ("quantized_total_bpp", v.at(r.quantized_total_bpp)),
                 (noisy + "hyper_bpp", v.at(r.hyper_bpp)), ("quantized_hyper_bpp", v.at(r.quantized_hyper_bpp)), (noisy + "latent_bpp", v.at(r.latent_bpp)),
                 ("quantized_latent_bpp", v.at(r.quantized_latent_bpp)), ("target", r.target), ("lam2", r.lam2)):
        v.ensure("logs-" + k, p + "/" + k in L)
        v.ensure_close("logged-" + k, _scalar(v, L[p + "/" + k]), x, tol=1e-6)


def _quality(v, o, n, prefix, image, images, dataset=None):
    import torch
    v.ensure("quality-reported-once", len(o.quality) == n)
    out, x, p, ds = o.quality[-1]
    im = out if isinstance(out, torch.Tensor) else out.image
    v.ensure("quality-prefix", p == prefix and ds == dataset)
    v.ensure_elems("quality-of-the-reconstruction", im, lambda *i: v.at(image, *i))
    v.ensure_elems("quality-against-the-input", x, lambda *i: v.at(images, *i))


@contract("C25", "target_training_step", funcs=[T + "training_step"], runs=25, budget=200)
def target_train(v):
    clip = v.choose("clip", [None, 0.5])
    o, log, opts = _module(v, "target", clip)
    x = _sizes(v)
    o.training_step(x, 0)
    v.ensure("model-run-once", len(o.model.calls) == 1)
    out = o.model(x)
    D, r = v.at(o.distortion_loss(out.image, x)), _rate(o, out, x)
    loss = o.distortion_lam * D + v.at(r.rate_loss)
    _one_update(v, log, "model", loss, clip)
    Q = v.at(o.model.hyper_bottleneck.loss())
    _one_update(v, log, "quantile", Q, None)
    _common_logs(v, o.logged, "train", "noisy_", r, D)
    v.ensure_close("logged-total", _scalar(v, o.logged["train/total_loss"]), loss)
    v.ensure_close("logged-quantile", _scalar(v, o.logged["train/quantile_loss"]), Q)
    _quality(v, o, 1, "train", out.image, x)


@contract("C25", "target_validation_step", funcs=[T + "validation_step", T + "eval_step"], runs=20, budget=200)
def target_eval(v):
    o, log, opts = _module(v, "target", None)
    x = _sizes(v)
    o.validation_step(x, 0)
    out = o.model(x)
    D, r = v.at(o.distortion_loss(out.image, x)), _rate(o, out, x)
    v.ensure("nothing-trained", log == [])
    _common_logs(v, o.logged, "val", "", r, D)
    v.ensure_close("logged-total", _scalar(v, o.logged["val/total_loss"]), o.distortion_lam * D + v.at(r.rate_loss))
    _quality(v, o, 1, "val", out.image, x)


@contract("C25", "gan_training_step", funcs=[G + "training_step", G + "run_discriminator", G + "enable_gradients", G + "disable_gradients", G + "_resample_batch"], runs=60, budget=240)
def gan_train(v):
    import torch
    clip = v.choose("clip", [None, 0.5])
    aux = v.choose("quantile_optimizer", [True, False])
    o, log, opts = _module(v, "gan", clip, aux)
    x = _sizes(v, 2)
    o.training_step(x, 0)
    calls = list(o.discriminator.calls)
    n = x.shape[0] // 2
    mi, di = (x[:n], x[n:2 * n]) if o.mc_sampling else (x, x)
    out, dout = o.model(mi), o.model(di)
    proj = (lambda t: torch.tensor(1)) if o.latent_projector is None else o.latent_projector
    Dsc = (lambda im, cx: o.discriminator(im, cx)) if o.discriminator.is_conditional else (lambda im, cx: o.discriminator(im))
    D, r = v.at(o.distortion_loss(out.image, mi)), _rate(o, out, mi)
    fake = Dsc(out.image, out.latent)
    gl = v.at(o.generator_loss(fake, proj(mi)))
    loss = o.distortion_lam * D + v.at(r.rate_loss) + o.generator_weight * gl
    e = _one_update(v, log, "model", loss, clip)
    v.ensure("discriminator-frozen-in-the-generator-step", not any(e[2]["disc"]))
    v.ensure("model-trainable-in-the-generator-step", all(e[2]["model"]))
    dl = v.at(o.discriminator_loss(real_logits=Dsc(di, dout.latent), fake_logits=fake, target=proj(di)))
    e = _one_update(v, log, "disc", dl, clip)
    v.ensure("discriminator-trainable-in-its-step", all(e[2]["disc"]))
    v.ensure("model-not-trained-in-the-discriminator-step", not any(e[2]["model"]))
    if aux:
        Q = v.at(o.model.hyper_bottleneck.loss())
        _one_update(v, log, "quantile", Q, None)
        v.ensure_close("logged-quantile", _scalar(v, o.logged["train/quantile_loss"]), Q)
    else:
        v.ensure("no-quantile-loss", _scalar(v, o.logged["train/quantile_loss"]) == 0.0)
    _common_logs(v, o.logged, "train", "noisy_", r, D)
    v.ensure_close("logged-total", _scalar(v, o.logged["train/total_model_loss"]), loss)
    v.ensure_close("logged-generator", _scalar(v, o.logged["train/generator_loss"]), gl)
    v.ensure_close("logged-discriminator", _scalar(v, o.logged["train/discriminator_loss"]), dl)
    _quality(v, o, 1, "train", out.image, mi)


@contract("C25", "gan_validation_step", funcs=[G + "validation_step", G + "eval_step"], runs=30, budget=200)
def gan_eval(v):
    import torch
    o, log, opts = _module(v, "gan", None)
    x = _sizes(v)
    o.validation_step(x, 0)
    out = o.model(x)
    Dsc = (lambda im, cx: o.discriminator(im, cx)) if o.discriminator.is_conditional else (lambda im, cx: o.discriminator(im))
    proj = (lambda t: torch.tensor(1)) if o.latent_projector is None else o.latent_projector
    D, r = v.at(o.distortion_loss(out.image, x)), _rate(o, out, x)
    gl = v.at(o.generator_loss(Dsc(out.image, out.latent), proj(x)))
    v.ensure("nothing-trained", log == [])
    _common_logs(v, o.logged, "val", "", r, D)
    v.ensure_close("logged-generator", _scalar(v, o.logged["val/generator_loss"]), gl)
    v.ensure_close("logged-total", _scalar(v, o.logged["val/total_model_loss"]), o.distortion_lam * D + v.at(r.rate_loss) + o.generator_weight * gl)
    _quality(v, o, 1, "val", out.image, x)


@contract("C25", "test_step", funcs=[T + "test_step"], runs=25, budget=120)
def test_step(v):
    import torch
    m = _illm()
    o, log, opts = _module(v, "target", None)
    x = _sizes(v)
    order = []
    nb = v.int("bytes", 1, span=5000)

    class M:
        def update_tensor_devices(s, k):
            order.append(k)

        def compress(s, im, force_cpu=True):
            order.append("c")
            return types.SimpleNamespace(of=im) if v.sym else {"of": im}

        def decompress(s, c, force_cpu=True):
            im = c.of if v.sym else c["of"]
            return _net(v, "decoded", (im,), list(im.shape), 0, 1, lambda t: t * 0.9)
    o.__dict__["model"] = M()
    o.__dict__["test_dataset_name"] = None
    v.raises("needs-a-data-set-name", ValueError, lambda: o.test_step(x, 0))
    o.__dict__["test_dataset_name"] = "kodak"
    labelled = v.choose("labelled", [True, False])
    sized = []
    from unittest import mock
    with mock.patch.object(m, "pickle_size_of", lambda c: (sized.append(c), nb)[1]):
        ret = o.test_step((x, "label") if labelled else x, 0)
    v.ensure("on-the-compression-devices", order[:1] == ["compress"] and order.count("c") == 1)
    v.ensure("size-of-the-compressed-data", len(sized) == 1)
    dec = M().decompress(M().compress(x))
    D = v.at(o.distortion_loss(dec, x))
    B, _, H, W = x.shape
    v.ensure_close("bits-per-pixel-of-the-batch", _scalar(v, o.logged["test/kodak_bpp"]), 8 * v.to_real(nb) / v.to_real(B * H * W))
    v.ensure_close("distortion-of-the-decoded-image", _scalar(v, o.logged["test/kodak_test_distortion"]), D)
    v.ensure_close("returned", _scalar(v, ret), D)
    _quality(v, o, 1, "test", dec, x, "kodak")


class _Metric:
    """records what it is given; calling it returns an arbitrary value of its arguments"""

    def __init__(self, v, name):
        self.v, self.name, self.got, self.resets = v, name, [], 0

    def __call__(self, *a):
        import torch
        self.got.append(a)
        return _net(self.v, self.name, a, [], 0, 9, lambda p, q: ((p - q) ** 2).mean() + 0.25)

    def update(self, *a, **k):
        self.got.append((a, k))

    def reset(self):
        self.resets += 1

    def compute(self):
        return (self.name, "value")


NAMES = ["train_psnr", "train_mse", "train_msssim", "eval_psnr", "eval_mse", "eval_msssim", "eval_lpips", "eval_fid",
         "test_mse", "test_msssim", "test_lpips", "test_dists", "test_fid", "test_fid_swav", "test_kid"]


def _image_module(v):
    import torch
    import logging
    _illm()
    im = sys.modules["image_module"]
    o = im.ImageModule.__new__(im.ImageModule)
    torch.nn.Module.__init__(o)
    d = o.__dict__
    for n in NAMES:
        d[n] = _Metric(v, n)
    d.update(test_metrics_set=True, hific_mse_param=0.075 * 2**-5, hific_lpips_param=1.0, test_dataset_name=None, patch_size=256,
             custom_print_logger=logging.getLogger("x"), logged={})
    d["log_dict"] = lambda x, **k: d["logged"].update(x)
    d["log"] = lambda k, x, **kw: d["logged"].update({k: x})
    return o, im


@contract("C25", "quality_metrics", funcs=[I + "log_quality_metrics", I + "_update_test_fid_kid"], runs=40, budget=240)
def quality(v):
    import torch
    from unittest import mock
    from neuralcompression import HyperpriorOutput
    o, im = _image_module(v)
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4)
    x = v.tensor("images", (B, 3, H, W), 0, 1, dtype=torch.float64)
    y = v.tensor("reconstruction", (B, 3, H, W), -0.5, 1.5, dtype=torch.float64)
    prefix = v.choose("prefix", ["train", "val", "test"])
    ds = v.choose("dataset", ["kodak", "clic2020", "div2k_x"]) if prefix == "test" else None
    wrap = v.choose("wrapped", [True, False])
    out = HyperpriorOutput(y, None, None, None, None, None, None) if wrap else y
    patches = []
    P = (lambda *i: v.min(v.max(v.at(y, *i), 0.0), 1.0))
    R = lambda f: (lambda *i: v.round(f(*i) * 255.0))
    X = lambda *i: v.at(x, *i)
    with mock.patch.object(im.ncm, "update_patch_fid", lambda **k: patches.append(k)), \
            mock.patch.object(im.ncm, "calc_psnr", lambda a, b, **k: _Metric(v, "psnr")(a, b)):
        o.log_quality_metrics(out, x, prefix, dataset_name=ds)
        if prefix == "test":
            v.raises("test-needs-a-data-set-name", ValueError, lambda: o.log_quality_metrics(out, x, prefix))
        v.raises("unknown-phase-refused", ValueError, lambda: o.log_quality_metrics(out, x, "other"))
    p = {"train": "train", "val": "eval", "test": "test"}[prefix]
    used = {n for n in NAMES if getattr(o, n).got}
    v.ensure("only-this-phase's-metrics", all(n.startswith(p + "_") for n in used))

    def pair(name, fa, fb, flat=False):
        g = getattr(o, name).got
        v.ensure(name + "-once", len(g) == 1)
        a, b = g[0]
        if flat:
            n = lambda t: t.reshape(B, 3, H, W)
            a, b = n(a), n(b)
        v.ensure_shape(name + "-shape", a, [B, 3, H, W])
        v.ensure_elems(name + "-prediction", a, fa)
        v.ensure_elems(name + "-target", b, fb)
    pair(p + "_msssim", R(P), R(X))
    pair(p + "_mse", R(P), R(X), True)
    if p != "test":
        pair(p + "_psnr", R(P), R(X))
    if p != "train":
        pair(p + "_lpips", P, X)
        if p == "test":
            pair("test_dists", P, X)
        fids = ["eval_fid"] if p == "eval" else ["test_fid", "test_fid_swav", "test_kid"]
        if ds in ("clic2020", "div2k_x"):
            v.ensure("patch-based-once", len(patches) == 1 and all(not getattr(o, n).got for n in fids))
            k = patches[0]
            v.ensure("all-three-metrics", k["fid_metric"] is o.test_fid and k["fid_swav_metric"] is o.test_fid_swav and k["kid_metric"] is o.test_kid and k["patch_size"] == 256)
            v.ensure_elems("patches-of-the-input", k["input_images"], X)
            v.ensure_elems("patches-of-the-prediction", k["pred"], P)
        else:
            v.ensure("whole-images", not patches)
            for n in fids:
                g = getattr(o, n).got
                v.ensure(n + "-both-sides", len(g) == 2 and sorted(k["real"] for _, k in g) == [False, True])
                for a, k in g:
                    v.ensure(n + "-8-bit", a[0].dtype == torch.uint8)
                    v.ensure_elems(n + ("-real" if k["real"] else "-fake"), a[0], R(X) if k["real"] else R(P))
        mse = v.at(getattr(o, p + "_mse")(*getattr(o, p + "_mse").got[0]))
        lp = v.at(getattr(o, p + "_lpips")(*getattr(o, p + "_lpips").got[0]))
        key = "val/hific_distortion" if p == "eval" else "test/%s_hific_distortion" % ds
        v.ensure_close("hific-distortion", _scalar(v, o.logged[key]), 0.075 * 2**-5 * mse + lp)
    pre = prefix + "/" + (ds + "_" if ds else "")
    for short, n in [("mse", "mse"), ("ms_ssim", "msssim")] + [("lpips", "lpips")] * (p != "train") + [("dists", "dists")] * (p == "test") + [("psnr", "psnr")] * (p != "test"):
        v.ensure("logs-" + short, o.logged.get(pre + short) is getattr(o, p + "_" + n))


@contract("C25", "metric_lifecycle", funcs=[I + "reset_all_metrics", I + "on_validation_epoch_start", I + "on_test_epoch_start", I + "on_validation_epoch_end", I + "on_test_epoch_end", I + "update_test_dataset_name"], runs=20)
def lifecycle(v):
    o, im = _image_module(v)
    which = v.choose("event", ["reset", "val-start", "test-start"])
    o.__dict__["test_metrics_set"] = v.choose("test-metrics", [True, False])
    {"reset": o.reset_all_metrics, "val-start": o.on_validation_epoch_start, "test-start": o.on_test_epoch_start}[which]()
    for n in NAMES:
        if o.test_metrics_set or not n.startswith("test_"):
            v.ensure("resets-" + n, getattr(o, n).resets >= 1)
    k = o.eval_fid.resets
    o.on_validation_epoch_end()
    v.ensure("validation-fid-reported-then-reset", o.logged.get("val/fid") == ("eval_fid", "value") and o.eval_fid.resets == k + 1)
    ds = v.choose("dataset", ["kodak", "clic2020"])
    o.__dict__["test_dataset_name"] = ds
    o.on_test_epoch_end()
    for n, val in (("fid", ("test_fid", "value")), ("fid_swav", ("test_fid_swav", "value")), ("kid", "test_kid")):
        v.ensure("test-" + n, o.logged["test/%s_%s" % (ds, n)] == (0.0 if ds == "kodak" else val))
    calls = []
    o.__dict__["set_test_metrics"] = lambda: calls.append(1)
    o.__dict__["test_metrics_set"] = False
    o.update_test_dataset_name("a")
    o.update_test_dataset_name("b")
    v.ensure("test-metrics-created-once", len(calls) == 1 and o.test_dataset_name == "b" and o.test_metrics_set is True)


@contract("C25", "gan_step_updates_parameters", funcs=[G + "training_step", T + "training_step"], bounded=True, runs=25, thorough_runs=150,
          notes="real autograd and SGD on small networks: each parameter moves by the gradient of its own loss only, for several consecutive steps")
def updates(v):
    import copy
    import torch
    from torch import nn
    from neuralcompression import HyperpriorOutput
    m = _illm()
    from neuralcompression.loss_fn import TargetRateConfig
    gan = v.choose("gan", [True, False])
    torch.manual_seed(v.rng.randrange(10**6))

    class Hyper(nn.Module):
        def __init__(s):
            super().__init__()
            s.quantiles = nn.Parameter(torch.randn(3, dtype=torch.float64))

        def loss(s):
            return (s.quantiles ** 2).sum()

    class Model(nn.Module):
        def __init__(s):
            super().__init__()
            s.enc, s.dec, s.prior = nn.Conv2d(3, 2, 1).double(), nn.Conv2d(2, 3, 1).double(), nn.Conv2d(2, 2, 1).double()
            s.hyper_bottleneck = Hyper()

        def forward(s, x):
            z = s.enc(x)
            p = torch.sigmoid(s.prior(z)).clamp(1e-3, 1)
            return HyperpriorOutput(s.dec(z), z, p, p.detach(), z, p ** 0.5, p.detach() ** 0.5)

    class Disc(nn.Module):
        is_conditional = v.choose("conditional", [True, False])

        def __init__(s):
            super().__init__()
            s.c = nn.Conv2d(5 if s.is_conditional else 3, 1, 1).double()

        def forward(s, *a):
            if len(a) != 1 + s.is_conditional:
                raise TypeError("discriminator arguments")
            return s.c(torch.cat(a, 1))
    cls = sys.modules["gan_compression_module"].GANCompressionModule if gan else m.TargetRateCompressionModule
    o = cls.__new__(cls)
    nn.Module.__init__(o)
    o.model, lr = Model(), 0.05
    d = o.__dict__
    bce = nn.functional.binary_cross_entropy_with_logits
    d.update(trainer=types.SimpleNamespace(global_step=0), target_rate_config=TargetRateConfig(0.5, [1.0], [], (0.25, 4.0), [1.0], []), distortion_lam=2.0,
             distortion_loss=lambda a, b: ((a - b) ** 2).mean(), gradient_clip_val=None, gradient_clip_algorithm="norm",
             manual_backward=lambda l: l.backward(), log_dict=lambda *a, **k: None, log=lambda *a, **k: None, log_quality_metrics=lambda *a, **k: None)
    mp = lambda mod: [p for n, p in mod.named_parameters() if not n.endswith("quantiles")]
    opts = [torch.optim.SGD(mp(o.model), lr), torch.optim.SGD([o.model.hyper_bottleneck.quantiles], lr)]
    if gan:
        o.discriminator = Disc()
        opts.insert(1, torch.optim.SGD(o.discriminator.parameters(), lr))
        d.update(latent_projector=None, generator_weight=0.7, mc_sampling=v.choose("mc_sampling", [True, False]),
                 generator_loss=lambda lg, t: bce(lg, torch.ones_like(lg)),
                 discriminator_loss=lambda real_logits, fake_logits, target: bce(real_logits, torch.ones_like(real_logits)) + bce(fake_logits, torch.zeros_like(fake_logits)))
    sch = [torch.optim.lr_scheduler.LambdaLR(x, lambda s: 1.0) for x in opts]
    d.update(optimizers=lambda *a, **k: opts, lr_schedulers=lambda *a, **k: sch)
    for step in range(3):
        x = torch.rand(v.rng.choice([2, 3, 4]), 3, 4, 4, dtype=torch.float64)
        ref = copy.deepcopy(o.model)
        for p in ref.parameters():
            p.requires_grad_(True)
            p.grad = None
        refd = copy.deepcopy(o.discriminator) if gan else None
        o.training_step(x, step)
        n = x.shape[0] // 2
        mi, di = (x[:n], x[n:2 * n]) if gan and o.mc_sampling else (x, x)
        out = ref(mi)
        loss = 2.0 * ((out.image - mi) ** 2).mean() + _rate(o, out, mi).rate_loss
        if gan:
            D = (lambda i, c: refd(i, c)) if refd.is_conditional else (lambda i, c: refd(i))
            loss = loss + 0.7 * bce(D(out.image, out.latent.detach()), torch.ones(mi.shape[0], 1, 4, 4, dtype=torch.float64))
        gs = torch.autograd.grad(loss, mp(ref))
        for p, q, g in zip(mp(o.model), mp(ref), gs):
            v.ensure("model-moves-by-its-own-loss", bool(torch.allclose(p, q - lr * g, atol=1e-9)))
        q0 = ref.hyper_bottleneck.quantiles
        v.ensure("quantiles-move-by-the-quantile-loss", bool(torch.allclose(o.model.hyper_bottleneck.quantiles, q0 - lr * 2 * q0, atol=1e-9)))
        if gan:
            for p in refd.parameters():
                p.requires_grad_(True)
            with torch.no_grad():
                dl = o.model(di).latent if o.mc_sampling else out.latent.detach()
            l = o.discriminator_loss(real_logits=D(di, dl), fake_logits=D(out.image.detach(), out.latent.detach()), target=None)
            for p, q, g in zip(o.discriminator.parameters(), refd.parameters(), torch.autograd.grad(l, list(refd.parameters()))):
                v.ensure("discriminator-moves-by-its-own-loss", bool(torch.allclose(p, q - lr * g, atol=1e-9)))


@contract("C25", "parameter_groups", funcs=["neuralcompression.models._hyperprior_autoencoder._HyperpriorAutoencoderBase.collect_parameters", T + "configure_optimizers", G + "configure_optimizers",
                                            "neuralcompression.models._hific_autoencoder.HiFiCAutoencoder.freeze_encoder", "neuralcompression.models._hific_autoencoder.HiFiCAutoencoder.freeze_bottleneck",
                                            "neuralcompression.models._hific_autoencoder.HiFiCAutoencoder.train"], bounded=True, runs=16, thorough_runs=16,
          notes="all combinations of frozen parts of a small HiFiC model: every trainable parameter is in exactly one optimizer, frozen ones in none, and freezing survives train()")
def groups(v):
    import torch
    from torch import nn
    m = _illm()
    from neuralcompression.models import HiFiCAutoencoder
    fe, fb, gan = v.choose("freeze_encoder", [False, True]), v.choose("freeze_bottleneck", [False, True]), v.choose("gan", [True, False])
    model = HiFiCAutoencoder(latent_features=4, hyper_features=4, num_residual_blocks=1, freeze_encoder=fe, freeze_bottleneck=fb)
    frozen = ([model.encoder] if fe else []) + ([model.hyper_bottleneck, model.hyper_synthesis_mean, model.hyper_synthesis_scale, model.hyper_analysis, model.latent_bottleneck] if fb else [])
    fids = {id(p) for f in frozen for p in f.parameters()}
    for mode in v.choose("modes", [[True], [False, True], [True, False, True]]):
        model.train(mode)
    v.ensure("train-mode", model.training and model.decoder.training)
    v.ensure("frozen-parts-stay-in-evaluation", all(not f.training for f in frozen))
    v.ensure("frozen-exactly", all(p.requires_grad == (id(p) not in fids) for p in model.parameters()))
    a, q = model.collect_parameters()
    ia, iq = [id(p) for p in a], [id(p) for p in q]
    v.ensure("each-once", len(set(ia + iq)) == len(ia + iq))
    v.ensure("all-trainable", set(ia + iq) == {id(p) for p in model.parameters()} - fids)
    v.ensure("quantiles-apart", set(iq) == {id(p) for n, p in model.named_parameters() if n.endswith(".quantiles")} - fids)
    if fb and not gan:
        return  # the aux optimizer of the plain module needs quantiles
    cls = sys.modules["gan_compression_module"].GANCompressionModule if gan else m.TargetRateCompressionModule
    o = cls.__new__(cls)
    nn.Module.__init__(o)
    o.model = model
    o.discriminator = nn.Conv2d(3, 1, 1)
    o.__dict__["optimizer_config"] = types.SimpleNamespace(model_opt="model", aux_opt="aux", discriminator_opt="disc", model_opt_schedule="s-model", aux_opt_schedule="s-aux",
                                                           discriminator_opt_schedule="s-disc")

    def inst(cfg, params=None, optimizer=None):
        return (cfg, [id(p) for p in params]) if params is not None else (cfg, optimizer)
    for mod in (m, sys.modules["gan_compression_module"]):
        mod.hydra.utils = types.SimpleNamespace(instantiate=inst)
    os_, ss = o.configure_optimizers()
    want = [("model", ia)] + ([("disc", [id(p) for p in o.discriminator.parameters()])] if gan else []) + ([("aux", iq)] if iq else [])
    v.ensure("optimizers", [(n, sorted(p)) for n, p in os_] == [(n, sorted(p)) for n, p in want])
    v.ensure("schedules", [(n, x[0]) for n, x in ss] == [("s-" + n, n) for n, _ in want])


@contract("C25", "discriminator_sizes", funcs=["neuralcompression.models._unet_discriminator.UnetDiscriminator.forward", "neuralcompression.models._unet_discriminator.ConditionalUnetDiscriminator.forward",
                                               "neuralcompression.models._unet_discriminator._UnetLevel.forward"], runs=16, budget=200,
          notes="three levels; downsampling factors 1, 2, 4, 8; any image size divisible by 8; any context size")
def disc_sizes(v):
    import torch
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
    f, cond = v.choose("factor", [1, 2, 4, 8]), v.choose("conditional", [True, False])
    B, h, w = v.int("B", 1, span=1), v.int("h", 1, span=2), v.int("w", 1, span=2)
    x = v.tensor("x", (B, 3, 8 * h, 8 * w), 0, 1, dtype=torch.float32)
    with torch.no_grad():
        if cond:
            d = ConditionalUnetDiscriminator(5, f, context_in=2, context_out=2, chans=[5, 4, 6, 8]).eval()
            y = d(x, v.tensor("context", (B, 2, v.int("ch", 2, span=3), v.int("cw", 2, span=3)), dtype=torch.float32))
        else:
            d = UnetDiscriminator(5, f, chans=[3, 4, 6, 8]).eval()
            y = d(x)
    v.ensure("declares-whether-conditional", d.is_conditional is cond)
    v.ensure_shape("one-map-per-factor-sized-cell", y, [B, 5, 8 * h // f, 8 * w // f])
    v.raises("power-of-two-only", ValueError, lambda: UnetDiscriminator(5, 3, chans=[3, 4, 6, 8]))
    v.raises("no-more-than-the-network-downsamples", ValueError, lambda: UnetDiscriminator(5, 16, chans=[3, 4, 6, 8]))
