"""C28: zoo and hub entry points, flop counting."""
from pyvc.api import contract
from contracts.data import _use

PRELOAD = ["neuralcompression.zoo", "hubconf", "neuralcompression.functional"]
Z = "neuralcompression.zoo."
RATES = {"1": "0.035", "2": "0.07", "3": "0.14", "4": "0.3", "5": "0.45", "6": "0.9", "vlo1": "0.00218", "vlo2": "0.00438"}
BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
ENTRIES = [("msillm", q) for q in RATES] + [("noganms", q) for q in RATES if q[0] != "v"]


class _Model:
    """any model: records what is loaded into it"""

    def __init__(self, *a, **k):
        self.args, self.loaded = (a, k), []

    def load_state_dict(self, d, *a, **k):
        self.loaded.append((d, a, k))


class _hub:
    """torch.hub.load_state_dict_from_url by its contract: the checkpoint published at that address"""

    def __enter__(self):
        import torch
        self.real, self.asked = torch.hub.load_state_dict_from_url, []

        def load(url, *a, **k):
            self.asked.append((url, a, k))
            return "checkpoint of " + url
        torch.hub.load_state_dict_from_url = load
        return self

    def __exit__(self, *a):
        import torch
        torch.hub.load_state_dict_from_url = self.real
        return False


@contract("C28", "quality_levels", funcs=[Z + "_msillm._build_msillm", Z + "_noganms._build_noganms"] +
          [Z + "_%s.%s_quality_%s" % (a, a, q) for a, q in ENTRIES] + ["hubconf.%s_quality_%s" % e for e in ENTRIES], runs=120)
def quality_levels(v):
    """every entry point builds the model and loads exactly its own published weights, or none"""
    import neuralcompression.zoo as zoo
    fam, q = v.choose("entry", ENTRIES)
    via = v.choose("via", ["zoo", "hub", "hub-default", "zoo-default"])
    pre = v.choose("pretrained", [True, False]) if "default" not in via else via == "hub-default"
    with _use(v, "neuralcompression.models.HiFiCAutoencoder", _Model), _hub() as h:
        import hubconf
        m = getattr(hubconf if via.startswith("hub") else zoo, "%s_quality_%s" % (fam, q))
        m = m() if "default" in via else m(pretrained=pre)
    v.ensure("the-library-model-with-its-defaults", isinstance(m, _Model) and m.args == ((), {}))
    url = "%s%s_target_%sbpp.ckpt" % (BASE, fam, RATES[q])
    if pre:
        v.ensure("its-own-weights-are-fetched", [u for u, _, _ in h.asked] == [url], str(h.asked))
        v.ensure("on-the-cpu", h.asked[0][2].get("map_location", h.asked[0][1][1] if len(h.asked[0][1]) > 1 else None) == "cpu")
        v.ensure("and-loaded-strictly", m.loaded == [("checkpoint of " + url, (), {})] or m.loaded == [("checkpoint of " + url, (), {"strict": True})],
                 str(m.loaded))
    else:
        v.ensure("nothing-fetched-or-loaded", h.asked == [] and m.loaded == [])


@contract("C28", "unknown_weights", funcs=[Z + "_msillm._build_msillm", Z + "_noganms._build_noganms", Z + "_msillm_vqvae._build_msillm_vqvae"], runs=20)
def unknown_weights(v):
    import importlib
    fam = v.choose("family", ["msillm", "noganms", "msillm_vqvae"])
    name = v.choose("weights", ["", "target_1bpp", "target_0.14", "0.14bpp", "quality_3"])
    with _use(v, "neuralcompression.models.HiFiCAutoencoder", _Model), _hub() as h:
        f = v.need(Z + "_%s._build_%s" % (fam, fam))
        v.raises("unknown-weights-refused", ValueError, (lambda: f(_Model(), weights=name)) if fam == "msillm_vqvae" else (lambda: f(weights=name)))
        v.ensure("nothing-fetched", h.asked == [])


@contract("C28", "vqvae_entry", funcs=[Z + "_msillm_vqvae.vqvae_xcit_p8_ch64_cb1024_h8", Z + "_msillm_vqvae._build_msillm_vqvae",
                                      "hubconf.msillm_vqvae_xcit_p8_ch64_cb1024_h8"], bounded=True, runs=14)
def vqvae_entry(v):
    """patch 8, 64 channels, 1024 codewords of length 8, as the name says (the real model, run once)"""
    import torch
    import neuralcompression.zoo as zoo
    from neuralcompression.models import VqVaeXCiTAutoencoder
    via = v.choose("via", ["zoo", "hub", "hub-default", "zoo-default"])
    pre = v.choose("pretrained", [True, False]) if "default" not in via else via == "hub-default"
    loaded = []
    real = VqVaeXCiTAutoencoder.load_state_dict
    VqVaeXCiTAutoencoder.load_state_dict = lambda self, d, strict=True, **k: loaded.append((d, strict))
    try:
        with _hub():
            import hubconf
            m = hubconf.msillm_vqvae_xcit_p8_ch64_cb1024_h8 if via.startswith("hub") else zoo.vqvae_xcit_p8_ch64_cb1024_h8
            m = m() if "default" in via else m(pretrained=pre)
    finally:
        VqVaeXCiTAutoencoder.load_state_dict = real
    url = BASE + "vqvae_xcit_p8_ch64_cb1024_h8.ckpt"
    v.ensure("its-own-weights-or-none", loaded == ([("checkpoint of " + url, True)] if pre else []), str(loaded))
    h, w = 8 * v.int("h", 1, 3), 8 * v.int("w", 1, 3)
    with torch.no_grad():
        out = m.eval()(torch.rand(2, 3, h, w))
    v.ensure("image-size", tuple(out.image.shape) == (2, 3, h, w))
    v.ensure("one-index-per-8x8-patch", out.indices.numel() == 2 * (h // 8) * (w // 8), str(out.indices.shape))
    v.ensure("1024-codewords-of-length-8", [tuple(p.shape) for n, p in m.named_parameters() if "codebook" in n] == [(1024, 8)])
    v.ensure("64-channels", m.encoder.conv_in.weight.shape[0] == 64 if hasattr(m.encoder, "conv_in") else True)


@contract("C28", "published_layout", funcs=["neuralcompression.models._hific_autoencoder.HiFiCAutoencoder.__init__", Z + "_msillm_vqvae.vqvae_xcit_p8_ch64_cb1024_h8"],
          bounded=True, runs=2)
def published_layout(v):
    """the names and shapes of the parameters are those of the published checkpoints (finite: both models, every entry)"""
    import json
    import os
    import neuralcompression.zoo as zoo
    from neuralcompression.models import HiFiCAutoencoder
    want = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "layout.json")))
    for which, make in [("hific", HiFiCAutoencoder), ("vqvae", zoo.vqvae_xcit_p8_ch64_cb1024_h8)]:
        got = {k: list(t.shape) for k, t in make().state_dict().items()}
        diff = sorted(k for k in set(got) | set(want[which]) if got.get(k) != want[which].get(k))
        v.ensure("checkpoint-still-fits", not diff, "%s: %s" % (which, diff[:4]))


ONE = ["abs", "add", "div", "mul", "neg", "rsub", "sign", "sub"]
EST = ["erfc", "exp", "log", "log10", "log2", "pow", "reciprocal", "rsqrt", "sigmoid", "softplus", "sqrt", "tanh", "uniform"]
CF = "neuralcompression.functional._count_flops.count_flops"


@contract("C28", "flop_counters", funcs=[CF], runs=60)
def flop_counters(v):
    """the counters the analysis is given: one flop per output element for elementwise operations, estimates only when asked, overrides first"""
    from neuralcompression.functional import count_flops
    est = v.choose("estimates", [False, True])
    names = ["aten::" + n for n in ONE + EST] + ["aten::" + n + "_" for n in ONE + EST] + ["aten::conv2d"]
    over = v.choose("override", [None] + names)
    mine = lambda i, o: 17  # noqa: E731
    total, ops = v.int("total", 0), {"aten::add": v.int("adds", 0)}
    log = []

    class Analysis:
        def __init__(self, module, inputs):
            self.module, self.inputs, self.handles, self._ignored_ops = module, inputs, {}, set()
            log.append(self)

        def set_op_handle(self, *a, **k):
            self.handles.update(k)
            self.handles.update(zip(a[::2], a[1::2]))
            return self

        def total(self):
            return total

        def by_operator(self):
            return dict(ops)

        def unsupported_ops(self):
            return {"aten::foo": 3}
    mod = object()
    with _use(v, "fvcore.nn.FlopCountAnalysis", Analysis):
        given = None if over is None else {over: mine}
        r = count_flops(mod, [1, 2], counter_overrides=given, use_single_flop_estimates=est)
        v.ensure("overrides-left-alone", given is None or given == {over: mine})
        count_flops(mod, [1])
    a, b = log
    v.ensure("module-and-inputs", a.module is mod and a.inputs == (1, 2) and b.inputs == (1,))
    v.ensure("results-as-counted", v.And(r[0] == total, r[1]["aten::add"] == ops["aten::add"], r[2] == {"aten::foo": 3}, len(r[1]) == 1))
    for n in names:
        want = n.rstrip("_").split("::")[1]
        for h, e, o in ((a, est, over), (b, False, None)):
            if n == o:
                v.ensure("override-wins-and-does-not-leak", h.handles.get(n) is mine)
            elif want in ONE or (e and want in EST):
                f = h.handles.get(n)
                v.ensure("counted", f is not None and f is not mine, n)
            else:
                v.ensure("not-counted-unless-asked", n not in h.handles, n)


@contract("C28", "flops_of_traced_modules", funcs=[CF], bounded=True, runs=14)
def traced(v):
    """elementwise operations cost one flop per output element; matrix products and convolutions one per multiply-accumulate"""
    import torch
    from neuralcompression.functional import count_flops
    a, b, c = v.int("a", 1, 6), v.int("b", 1, 6), v.int("c", 1, 6)
    est = v.bool("estimates")
    kind = v.choose("kind", ["elementwise", "estimated", "linear", "conv", "mixed", "inplace"])

    class M(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.lin = torch.nn.Linear(b, c, bias=False)
            self.conv = torch.nn.Conv2d(b, c, 3, padding=1, bias=False)

        def forward(self, x):
            if kind == "elementwise":
                return -(x * 2 - 1).abs() / 3 + x
            if kind == "estimated":
                return x.exp().tanh().sqrt()
            if kind == "linear":
                return self.lin(x)
            if kind == "conv":
                return self.conv(x)
            if kind == "inplace":
                y = x.clone()
                y.mul_(2).add_(x)
                return y
            return self.lin(x.exp()) * 2
    x = torch.rand(a, b, 5, 4) if kind == "conv" else torch.rand(a, b)
    n = a * b
    want = {"elementwise": 6 * n, "estimated": 3 * n if est else 0, "linear": a * b * c, "conv": a * c * 20 * b * 9, "inplace": 2 * n,
            "mixed": (n if est else 0) + a * b * c + a * c}[kind]
    total, ops, unsup = count_flops(M(), [x], use_single_flop_estimates=est)
    v.ensure("total", total == want, "%s != %s (%s)" % (total, want, ops))
    v.ensure("breakdown-adds-up", sum(ops.values()) == total)
    if not est and kind == "estimated":
        v.ensure("uncounted-operations-are-reported", {"aten::exp", "aten::tanh", "aten::sqrt"} <= set(unsup), str(unsup))
