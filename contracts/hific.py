"""C02: HiFiC codec: decompress(compress(image)) is the reconstruction of the quantised latents, at the input's size."""
from pyvc.api import contract

PRELOAD = ["neuralcompression.models", "neuralcompression.functional"]
M = "neuralcompression.models._hific_autoencoder.HiFiCAutoencoder."
ED = "neuralcompression.models._hific_encoder_decoder."
_CACHE = {}
L, HYP = 6, 5


def _model(v, C=3):
    import torch
    from neuralcompression.models import HiFiCAutoencoder
    wide = False if v.sym else v.choose("wide", [False, True])
    if not v.sym and (C, wide) in _CACHE:
        m = _CACHE[C, wide]
    else:
        torch.manual_seed(3)
        m = HiFiCAutoencoder(in_channels=C, latent_features=L, hyper_features=HYP, num_residual_blocks=1)
        m.eval()
        if not v.sym:
            with torch.no_grad():
                # spread latents, means and scales over several integers
                m.encoder.blocks[-1].weight.mul_(30)
                for s in (m.hyper_synthesis_mean, m.hyper_synthesis_scale, m.hyper_analysis):
                    s[-1].weight.mul_(8)
                    s[-1].bias.normal_(0.6, 0.7)
                # a trained hyper prior: medians off the integers, peaked density
                m.hyper_bottleneck.quantiles[:, 0, 1].uniform_(-0.45, 0.45)
                m.hyper_bottleneck._matrix0.add_(1.5)
                if wide:
                    # scales from far below to far above the coder's table range, large means and latents
                    m.hyper_synthesis_scale[-1].weight.mul_(40)
                    m.hyper_synthesis_scale[-1].bias.copy_(torch.tensor([-50.0, 0.05, 5.0, 90.0, 250.0, 600.0])[:L])
                    m.hyper_synthesis_mean[-1].bias.mul_(40)
                    m.encoder.blocks[-1].weight.mul_(20)
            m.update(force=True)
            _CACHE[C, wide] = m
    m.eval()
    return m


class _Code:
    """what an entropy coder hands over: the coded integers plus what is needed to decode them"""

    def __init__(self, payload, size):
        self.payload, self.size = payload, size


def _stub_model(v, m, C):
    """callees replaced by their contracts: size laws, determinism, lossless coding of the rounded residual"""
    import torch
    from torch import nn
    from pyvc.nnops import opaque

    class Net(nn.Module):
        def __init__(s, name, cout, size):
            super().__init__()
            s.nm, s.cout, s.size = name, cout, size

        def forward(s, x):
            v.ensure(s.nm + "-input-size", s.size[1](x.shape[-2], x.shape[-1]))
            return opaque(s.nm, (x,), [x.shape[0], s.cout, s.size[0](x.shape[-2]), s.size[0](x.shape[-1])])
    ok = lambda h, w: v.And(h >= 1, w >= 1)
    div = lambda k: (lambda h, w: v.And(h % k == 0, w % k == 0, h >= 1, w >= 1))

    calls = []

    class Hyper(nn.Module):
        med = 0.25

        def q(s, x):
            return torch.round(x - s.med) + s.med

        def forward(s, x, training=None):
            if s.training if training is None else training:
                z = x + opaque("hypernoise%d" % len(calls), (x,), x.shape, lo=-0.5, hi=0.5)
                calls.append(1)
            else:
                z = s.q(x)
            return z, opaque("hyperlik", (z,), x.shape, lo=1e-9, hi=1)

        def compress(s, x):
            return _Code(torch.round(x - s.med), None)

        def decompress(s, code, size):
            p = code.payload
            v.ensure("hyper-latent-size-agrees", v.And(size[0] == p.shape[-2], size[1] == p.shape[-1]))
            return p + s.med

    class Gauss(nn.Module):
        def forward(s, x, scales, means=None, training=None):
            if s.training if training is None else training:
                q = x + opaque("noise%d" % len(calls), (x,), x.shape, lo=-0.5, hi=0.5)
                calls.append(1)
            else:
                q = torch.round(x - means) + means
            return q, opaque("lik", (q, scales, means), x.shape, lo=1e-9, hi=1)

        def build_indexes(s, scales):
            return opaque("indexes", (scales,), scales.shape, torch.int32, lo=0, hi=63)

        def compress(s, x, indexes, means=None):
            v.ensure("indexes-match-latent", v.And(*[a == b for a, b in zip(x.shape, indexes.shape)]))
            return _Code(torch.round(x - means), indexes)

        def decompress(s, code, indexes, dtype=None, means=None):
            # a range coder decodes only with the tables it encoded with
            v.ensure("decoder-size", v.And(*[a == b for a, b in zip(code.payload.shape, indexes.shape)]))
            v.ensure_elems("decoder-tables-equal-encoder-tables", indexes, lambda *i: v.at(code.size, *i))
            return code.payload + means
    m.encoder = Net("encoder", L, (lambda h: h // 16, div(16)))
    dec = Net("decoder", C, (lambda h: h * 16, ok))
    m.decoder = dec
    m.hyper_analysis = Net("hyper_analysis", HYP, (lambda h: h // 4, div(4)))
    m.hyper_synthesis_mean = Net("hyper_mean", L, (lambda h: h * 4, ok))
    m.hyper_synthesis_scale = Net("hyper_scale", L, (lambda h: h * 4, ok))
    m.hyper_bottleneck = Hyper()
    m.latent_bottleneck = Gauss()
    m.eval()
    return m


def _sizes(v):
    """either any size at all (reflect padding needs H, W >= the factor) """
    return v.int("B", 1, 2) if not v.sym else v.int("B", 1), v.int("H", 64, span=70), v.int("W", 64, span=70)


def _qref(v, m, x):
    """reconstruction from the quantised latents, independent of the entropy coder"""
    import torch
    y = m.encoder(x)
    z = m.hyper_analysis(y)
    if v.sym:
        zh = m.hyper_bottleneck.q(z)
    else:
        med = m.hyper_bottleneck._get_medians().reshape(1, -1, 1, 1)
        zh = torch.round(z - med) + med
    mu = m.hyper_synthesis_mean(zh)
    yh = torch.round(y - mu) + mu
    return yh, zh


def _pad(v, x, H, W):
    """64-divisible reflection extension (contract of pad_image_to_factor, proved in C01)"""
    import torch
    f = 64
    ph, pw = (f - H % f) % f, (f - W % f) % f
    return torch.nn.functional.pad(x, (0, pw, 0, ph), mode="reflect")


@contract("C02", "codec_roundtrip", funcs=[M + "compress", M + "decompress"], runs=5, thorough_runs=40,
          assumes=["compressai EntropyBottleneck/GaussianConditional: decompress(compress(x)) = round(x - means) + means when the decoder is given the encoder's indexes, and nothing otherwise",
                   "encoder/decoder/hyper networks are arbitrary deterministic functions obeying the size laws proved in network_sizes"])
def roundtrip(v):
    import torch
    B, H, W = _sizes(v)
    C = 3
    m = _model(v)
    if v.sym:
        m = _stub_model(v, m, C)
    x = v.tensor("image", (B, C, H, W), 0.0, 1.0, dtype=torch.float32)
    with torch.no_grad():
        out = m.compress(x)
        xp = _pad(v, x, H, W)
        v.ensure("records-original-size", v.And(out.image_size[0] == H, out.image_size[1] == W))
        v.ensure("records-padded-size", v.And(out.padded_size[0] == xp.shape[2], out.padded_size[1] == xp.shape[3]))
        rec = m.decompress(out)
        v.ensure_shape("reconstruction-size", rec, [B, C, H, W])
        v.forall_elems("reconstruction-in-[0,1]", rec, lambda e, *i: v.And(e >= 0, e <= 1))
        yh, zh = _qref(v, m, xp)
        full = m.decoder(yh)
    v.ensure_elems("reconstructs-quantised-latents", rec, lambda b, c, i, j: v.min(v.max(v.at(full, b, c, i, j), 0.0), 1.0), tol=2e-3)


@contract("C02", "eval_forward_agrees_with_codec", funcs=[M + "forward", M + "_ste_quantize"], runs=6, thorough_runs=30)
def fwd(v):
    import torch
    B, a, b = v.int("B", 1, 2), v.int("a", 1, span=1), v.int("b", 1, span=1)
    m = _model(v)
    if v.sym:
        m = _stub_model(v, m, 3)
    H, W = 64 * a, 64 * b
    x = v.tensor("image", (B, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    train = v.bool("train")
    with torch.no_grad():
        if train:
            m.train()
        o = m(x)
        m.eval()
        v.ensure_shape("image-size", o.image, [B, 3, H, W])
        if not train:
            yh, zh = _qref(v, m, x)
            full = m.decoder(yh)
            v.ensure_elems("image-is-decoded-quantised-latent", o.image, lambda *i: v.at(full, *i), tol=2e-3)
            v.ensure_elems("hyper-latent-quantised", o.hyper_latent, lambda *i: v.at(zh, *i), tol=1e-4)
            lat = o.latent
        else:
            # straight-through training path: value is the mean-shifted rounding for the hyper latent actually used
            mu = m.hyper_synthesis_mean(o.hyper_latent)
            y = m.encoder(x)
            yh = torch.round(y - mu) + mu
        # the reported probabilities are those of the symbols that would be coded
        zq = o.hyper_latent
        sc, mu = m.hyper_synthesis_scale(zq), m.hyper_synthesis_mean(zq)
        ql = m.latent_bottleneck(m.encoder(x), sc, means=mu, training=False)[1]
        qz = m.hyper_bottleneck(zq, training=False)[1]
        v.ensure_elems("quantised-latent-likelihood", o.quantized_latent_likelihoods, lambda *i: v.at(ql, *i), tol=1e-4)
        v.ensure_elems("quantised-hyper-likelihood", o.quantized_hyper_latent_likelihoods, lambda *i: v.at(qz, *i), tol=1e-5)
        if not train:
            v.ensure_elems("latent-likelihood", o.latent_likelihoods, lambda *i: v.at(ql, *i), tol=1e-4)
            v.ensure_elems("hyper-likelihood", o.hyper_latent_likelihoods, lambda *i: v.at(qz, *i), tol=1e-5)
        v.ensure_elems("latent-is-mean-shifted-rounding", o.latent, lambda *i: v.at(yh, *i), tol=1e-3)
    for nm, l, sh in (("latent", o.latent_likelihoods, [B, L, 4 * a, 4 * b]), ("qlatent", o.quantized_latent_likelihoods, [B, L, 4 * a, 4 * b]),
                      ("hyper", o.hyper_latent_likelihoods, [B, HYP, a, b]), ("qhyper", o.quantized_hyper_latent_likelihoods, [B, HYP, a, b])):
        v.ensure_shape(nm + "-likelihood-shape", l, sh)
        v.forall_elems(nm + "-likelihood-range", l, lambda e, *i: v.And(e > 0, e <= 1 + 1e-6))


@contract("C02", "network_sizes", funcs=[ED + "HiFiCEncoder.forward", ED + "HiFiCGenerator.forward", M + "__init__"], runs=3, thorough_runs=10)
def sizes(v):
    """size laws the codec relies on, from the real layers"""
    import torch
    m = _model(v)
    B, a, b = v.int("B", 1, span=1), v.int("a", 1, span=2), v.int("b", 1, span=2)
    with torch.no_grad():
        y = m.encoder(v.tensor("x", (B, 3, 16 * a, 16 * b), 0, 1, dtype=torch.float32))
        v.ensure_shape("encoder-downsamples-16", y, [B, L, a, b])
        r = m.decoder(v.tensor("y", (B, L, a, b), dtype=torch.float32))
        v.ensure_shape("decoder-upsamples-16", r, [B, 3, 16 * a, 16 * b])
        z = m.hyper_analysis(v.tensor("y4", (B, L, 4 * a, 4 * b), dtype=torch.float32))
        v.ensure_shape("hyper-analysis-downsamples-4", z, [B, HYP, a, b])
        for nm in ("hyper_synthesis_mean", "hyper_synthesis_scale"):
            v.ensure_shape(nm + "-upsamples-4", getattr(m, nm)(v.tensor(nm, (B, HYP, a, b), dtype=torch.float32)), [B, L, 4 * a, 4 * b])
    v.ensure("factor", m.factor == 64)


@contract("C02", "rejects_misuse", funcs=[M + "forward", M + "update_tensor_devices"], runs=2, thorough_runs=2)
def misuse(v):
    m = _model(v)
    v.raises("unknown-target", ValueError, lambda: m.update_tensor_devices("something"))
    setting = m.device_setting
    m._device_setting = "compress"
    try:
        import torch
        v.raises("forward-needs-forward-devices", RuntimeError, lambda: m(torch.zeros(1, 3, 64, 64)))
    finally:
        m._device_setting = setting
