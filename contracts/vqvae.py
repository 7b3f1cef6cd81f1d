"""C26: the VQ-VAE autoencoder with cross-covariance attention, and the projector built from it."""
from pyvc.api import contract

PRELOAD = ["neuralcompression.models", "neuralcompression.layers"]
V = "neuralcompression.models._vqvae_xcit_autoencoder."
P = "neuralcompression.models._vqvae_projector.VqVaeProjector."
X = "neuralcompression.layers._xca.XCA."


def _net(v, name, args, shape, f):
    """an arbitrary network: uninterpreted in the proof, a fixed formula in concrete runs"""
    import torch
    if v.sym:
        from pyvc.nnops import opaque
        return opaque(name, args, shape, torch.float32)
    return f(*args)


def _set(v, m, name, t):
    """give a parameter an arbitrary value"""
    import torch
    if v.sym:
        m._parameters.pop(name, None)
        object.__setattr__(m, name, t)
    else:
        with torch.no_grad():
            getattr(m, name).copy_(t)


@contract("C26", "cross_covariance_attention", funcs=[X + "forward", X + "__init__"], runs=60, budget=200)
def xca(v):
    import torch
    from neuralcompression.layers import XCA
    C, heads = v.choose("dims", [(2, 1), (2, 2), (4, 2), (3, 1)])
    bias = v.choose("qkv_bias", [True, False])
    B, N = v.int("B", 1, span=2), v.int("N", 1, span=5)
    m = XCA(C, num_heads=heads, qkv_bias=bias, attn_drop=0.3, proj_drop=0.2)
    m.eval()
    if not v.sym:
        m = m.double()
    D = C // heads
    x = v.tensor("x", (B, N, C), -3, 3, dtype=torch.float64)
    Wq = v.tensor("Wqkv", (3 * C, C), -2, 2, dtype=torch.float64)
    _set(v, m.qkv, "weight", Wq)
    bq = None
    if bias:
        bq = v.tensor("bqkv", (3 * C,), -2, 2, dtype=torch.float64)
        _set(v, m.qkv, "bias", bq)
    Wp, bp = v.tensor("Wproj", (C, C), -2, 2, dtype=torch.float64), v.tensor("bproj", (C,), -2, 2, dtype=torch.float64)
    _set(v, m.proj, "weight", Wp)
    _set(v, m.proj, "bias", bp)
    t = v.tensor("temperature", (heads, 1, 1), 0.1, 4, dtype=torch.float64)
    v.ensure_shape("one-temperature-per-head", m.temperature, [heads, 1, 1])
    _set(v, m, "temperature", t)
    with torch.no_grad():
        y = m(x)
        v.ensure_shape("shape", y, [B, N, C])

        def chan(part, h, d):
            """channel d of head h of the queries (0), keys (1) or values (2), over all tokens"""
            r = part * C + h * D + d
            s = sum(x[:, :, c] * Wq[r, c] for c in range(C))
            return s + bq[r] if bias else s
        outs = []
        for h in range(heads):
            q, k, w = ([chan(p, h, d) for d in range(D)] for p in range(3))
            unit = lambda u: u / torch.clamp_min(torch.sqrt((u * u).sum(dim=1, keepdim=True)), 1e-12)
            q, k = [unit(u) for u in q], [unit(u) for u in k]
            for i in range(D):
                a = [torch.exp((q[i] * k[j]).sum(dim=1, keepdim=True) * t[h, 0, 0]) for j in range(D)]
                S = sum(a)
                outs.append(sum(a[j] / S * w[j] for j in range(D)))
        full = torch.stack([sum(outs[c] * Wp[r, c] for c in range(C)) + bp[r] for r in range(C)], dim=-1)
    v.ensure_elems("attention-over-channels", y, lambda b, n, c: v.at(full, b, n, c), tol=1e-6)


@contract("C26", "attention_dropout_only_in_training", funcs=[X + "forward"], runs=10, bounded=True)
def xca_drop(v):
    import torch
    from neuralcompression.layers import XCA
    m = XCA(4, num_heads=2, attn_drop=0.5, proj_drop=0.5)
    x = v.tensor("x", (2, v.int("N", 2, span=6), 4))
    x = x.float()
    m.eval()
    with torch.no_grad():
        v.ensure("deterministic-in-evaluation", torch.equal(m(x), m(x)))
        v.ensure("images-independent", torch.allclose(m(x)[1:], m(x[1:]), atol=1e-5))
        p = torch.randperm(x.shape[1])
        v.ensure("token-order-does-not-matter", torch.allclose(m(x[:, p]), m(x)[:, p], atol=1e-5))


@contract("C26", "attention_block", funcs=[V + "_AttnBlock.forward"], runs=15, budget=100)
def attn_block(v):
    import torch
    from neuralcompression.models import _vqvae_xcit_autoencoder as mod
    C = 16
    blk = mod._AttnBlock(C, norm_type=v.choose("norm", ["group", "channel"])).eval()
    B, H, W = v.int("B", 1, span=1), v.int("H", 1, span=3), v.int("W", 1, span=3)
    x = v.tensor("x", (B, C, H, W), -2, 2, dtype=torch.float32)

    class A(torch.nn.Module):
        def forward(s, t):
            v.ensure_shape("tokens-are-pixels", t, [B, H * W, C])
            s.got = t
            return _net(v, "attention", (t,), [B, H * W, C], lambda u: u * 1.5 + u.mean(1, keepdim=True))

    class Nm(torch.nn.Module):
        def forward(s, t):
            return _net(v, "norm", (t,), [B, C, H, W], lambda u: u * 0.5 + 0.1)
    blk.xca, blk.norm = A(), Nm()
    with torch.no_grad():
        y = blk(x)
        n = blk.norm(x)
        v.ensure_elems("tokens-in-raster-order", blk.xca.got.reshape(B, H, W, C), lambda b, i, j, c: v.at(n, b, c, i, j))
        a = blk.xca(n.permute(0, 2, 3, 1).reshape(B, H * W, C)).reshape(B, H, W, C)
    v.ensure_shape("shape", y, [B, C, H, W])
    v.ensure_elems("residual-attention", y, lambda b, c, i, j: v.at(x, b, c, i, j) + v.at(a, b, i, j, c), tol=1e-4)


@contract("C26", "residual_block", funcs=[V + "_ResnetBlock.forward", V + "_nonlinearity"], runs=20, budget=100)
def resblock(v):
    import torch
    from neuralcompression.models import _vqvae_xcit_autoencoder as mod
    ci, co = v.choose("channels", [(16, 16), (16, 32), (32, 16)])
    short = v.choose("conv_shortcut", [True, False])
    blk = mod._ResnetBlock(ci, co, conv_shortcut=short, dropout=0.4, norm_type="group").eval()
    B, H, W = v.int("B", 1, span=1), v.int("H", 1, span=3), v.int("W", 2, span=3)  # group norm refuses a single value per group
    x = v.tensor("x", (B, ci, H, W), -2, 2, dtype=torch.float32)
    with torch.no_grad():
        y = blk(x)
        sw = lambda t: t * torch.sigmoid(t)
        h = blk.conv2(sw(blk.norm2(blk.conv1(sw(blk.norm1(x))))))
        r = x if ci == co else (blk.conv_shortcut if short else blk.nin_shortcut)(x)
    v.ensure_shape("shape", y, [B, co, H, W])
    v.ensure_elems("residual", y, lambda *i: v.at(r, *i) + v.at(h, *i), tol=1e-4)


def _tiny(mod, levels, attn, norm, conv, **k):
    return mod.VqVaeXCiTAutoencoder(ch=16, ch_mult=[1, 2, 1, 1][:levels], num_res_blocks=1, attn_resolutions=attn, resamp_with_conv=conv, resolution=32, embed_dim=5,
                                    norm_type=norm, **k)


@contract("C26", "network_sizes", funcs=[V + "_VqVaeXCiTConvEncoder.forward", V + "_VqvaeXCiTConvDecoder.forward", V + "_Downsample.forward", V + "_Upsample.forward",
                                         V + "_VqVaeXCiTConvEncoder.__init__", V + "_VqvaeXCiTConvDecoder.__init__"], runs=12, thorough_runs=40, budget=200)
def sizes(v):
    import torch
    from neuralcompression.models import _vqvae_xcit_autoencoder as mod
    levels = v.choose("levels", [1, 2, 3, 4])
    norm = v.choose("norm", ["group", "channel", "channel_last"])
    conv = v.choose("resample_with_conv", [True, False])
    m = _tiny(mod, levels, v.choose("attention", [[16], [32, 8], []]), norm, conv).eval()
    f = 2 ** (levels - 1)
    v.ensure("factor", m.factor == f)
    B, a, b = v.int("B", 1, span=1), v.int("a", 1, span=2), v.int("b", 2, span=2)
    with torch.no_grad():
        z = m.encoder(v.tensor("x", (B, 3, f * a, f * b), 0, 1, dtype=torch.float32))
        v.ensure_shape("encoder-downsamples-by-the-factor", z, [B, 5, a, b])
        r = m.decoder(v.tensor("z", (B, 5, a, b), dtype=torch.float32))
        v.ensure_shape("decoder-upsamples-by-the-factor", r, [B, 3, f * a, f * b])


def _parts(v, m, f, seen):
    """encoder, bottleneck and decoder replaced by arbitrary functions with the proved size laws"""
    import torch

    class E(torch.nn.Module):
        def __init__(s):
            super().__init__()
            s.w = torch.nn.Parameter(torch.ones(1))
            s.drop = torch.nn.Dropout(0.5)

        def forward(s, x):
            B, _, H, W = x.shape
            seen.append(("enc", x, s.training or s.drop.training, s.w.requires_grad))
            return _net(v, "encode", (x,), [B, 5, H // f, W // f], lambda t: torch.nn.functional.avg_pool2d(t.mean(1, keepdim=True), f).repeat(1, 5, 1, 1))

    class Q(torch.nn.Module):
        def __init__(s):
            super().__init__()
            s.w = torch.nn.Parameter(torch.ones(1))

        def forward(s, out):
            seen.append(("op", out.latent, s.training, s.w.requires_grad))
            z = out.latent
            out.latent = _net(v, "bottleneck", (z,), list(z.shape), lambda t: torch.round(t * 4) / 4)
            out.num_bytes = 77
            out.indices = _net(v, "indices", (z,), [z.shape[0] * z.shape[2] * z.shape[3]], lambda t: t[:, 0].reshape(-1))
            return out

    class Dd(torch.nn.Module):
        def forward(s, z):
            B, _, h, w = z.shape
            seen.append(("dec", z))
            return _net(v, "decode", (z,), [B, 3, h * f, w * f], lambda t: torch.nn.functional.interpolate(t[:, :3], scale_factor=f) * 1.1 + torch.arange(w * f) * 0.01)
    return E(), Q(), Dd()


@contract("C26", "autoencoder_forward", funcs=[V + "VqVaeXCiTAutoencoder.forward", V + "VqVaeXCiTAutoencoder._run_encoder", V + "VqVaeXCiTAutoencoder.__init__"], runs=80, budget=240)
def forward(v):
    import torch
    from neuralcompression.models import _vqvae_xcit_autoencoder as mod
    levels = v.choose("levels", [1, 3, 4])
    f = 2 ** (levels - 1)
    fe, fb, op = v.choose("freeze_encoder", [True, False]), v.choose("freeze_bottleneck", [True, False]), v.choose("bottleneck", [True, False])
    seen = []
    E, Q, D = _parts(v, None, f, seen)
    m = _tiny(mod, levels, [16], "group", True, freeze_encoder=fe, freeze_bottleneck=fb, bottleneck_op=Q if op else None)
    v.ensure("frozen-from-the-start", (not fe or not any(p.requires_grad for p in m.encoder.parameters())) and (not (fb and op) or not Q.w.requires_grad))
    m.encoder, m.decoder = E, D
    train = v.choose("training", [True, False])
    m.train(train)
    B, H, W = v.int("B", 1, span=1), v.int("H", 1, span=20), v.int("W", 1, span=20)
    if train:
        v.require(v.And(H % f == 0, W % f == 0))
    # reflection needs less padding than pixels
    v.require(v.And((-H) % f < H, (-W) % f < W))
    x = v.tensor("image", (B, 3, H, W), 0, 1, dtype=torch.float32)
    for call in range(2):
        del seen[:]
        m.train(train)
        with torch.no_grad():
            out = m(x)
        v.ensure("each-part-once", [e[0] for e in seen] == (["enc", "op", "dec"] if op else ["enc", "dec"]))
        enc = seen[0]
        v.ensure("frozen-encoder-runs-frozen", not fe or not (enc[2] or enc[3]))
        v.ensure("other-encoder-keeps-its-mode", fe or (enc[2] == train and enc[3]))
        if op:
            v.ensure("frozen-bottleneck-runs-frozen", not fb or not (seen[1][2] or seen[1][3]))
            v.ensure("other-bottleneck-keeps-its-mode", fb or (seen[1][2] == train and seen[1][3]))
    Hp, Wp = -(-H // f) * f, -(-W // f) * f
    v.ensure_shape("padded-to-the-factor", enc[1], [B, 3, Hp, Wp])
    refl = lambda i, n: v.If(i < n, i, 2 * (n - 1) - i)
    v.ensure_elems("padding-reflects", enc[1], lambda b, c, i, j: v.at(x, b, c, refl(i, H), refl(j, W)))
    v.ensure_shape("output-has-the-input's-size", out.image, [B, 3, H, W])
    with torch.no_grad():
        from neuralcompression import VqVaeAutoencoderOutput
        z = E(enc[1])
        if op:
            z = Q(VqVaeAutoencoderOutput(latent=z)).latent
        full = D(z)
    v.ensure_elems("image-is-the-cropped-decoding", out.image, lambda *i: v.at(full, *i), tol=1e-5)
    v.ensure_elems("latent-is-what-was-decoded", out.latent, lambda *i: v.at(z, *i), tol=1e-5)
    if op:
        v.ensure("bottleneck-report-kept", out.num_bytes == 77 and out.indices is not None)


@contract("C26", "projector", funcs=[P + "forward", P + "train", P + "__init__"], runs=30, budget=100)
def projector(v):
    import torch
    from neuralcompression.models import _vqvae_xcit_autoencoder as mod, VqVaeProjector
    seen = []
    f = 4
    E, Q, D = _parts(v, None, f, seen)
    m = _tiny(mod, 3, [16], "group", True, bottleneck_op=Q)
    m.encoder = E
    m.train()
    p = VqVaeProjector(m)
    v.ensure("frozen", not any(q.requires_grad for q in p.parameters()))
    v.ensure("train-keeps-evaluation-mode", p.train() is p and not p.training and not any(q.training for q in p.modules()))
    v.ensure("eval-keeps-evaluation-mode", p.eval() is p and not any(q.training for q in p.modules()))
    B, a, b = v.int("B", 1, span=1), v.int("a", 1, span=3), v.int("b", 1, span=3)
    x = v.tensor("image", (B, 3, f * a, f * b), 0, 1, dtype=torch.float32)
    with torch.no_grad():
        if v.choose("train_called", [True, False]):
            p.train(True)
        y = p(x)
        v.ensure("run-frozen", [(e[0],) + tuple(e[2:]) for e in seen] == [("enc", False, False), ("op", False, False)])
        v.ensure_elems("encodes-the-image", seen[0][1], lambda *i: v.at(x, *i))
        from neuralcompression import VqVaeAutoencoderOutput
        w = Q(VqVaeAutoencoderOutput(latent=E(x))).indices
    v.ensure_shape("one-label-per-position", y, [B * a * b])
    v.ensure_elems("labels-of-the-bottleneck", y, lambda i: v.at(w, i))
    m2 = _tiny(mod, 3, [16], "group", True)
    v.raises("needs-a-bottleneck", AssertionError, lambda: VqVaeProjector(m2))


@contract("C26", "real_networks", funcs=[V + "VqVaeXCiTAutoencoder.forward", P + "forward"], bounded=True, runs=8, thorough_runs=60)
def real(v):
    """the real layers together: size kept, labels and byte count of the padded latent, one image at a time or in a batch"""
    import torch
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
    from neuralcompression.models import VqVaeXCiTAutoencoder, VqVaeProjector
    op = ProjectLatent(input_dim=6, output_dim=3, child=NormalizeLatent(child=VQBottleneck(codebook_size=16, vector_length=3)))
    m = VqVaeXCiTAutoencoder(ch=16, ch_mult=[1, 1, 2], num_res_blocks=1, attn_resolutions=[8], resolution=32, embed_dim=6, norm_type=v.choose("norm", ["group", "channel"]),
                             bottleneck_op=op, dropout=0.5, freeze_encoder=v.choose("freeze", [True, False])).eval()
    B, H, W = v.int("B", 1, span=1), v.int("H", 4, span=14), v.int("W", 4, span=14)
    x = v.tensor("image", (B, 3, H, W), 0, 1).float()
    with torch.no_grad():
        o = m(x)
        h, w = -(-H // 4), -(-W // 4)
        v.ensure("size", tuple(o.image.shape) == (B, 3, H, W) and tuple(o.latent.shape) == (B, 6, h, w))
        v.ensure("bytes", o.num_bytes == B * h * w * 4 // 8)
        one = torch.cat([m(x[k:k + 1]).image for k in range(B)])
        v.ensure("images-independent", torch.allclose(one, o.image, atol=1e-3))
        if H % 4 == 0 and W % 4 == 0:
            p = VqVaeProjector(m)
            p.train()
            v.ensure("labels", torch.equal(p(x), o.indices) and int(p(x).max()) < 16)
