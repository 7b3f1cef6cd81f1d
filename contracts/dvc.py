"""C03 deep video compression codec, C15 dense image warp."""
from pyvc.api import contract

PRELOAD = ["neuralcompression.models.deep_video_compression", "neuralcompression.functional"]
M = "neuralcompression.models.deep_video_compression."
CC = 4
_CACHE = {}


def _model(v):
    import torch
    from neuralcompression.models.deep_video_compression import DVC, DVCPyramidFlowEstimator
    if not v.sym and "m" in _CACHE:
        return _CACHE["m"]
    torch.manual_seed(5)
    m = DVC(coder_channels=CC, motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3, levels=3))
    if not v.sym:
        with torch.no_grad():
            for e in (m.motion_encoder, m.residual_encoder):
                e.layers[-1].weight.mul_(40)
                e.layers[-1].bias.normal_(0.5, 2)
            m.motion_decoder.layers[-1].weight.mul_(15)
            for lv in m.motion_estimator.model_levels:
                lv[-1].bias.normal_(0, 0.05)
        m.eval()
        m.update(force=True)
        _CACHE["m"] = m
    m.eval()
    return m


class _Code:
    def __init__(self, payload):
        self.payload = payload


def _stub(v, m):
    import torch
    from torch import nn
    from pyvc.nnops import opaque

    class Flow(nn.Module):
        def forward(s, a, b):
            return opaque("flow_estimator", (a, b), [a.shape[0], 2, a.shape[2], a.shape[3]])

    def half(n):
        return (n + 1) // 2

    class Enc(nn.Module):
        def __init__(s, nm):
            super().__init__()
            s.nm = nm

        def forward(s, x):
            sizes, h, w = [], x.shape[2], x.shape[3]
            c = x.shape[1]
            for i in range(4):
                sizes.append((x.shape[0], c, h, w))
                h, w, c = half(h), half(w), CC
            return opaque(s.nm, (x,), [x.shape[0], CC, h, w]), sizes

    class Dec(nn.Module):
        def __init__(s, nm, cout):
            super().__init__()
            s.nm, s.cout = nm, cout

        def forward(s, y, sizes=None):
            v.ensure(s.nm + "-gets-level-sizes", sizes is not None and len(sizes) == 4)
            v.ensure(s.nm + "-latent-matches-last-level", v.And(y.shape[2] == half(sizes[-1][-2]), y.shape[3] == half(sizes[-1][-1])))
            return opaque(s.nm, (y,), [y.shape[0], s.cout, sizes[0][-2], sizes[0][-1]])

    class Bottleneck(nn.Module):
        def __init__(s, nm, med):
            super().__init__()
            s.nm, s.med = nm, med

        def forward(s, x, training=None):
            return torch.round(x - s.med) + s.med, opaque(s.nm + "lik", (x,), x.shape, lo=1e-9, hi=1)

        def compress(s, x):
            return _Code(torch.round(x - s.med))

        def decompress(s, code, size):
            p = code.payload
            v.ensure(s.nm + "-decode-size-equals-encoded-size", v.And(size[0] == p.shape[-2], size[1] == p.shape[-1]))
            return p + s.med

    class Comp(nn.Module):
        def forward(s, a, b, f):
            return opaque("motion_compensation", (a, b, f), a.shape)
    m.motion_estimator = Flow()
    m.motion_encoder, m.motion_decoder = Enc("motion_encoder"), Dec("motion_decoder", 2)
    m.residual_encoder, m.residual_decoder = Enc("residual_encoder"), Dec("residual_decoder", 3)
    m.motion_entropy_bottleneck, m.residual_entropy_bottleneck = Bottleneck("motion", 0.25), Bottleneck("residual", -0.25)
    m.motion_compensation = Comp()
    return m


def _q(v, bn, y):
    import torch
    med = bn.med if v.sym else bn._get_medians().reshape(1, -1, 1, 1)
    return torch.round(y - med) + med


def _ref(v, m, x1, x2):
    """what both ends must agree on"""
    import torch
    from neuralcompression.functional import dense_image_warp
    lat, s = m.motion_encoder(m.motion_estimator(x1, x2))
    flow = m.motion_decoder(_q(v, m.motion_entropy_bottleneck, lat), s)
    est = m.motion_compensation(x1, dense_image_warp(x1, flow.permute(0, 2, 3, 1)), flow)
    rl, s2 = m.residual_encoder(x2 - est)
    res = m.residual_decoder(_q(v, m.residual_entropy_bottleneck, rl), s2)
    return flow, est, res


def _frames(v):
    import torch
    B, H, W = v.int("B", 1, span=1), v.int("H", 8, span=45), v.int("W", 8, span=45)
    x1 = v.tensor("image1", (B, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    x2 = v.tensor("image2", (B, 3, H, W), 0.0, 1.0, dtype=torch.float32)
    return B, H, W, x1, x2


@contract("C03", "codec_roundtrip", funcs=[M + "DVC.compress", M + "DVC.decompress", "neuralcompression.functional.dense_image_warp"], runs=25, thorough_runs=300,
          assumes=["compressai EntropyBottleneck: decompress(compress(x), size) = round(x - median) + median exactly when size is the encoded spatial size",
                   "sub-networks are arbitrary deterministic functions obeying the size laws proved in network_sizes"])
def roundtrip(v):
    import torch
    B, H, W, x1, x2 = _frames(v)
    m = _model(v)
    if v.sym:
        m = _stub(v, m)
    m.train(v.choose("training", [False, True]))
    with torch.no_grad():
        c = m.compress(x1, x2)
        out = m.decompress(x1, c)
        v.ensure_shape("frame-size", out, [B, 3, H, W])
        v.forall_elems("frame-in-[0,1]", out, lambda e, *i: v.And(e >= 0, e <= 1))
        flow, est, res = _ref(v, m, x1, x2)
    v.ensure_elems("decodes-motion-compensation-plus-residual", out,
                   lambda *i: v.min(v.max(v.at(est, *i) + v.at(res, *i), 0.0), 1.0), tol=2e-3)


@contract("C03", "training_forward", funcs=[M + "DVC.forward"], runs=15, thorough_runs=150)
def fwd(v):
    import torch
    B, H, W, x1, x2 = _frames(v)
    m = _model(v)
    if v.sym:
        m = _stub(v, m)
    with torch.no_grad():
        o = m(x1, x2)
        flow, est, res = _ref(v, m, x1, x2)
    v.ensure_shape("estimate-size", o.image2_est, [B, 3, H, W])
    v.ensure_shape("flow-size", o.flow, [B, 2, H, W])
    v.ensure_elems("flow-is-decoded-flow", o.flow, lambda *i: v.at(flow, *i), tol=2e-3)
    v.ensure_elems("residual-is-decoded-residual", o.residual, lambda *i: v.at(res, *i), tol=2e-3)
    v.ensure_elems("estimate-is-compensation-plus-residual", o.image2_est, lambda *i: v.at(est, *i) + v.at(res, *i), tol=2e-3)
    up = lambda n: (n + 15) // 16
    for nm, p in (("flow", o.flow_probabilities), ("residual", o.resid_probabilities)):
        v.ensure_shape(nm + "-probabilities-one-per-latent", p, [B, CC, up(H), up(W)])
        v.forall_elems(nm + "-probabilities-valid", p, lambda e, *i: v.And(e > 0, e <= 1 + 1e-6))


@contract("C03", "coder_sizes", funcs=[M + "DVCCompressionEncoder.forward", M + "DVCCompressionDecoder.forward"], runs=30, thorough_runs=200)
def coder(v):
    """encoder halves (rounding up) per level and logs the sizes; the decoder retraces them exactly, for every image size"""
    import torch
    from neuralcompression.models.deep_video_compression import DVCCompressionDecoder, DVCCompressionEncoder
    k = v.choose("kernel", [3, 5])
    gdn = v.choose("gdn", [True, False])
    nl = v.choose("layers", [4, 2])
    torch.manual_seed(1)
    B, H, W = v.int("B", 1, span=1), v.int("H", 1, span=40), v.int("W", 1, span=40)
    e = DVCCompressionEncoder(3, CC, CC, kernel_size=k, num_conv_layers=nl, use_gdn=gdn).eval()
    d = DVCCompressionDecoder(CC, 3, CC, kernel_size=k, num_conv_layers=nl, use_gdn=gdn).eval()
    x = v.tensor("x", (B, 3, H, W), -1, 1, dtype=torch.float32)
    with torch.no_grad():
        y, sizes = e(x)
        h, w = H, W
        v.ensure("one-size-per-level", len(sizes) == nl)
        for i in range(nl):
            v.ensure("level-size", v.And(sizes[i][-2] == h, sizes[i][-1] == w))
            h, w = (h + 1) // 2, (w + 1) // 2
        v.ensure_shape("latent-size", y, [B, CC, h, w])
        before = len(sizes)
        r = d(y, sizes)
        v.ensure_shape("decoder-restores-size", r, [B, 3, H, W])
        v.ensure("size-list-not-consumed", len(sizes) == before)
    v.raises("wrong-number-of-sizes", ValueError, lambda: d(y, sizes[:-1]))


@contract("C03", "network_sizes", funcs=[M + "DVCPyramidFlowEstimator.calculate_flow_with_image_pairs", M + "DVCMotionCompensationModel.forward",
                                          M + "_MotionCompensationLayer.forward"], runs=12, thorough_runs=100)
def sizes(v):
    import torch
    m = _model(v)
    B, H, W, x1, x2 = _frames(v)
    with torch.no_grad():
        f, pairs = m.motion_estimator.calculate_flow_with_image_pairs(x1, x2)
        v.ensure_shape("flow-size", f, [B, 2, H, W])
        v.ensure("one-pair-per-level", len(pairs) == 3)
        h, w = H, W
        for a, b in reversed(pairs):
            v.ensure_shape("warped-level-size", a, [B, 3, h, w])
            v.ensure_shape("target-level-size", b, [B, 3, h, w])
            h, w = h // 2, w // 2
        t = pairs[-1][1]
        v.ensure_elems("finest-target-is-image2", t, lambda *i: v.at(x2, *i))
        t2 = pairs[-2][1]
        v.ensure_elems("coarser-target-is-2x2-mean", t2, lambda b, c, i, j: 0.25 * (
            v.at(x2, b, c, 2 * i, 2 * j) + v.at(x2, b, c, 2 * i + 1, 2 * j) + v.at(x2, b, c, 2 * i, 2 * j + 1) + v.at(x2, b, c, 2 * i + 1, 2 * j + 1)))
        o = m.motion_compensation(x1, x2, f)
        v.ensure_shape("compensation-size", o, [B, 3, H, W])
    if not v.sym:
        from neuralcompression.functional import dense_image_warp
        w1 = dense_image_warp(x1, f.permute(0, 2, 3, 1))
        v.ensure("finest-pair-is-image1-warped-by-the-returned-flow", float((pairs[-1][0] - w1).abs().max()) < 1e-5)
    v.raises("shape-mismatch", ValueError, lambda: m.motion_estimator.calculate_flow_with_image_pairs(x1, x2[:, :, :-1]))
    x3 = v.tensor("image3", (B + 1, 3, H, W), 0, 1, dtype=torch.float32)
    v.raises("batch-mismatch", ValueError, lambda: m.motion_estimator.calculate_flow_with_image_pairs(x3, x2))


# ------------------------------------------------------------------ C15
@contract("C15", "warp_samples_displaced_grid", funcs=["neuralcompression.functional.dense_image_warp",
                                                       "neuralcompression.functional._dense_image_warp._create_dense_warp_base_grid"], runs=60)
def warp(v):
    import torch
    from neuralcompression.functional import dense_image_warp
    B, C, H, W = v.int("B", 1, span=2), v.int("C", 1, span=3), v.int("H", 1, span=8), v.int("W", 1, span=8)
    h, w = v.int("h", 2, span=7), v.int("w", 2, span=7)
    mode = v.choose("mode", ["bilinear", "nearest", "bicubic"])
    pm = v.choose("padding_mode", ["border", "zeros", "reflection"])
    al = v.choose("align", [False, True])
    dt = torch.float64
    x = v.tensor("x", (B, C, H, W), dtype=dt)
    f = v.tensor("flow", (B, h, w, 2), -1.5, 1.5, dtype=dt, wide=(-9, 9))
    out = dense_image_warp(x, f, mode, pm, al)
    v.ensure_shape("one-sample-per-flow-vector", out, [B, C, h, w])

    def g(b, i, j, c):
        return v.at(f, b, i, j, c) + v.If(v._c(c) == 0 if v.sym else c == 0, lambda: -1 + 2 * v.to_real(j) / v.to_real(w - 1), lambda: -1 + 2 * v.to_real(i) / v.to_real(h - 1))
    grid = v.build((B, h, w, 2), g)
    if mode == "nearest" and not v.sym:
        # ties between two pixels are decided by rounding noise; keep clear of them
        def clear(n, c):
            p = (grid[..., c] + 1) / 2 * (n - 1) if al else ((grid[..., c] + 1) * n - 1) / 2
            return ((p - p.floor() - 0.5).abs() > 1e-6).all()
        v.require(bool(clear(W, 0)) and bool(clear(H, 1)))
    ref = torch.nn.functional.grid_sample(x, grid, mode=mode, padding_mode=pm, align_corners=al)
    v.ensure_elems("samples-at-grid-plus-flow", out, lambda *i: v.at(ref, *i), tol=1e-6)


@contract("C15", "zero_flow_identity_aligned", funcs=["neuralcompression.functional.dense_image_warp"], runs=40, bounded=True,
          notes="needs the arithmetic inside grid_sample, which the deductive run keeps uninterpreted; bounded: 40 seeded images")
def ident(v):
    import torch
    from neuralcompression.functional import dense_image_warp
    B, C, H, W = v.int("B", 1, 3), v.int("C", 1, 3), v.int("H", 2, 12), v.int("W", 2, 12)
    x = v.tensor("x", (B, C, H, W))
    out = dense_image_warp(x, torch.zeros(B, H, W, 2, dtype=x.dtype), align_corners=True)
    v.ensure_elems("identity", out, lambda *i: v.at(x, *i), tol=1e-9)
    # moving by whole pixels: out[i, j] = x[i + dy, j + dx] inside the frame
    dy, dx = v.int("dy", 0, H - 1), v.int("dx", 0, W - 1)
    fl = torch.zeros(B, H, W, 2, dtype=x.dtype)
    fl[..., 0] = 2.0 * dx / (W - 1)
    fl[..., 1] = 2.0 * dy / (H - 1)
    out = dense_image_warp(x, fl, align_corners=True)
    v.ensure_elems("whole-pixel-motion", out, lambda b, c, i, j: v.at(x, b, c, min(i + dy, H - 1), min(j + dx, W - 1)), tol=1e-6)


@contract("C15", "rejects_bad_inputs", funcs=["neuralcompression.functional.dense_image_warp"], runs=5)
def bad(v):
    import torch
    from neuralcompression.functional import dense_image_warp
    B, H, W = v.int("B", 1, span=2), v.int("H", 2, span=4), v.int("W", 2, span=4)
    x = v.tensor("x", (B, 3, H, W))
    v.raises("three-component-flow", ValueError, lambda: dense_image_warp(x, v.tensor("f3", (B, H, W, 3))))
    v.raises("dtype-mismatch", ValueError, lambda: dense_image_warp(x, v.tensor("f32", (B, H, W, 2), dtype=torch.float32)))


@contract("C03", "update_refreshes_both_tables", funcs=[M + "DVC.update"], runs=12)
def update_tables(v):
    m = _model(v)
    a, b = v.choose("first", [True, False]), v.choose("second", [True, False])
    how = v.choose("force", [None, True, False])
    log = []

    def stub(name, r):
        def update(force=False):
            log.append((name, force))
            return r
        return update
    real = m.motion_entropy_bottleneck, m.residual_entropy_bottleneck
    try:
        real[0].update, real[1].update = stub("motion", a), stub("residual", b)
        out = m.update() if how is None else m.update(force=how)
    finally:
        for r in real:
            r.__dict__.pop("update", None)
    v.ensure("both-bottlenecks-once-with-the-given-force", sorted(log) == [("motion", how is not False), ("residual", how is not False)], "%r" % (log,))
    v.ensure("reports-whether-either-changed", bool(out) == (a or b))
