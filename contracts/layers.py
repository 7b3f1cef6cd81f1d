"""C04 rate accounting, C08 lower bounds with surrogate gradients, C09 normalisation layers, C10 vector quantisation, C14 colour/scale conversions."""
import math
from pyvc.api import contract

PRELOAD = ["neuralcompression.functional", "neuralcompression.layers"]
F = "neuralcompression.functional."
LY = "neuralcompression.layers."


# ------------------------------------------------------------------ C04
@contract("C04", "information_content", funcs=[F + "information_content"])
def ic(v):
    from neuralcompression.functional import information_content
    rank = v.choose("rank", [1, 2, 4])
    dims = [v.int("d%d" % i, 1, span=4) for i in range(rank)]
    p = v.tensor("p", dims, 1e-300, 1.0)
    if not v.sym and rank > 1 and v.bool("noncontig"):
        p = p.transpose(-1, -2).contiguous().transpose(-1, -2)
    base = v.choose("base", [2.0, math.e, 10.0, 4.0])
    red = v.choose("reduction", ["sum", "batch_el", "none"])
    r = information_content(p, red, base)
    unit = lambda e: -v.log(e) / math.log(base)
    if red == "none":
        v.ensure_shape("shape", r, dims)
        v.ensure_elems("per-symbol", r, lambda *i: unit(v.at(p, *i)))
        v.forall_elems("non-negative", r, lambda e, *i: e >= 0)
    elif red == "batch_el":
        v.ensure_shape("shape", r, dims[:1])
        v.ensure_elems("per-batch-element-sum", r, lambda b: -v.sum(dims[1:], lambda *i: v.log(v.at(p, b, *i))) / math.log(base) if rank > 1 else unit(v.at(p, b)))
    else:
        v.ensure_shape("scalar", r, [])
        v.ensure_close("total-is-sum-over-all-symbols", v.at(r), -v.sum(dims, lambda *i: v.log(v.at(p, *i))) / math.log(base))


@contract("C04", "information_content_defaults", funcs=[F + "information_content"])
def icd(v):
    from neuralcompression.functional import information_content
    a, b = v.int("a", 1, span=4), v.int("b", 1, span=4)
    p = v.tensor("p", (a, b), 1e-300, 1.0)
    v.ensure_close("default-is-total-bits", v.at(information_content(p)), -v.sum([a, b], lambda i, j: v.log(v.at(p, i, j))) / math.log(2.0))
    v.ensure_close("default-base-2", v.at(information_content(p, reduction="none"), 0, 0), -v.log(v.at(p, 0, 0)) / math.log(2.0))
    v.raises("unknown-reduction", ValueError, lambda: information_content(p, "mean"))


@contract("C04", "vq_num_bytes", funcs=[LY + "VQBottleneck.forward"], runs=40)
def nbytes(v):
    import torch
    from neuralcompression import VqVaeAutoencoderOutput
    from neuralcompression.layers import VQBottleneck
    K = v.choose("K", [2, 16, 256, 1024, 64])
    torch.manual_seed(0)
    m = VQBottleneck(K, 3)
    B, h, w = v.int("B", 1, span=3), v.int("h", 1, span=5), v.int("w", 1, span=5)
    x = v.tensor("x", (B, 3, h, w), -1, 1, dtype=torch.float32)
    if v.sym:
        _sym_hits(v, m, K)
    o = m(VqVaeAutoencoderOutput(image=None, latent=x))
    bits = int(math.log2(K)) * B * h * w
    v.ensure("bytes-are-index-bits-over-8", o.num_bytes == bits // 8)


def _sym_hits(v, m, K):
    """arbitrary hit counters"""
    import torch
    h = v.tensor("hits", (K,), 0, None, dtype=torch.int64)
    del m._buffers["codebook_hits_0"]
    object.__setattr__(m, "codebook_hits_0", h)
    return h


# ------------------------------------------------------------------ C08
@contract("C08", "lower_bound_value", funcs=[F + "lower_bound", F + "_lower_bound._LowerBound.forward"])
def lb_val(v):
    import torch
    from neuralcompression.functional import lower_bound
    n, k = v.int("n", 1), v.int("k", 1)
    x = v.tensor("x", (n, k))
    g = v.choose("gradient", ["disconnected", "identity", "identity_if_towards"])
    how = v.choose("bound", ["float", "anyfloat", "scalar", "row", "full"])
    if how == "float":
        b = 0.1
        bf = lambda i, j: 0.1
    elif how == "anyfloat":
        b = v.real("b", -5, 5)
        bf = lambda i, j: b
    elif how == "row":
        b = v.tensor("bound", (k,))
        bf = lambda i, j: v.at(b, j)
    elif how == "scalar":
        b = torch.tensor(-0.5, dtype=torch.float64)
        bf = lambda i, j: -0.5
    else:
        b = v.tensor("bound", (n, k))
        bf = lambda i, j: v.at(b, i, j)
    y = lower_bound(x, b, g)
    v.ensure_shape("shape", y, [n, k])
    v.ensure_elems("is-maximum", y, lambda i, j: v.max(v.at(x, i, j), bf(i, j)), tol=1e-14)
    v.raises("unknown-gradient", ValueError, lambda: lower_bound(x, b, "none"))


@contract("C08", "lower_bound_gradient", funcs=[F + "_lower_bound._LowerBound.backward"])
def lb_grad(v):
    import torch
    from neuralcompression.functional import lower_bound
    n = v.int("n", 1)
    x = v.tensor("x", (n,))
    g = v.tensor("g", (n,))
    mode = v.choose("gradient", ["disconnected", "identity", "identity_if_towards"])
    full = v.choose("bound", [0, 1])
    b = v.tensor("bound", (n,)) if full else torch.tensor(0.5, dtype=torch.float64)
    bf = (lambda i: v.at(b, i)) if full else (lambda i: 0.5)
    y, d = v.vjp(lambda t: lower_bound(t, b, mode), x, g)

    def spec(i):
        xi, gi = v.at(x, i), v.at(g, i)
        if mode == "identity":
            return gi
        if mode == "disconnected":
            # at x == bound the two documented readings (zero / torch.maximum's split) differ; not constrained
            return v.If(v.Or(xi > bf(i), xi == bf(i)), v.If(xi == bf(i), lambda: v.at(d, i), gi), 0.0)
        return v.If(v.Or(xi >= bf(i), gi < 0), gi, 0.0)
    v.ensure_elems("surrogate-gradient", d, spec)


@contract("C08", "lower_bound_default", funcs=[F + "lower_bound"])
def lb_def(v):
    import torch
    from neuralcompression.functional import lower_bound
    n = v.int("n", 1)
    x, g = v.tensor("x", (n,)), v.tensor("g", (n,))
    b = torch.tensor(0.5, dtype=torch.float64)
    y, d = v.vjp(lambda t: lower_bound(t, b), x, g)
    v.ensure_elems("default-is-identity_if_towards", d, lambda i: v.If(v.Or(v.at(x, i) >= 0.5, v.at(g, i) < 0), v.at(g, i), 0.0))


@contract("C08", "clamp_min", funcs=[LY + "_simplified_gdn._ClampMin.forward", LY + "_simplified_gdn._ClampMin.backward"])
def clampmin(v):
    cm = v.need("neuralcompression.layers._simplified_gdn._clamp_min")
    n = v.int("n", 1)
    x, g = v.tensor("x", (n,)), v.tensor("g", (n,))
    y, d = v.vjp(lambda t: cm(t, 0.5), x, g)
    v.ensure_elems("is-maximum", y, lambda i: v.max(v.at(x, i), 0.5))
    v.ensure_elems("surrogate-gradient", d, lambda i: v.If(v.Or(v.at(x, i) >= 0.5, v.at(g, i) < 0), v.at(g, i), 0.0))


# ------------------------------------------------------------------ C09
def _gdn(v, inverse, C):
    import torch
    from neuralcompression.layers import SimplifiedGDN, SimplifiedInverseGDN
    m = (SimplifiedInverseGDN if inverse else SimplifiedGDN)(C, 0.1, 1e-4)
    g = v.tensor("gamma", (C, C, 1, 1), -0.3, 1.0, wide=(-40, 90))
    b = v.tensor("beta", (C,), -0.5, 2.0, wide=(-40, 90))
    if v.sym:
        for nm, t in (("gamma", g), ("beta", b)):
            del m._parameters[nm]
            object.__setattr__(m, nm, t)
    else:
        m = m.double()
        m.gamma.data.copy_(g)
        m.beta.data.copy_(b)
    g0 = v.build((C, C), lambda i, j: v.max(v.at(g, i, j, 0, 0), 0.0))
    b0 = v.build((C,), lambda i: v.max(v.at(b, i), 1e-4))
    return m, g0, b0


@contract("C09", "gdn_formula", funcs=[LY + "SimplifiedGDN.forward", LY + "SimplifiedInverseGDN.forward"], runs=60)
def gdn(v):
    import torch
    C = v.choose("C", [1, 2, 3])
    inv = v.choose("inverse", [False, True])
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4)
    m, g, b = _gdn(v, inv, C)
    x = v.tensor("x", (B, C, H, W))
    with torch.no_grad():
        y = m(x)
    v.ensure_shape("shape", y, [B, C, H, W])

    def spec(n, c, i, j):
        norm = v.at(b, c)
        for k in range(C):
            norm = norm + v.at(g, c, k) * v.abs(v.at(x, n, k, i, j))
        xi = v.at(x, n, c, i, j)
        return xi * norm if inv else xi / norm
    v.ensure_elems("inverse-gdn" if inv else "gdn", y, spec)
    # parameters are projected onto the valid set, and stay there
    v.forall_elems("gamma-non-negative", m.gamma.data if not v.sym else m.gamma, lambda e, *i: e >= 0)
    v.forall_elems("beta-positive", m.beta.data if not v.sym else m.beta, lambda e, *i: e >= 1e-4 - 1e-9)


@contract("C09", "gdn_init", funcs=[LY + "SimplifiedGDN.__init__", LY + "SimplifiedInverseGDN.__init__"], runs=20)
def gdn_init(v):
    import torch
    from neuralcompression.layers import SimplifiedGDN, SimplifiedInverseGDN
    C = v.choose("C", [1, 2, 5])
    for cls in (SimplifiedGDN, SimplifiedInverseGDN):
        m = cls(C)
        v.ensure("gamma-is-scaled-identity", bool(torch.allclose(m.gamma.detach().reshape(C, C), 0.1 * torch.eye(C))))
        v.ensure("beta-is-one", bool((m.beta.detach() == 1).all()))
        v.ensure("trainable", m.gamma.requires_grad and m.beta.requires_grad and len(list(m.parameters())) == 2)


@contract("C09", "gdn_gradients", funcs=[LY + "SimplifiedGDN.forward", LY + "SimplifiedInverseGDN.forward"], bounded=True, runs=30,
          notes="gradients through torch autograd; bounded: 30 seeded layers compared with the gradient of the formula")
def gdn_grad(v):
    import torch
    C = v.int("C", 1, 4)
    inv = v.bool("inverse")
    m, g, b = _gdn(v, inv, C)
    x = v.tensor("x", (2, C, 3, 3))
    m(x)
    p = [q.detach().clone().requires_grad_(True) for q in (m.gamma, m.beta)]
    xr, x2 = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
    norm = torch.einsum("ij,bjhw->bihw", p[0][:, :, 0, 0], x2.abs()) + p[1].reshape(1, C, 1, 1)
    ref = x2 * norm if inv else x2 / norm
    up = torch.randn(ref.shape, dtype=ref.dtype)
    want = torch.autograd.grad(ref, [x2] + p, up)
    m.zero_grad()
    out = m(xr)
    got = torch.autograd.grad(out, [xr, m.gamma, m.beta], up)
    for nm, a, c in zip(("input", "gamma", "beta"), got, want):
        v.ensure(nm + "-gradient", bool(torch.allclose(a, c.reshape(a.shape), rtol=1e-5, atol=1e-7)))


@contract("C09", "channel_norm", funcs=[LY + "ChannelNorm2D.forward"], runs=60)
def chnorm(v):
    import torch
    from neuralcompression.layers import ChannelNorm2D
    C = v.choose("C", [2, 3, 4])
    affine = v.choose("affine", [True, False])
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=3), v.int("W", 1, span=3)
    m = ChannelNorm2D(C, 1e-3, affine)
    if affine:
        g, b = v.tensor("gamma", (1, C, 1, 1)), v.tensor("beta", (1, C, 1, 1))
        if v.sym:
            for nm, t in (("gamma", g), ("beta", b)):
                del m._parameters[nm]
                object.__setattr__(m, nm, t)
        else:
            m = m.double()
            m.gamma.data.copy_(g)
            m.beta.data.copy_(b)
    x = v.tensor("x", (B, C, H, W))
    if not v.sym:
        x = x + v.rng.choice([0.0, 0.0, -4e6])  # a common offset does not change the result
    with torch.no_grad():
        y = m(x)
    v.ensure_shape("shape", y, [B, C, H, W])

    def spec(n, c, i, j):
        xs = [v.at(x, n, k, i, j) for k in range(C)]
        mu = sum(xs[1:], xs[0]) / C
        d = [(q - mu) * (q - mu) for q in xs]
        var = sum(d[1:], d[0]) / (C - 1)
        r = (v.at(x, n, c, i, j) - mu) / v.sqrt(var + 1e-3)
        return v.at(g, 0, c, 0, 0) * r + v.at(b, 0, c, 0, 0) if affine else r
    v.ensure_elems("per-pixel-channel-normalisation", y, spec)
    v.raises("single-channel-rejected", ValueError, lambda: ChannelNorm2D(1))


# ------------------------------------------------------------------ C10
@contract("C10", "nearest_codeword", funcs=[LY + "_q_bottleneck.QBottleneck.quantize_vectors"], runs=80)
def nearest(v):
    import torch
    from neuralcompression.layers import VQBottleneck
    norm = v.choose("normalize", [True, False])
    torch.manual_seed(0)
    m = VQBottleneck(2, 2)
    m.normalize_codebook = norm
    B, D, h, w, K = v.int("B", 1, span=2), v.int("D", 1, span=4), v.int("h", 1, span=3), v.int("w", 1, span=3), v.int("K", 1, span=7)
    x = v.tensor("x", (B, D, h, w))
    cb = v.tensor("codebook", (K, D), 0.1, 2.0)
    o = m.quantize_vectors(x, cb)
    ref = torch.nn.functional.normalize(cb, dim=1) if norm else cb
    v.ensure_shape("one-index-per-vector", o.indices, [B * h * w])
    v.ensure_shape("latent-shape", o.latent, [B, D, h, w])
    v.forall_elems("index-in-codebook", o.indices, lambda e, *i: v.And(e >= 0, e < K))
    b, i, j, k = v.index("b", B), v.index("i", h), v.index("j", w), v.index("k", K)
    row = (b * h + i) * w + j
    idx = v.at(o.indices, row)

    def dist(k):
        return v.sum([D], lambda d: (v.at(ref, k, d) - v.at(x, b, d, i, j)) * (v.at(ref, k, d) - v.at(x, b, d, i, j)))
    v.ensure_close("distance-is-squared-euclidean", v.at(o.distances, row, k), dist(k))
    v.ensure("no-codeword-is-nearer", v.at(o.distances, row, idx) <= v.at(o.distances, row, k) + 1e-9)
    d = v.index("d", D)
    v.ensure_close("latent-is-chosen-codeword", v.at(o.latent, b, d, i, j), v.at(ref, idx, d))
    v.ensure_close("prequantized-latent-kept", v.at(o.prequantized_latent, b, d, i, j), v.at(x, b, d, i, j))


@contract("C10", "vq_losses", funcs=[LY + "_q_bottleneck.QBottleneck.quantize_vectors"], runs=40)
def vq_loss(v):
    import torch
    from neuralcompression.layers import VQBottleneck
    torch.manual_seed(0)
    m = VQBottleneck(2, 2)
    m.normalize_codebook = False
    B, D, h, w, K = v.int("B", 1, span=2), v.int("D", 1, span=4), v.int("h", 1, span=3), v.int("w", 1, span=3), v.int("K", 1, span=7)
    x = v.tensor("x", (B, D, h, w))
    cb = v.tensor("codebook", (K, D), 0.1, 2.0)
    o = m.quantize_vectors(x, cb)
    q = o.latent

    def sq(b, d, i, j):
        e = v.at(cb, v.at(o.indices, (b * h + i) * w + j), d) - v.at(x, b, d, i, j)
        return e * e
    want = v.sum([B, D, h, w], sq) / v.to_real(B * D * h * w)
    v.ensure_close("commitment-loss-is-mse", v.at(o.commitment_loss), want)
    v.ensure_close("embedding-loss-is-mse", v.at(o.embedding_loss), want)


@contract("C10", "vq_gradients", funcs=[LY + "_q_bottleneck.QBottleneck.quantize_vectors"], bounded=True, runs=40,
          notes="which tensor each loss trains is decided by autograd; bounded: 40 seeded inputs")
def vq_grads(v):
    import torch
    from neuralcompression.layers import VQBottleneck
    B, D, h, w, K = v.int("B", 1, 2), v.int("D", 1, 4), v.int("h", 1, 3), v.int("w", 1, 3), v.int("K", 2, 7)
    m = VQBottleneck(K, D).double()
    m.normalize_codebook = v.bool("normalize")
    x = v.tensor("x", (B, D, h, w)).requires_grad_(True)
    cb = v.tensor("codebook", (K, D), 0.1, 2.0).requires_grad_(True)
    o = m.quantize_vectors(x, cb)
    up = torch.randn(o.latent.shape, dtype=x.dtype)
    gx, gc = torch.autograd.grad(o.latent, [x, cb], up, allow_unused=True, retain_graph=True)
    v.ensure("straight-through-to-encoder", gx is not None and bool(torch.allclose(gx, up)))
    v.ensure("straight-through-not-to-codebook", gc is None or bool((gc == 0).all()))
    n = x.numel()
    gx, gc = torch.autograd.grad(o.commitment_loss, [x, cb], allow_unused=True, retain_graph=True)
    v.ensure("commitment-trains-encoder", gx is not None and bool(torch.allclose(gx, 2 * (x - o.latent).detach() / n, atol=1e-9)))
    v.ensure("commitment-not-codebook", gc is None or bool((gc == 0).all()))
    gx, gc = torch.autograd.grad(o.embedding_loss, [x, cb], allow_unused=True)
    v.ensure("embedding-not-encoder", gx is None or bool((gx == 0).all()))
    moved = float((x - o.latent).detach().abs().max()) > 1e-6
    if not m.normalize_codebook:
        v.ensure("embedding-trains-codebook", gc is not None and (bool((gc != 0).any()) or not moved))


@contract("C10", "several_codebooks", funcs=[LY + "_q_bottleneck.QBottleneck.__init__", LY + "_q_bottleneck.QBottleneck.reset_hits", LY + "_q_bottleneck.QBottleneck.update_metrics"],
          runs=40, bounded=True, notes="bounded: 1-3 codebooks of seeded sizes; counters are per level")
def several(v):
    import torch
    Q = v.need("neuralcompression.layers._q_bottleneck.QBottleneck")
    n = v.int("levels", 1, 3)
    Ks = [v.int("K%d" % i, 1, 7) for i in range(n)]
    Ds = [v.int("D%d" % i, 1, 4) for i in range(n)]
    m = Q(Ks, Ds, v.choose("init", ["uniform", "normal"]))
    v.ensure("codebook-shapes", [tuple(c.shape) for c in m.codebooks] == list(zip(Ks, Ds)))
    h = [v.tensor("h%d" % i, (Ks[i],), 0, 4, dtype=torch.int64) for i in range(n)]
    for i in range(n):
        getattr(m, "codebook_hits_%d" % i).copy_(h[i])
    m.update_metrics()
    for i in range(n):
        t = int(h[i].sum())
        v.ensure_close("used-fraction", m.percentage_hits[i], float((h[i] != 0).double().mean()), tol=1e-5)
        v.ensure_close("max-hits", m.max_hits[i], float(h[i].max()))
        if t:
            p = h[i].double() / t
            v.ensure_close("perplexity", m.perplexities[i], 2 ** float(-(p * torch.log2(p + 1e-7)).sum()), tol=1e-4)
        v.ensure("metrics-leave-counters", bool((getattr(m, "codebook_hits_%d" % i) == h[i]).all()))
    cb = [c.detach().clone() for c in m.codebooks]
    m.reset_hits()
    for i in range(n):
        v.ensure("reset-zeroes-every-level", bool((getattr(m, "codebook_hits_%d" % i) == 0).all()))
        v.ensure("reset-leaves-codebooks", bool((m.codebooks[i] == cb[i]).all()))


@contract("C10", "hit_counters", funcs=[LY + "VQBottleneck.forward", LY + "_q_bottleneck.QBottleneck.reset_hits"], runs=60)
def hits(v):
    import torch
    from neuralcompression import VqVaeAutoencoderOutput
    from neuralcompression.layers import VQBottleneck
    K = v.choose("K", [2, 5, 16])
    torch.manual_seed(0)
    m = VQBottleneck(K, 3)
    m.update_metrics
    B, h, w = v.int("B", 1, span=2), v.int("h", 1, span=4), v.int("w", 1, span=4)
    x = v.tensor("x", (B, 3, h, w), -1, 1, dtype=torch.float32)
    if v.sym:
        hb = _sym_hits(v, m, K)
        before = hb.clone()
    else:
        m.codebook_hits_0.copy_(v.tensor("hits", (K,), 0, 9, dtype=torch.int64))
        before = m.codebook_hits_0.clone()
    o = m(VqVaeAutoencoderOutput(image=None, latent=x))
    now = m.codebook_hits_0
    n = B * h * w
    if v.sym:
        # index_add_: each selected index adds one
        k = v.index("k", K)
        cnt = v.sum([B, h, w], lambda b, i, j: v.If(v.at(o.indices, (b * h + i) * w + j) == k, 1, 0))
        v.ensure_close("hits-count-uses", v.at(now, k), v.at(before, k) + cnt)
    else:
        cnt = torch.bincount(o.indices, minlength=K)
        v.ensure("hits-count-uses", bool((now == before + cnt).all()))
        total = int(now.sum())
        m.update_metrics()
        if total:
            p = now.double() / total
            ent = float(-(p * torch.log2(p + 1e-7)).sum())
            v.ensure_close("perplexity", m.perplexities[0], 2 ** ent, tol=1e-4)
            v.ensure_close("used-fraction", m.percentage_hits[0], float((now != 0).double().mean()), tol=1e-5)
            v.ensure_close("max-hits", m.max_hits[0], float(now.max()))
        m.reset_hits()
        v.ensure("reset-zeroes-counters", bool((m.codebook_hits_0 == 0).all()))
        o2 = m(VqVaeAutoencoderOutput(image=None, latent=x))
        v.ensure("counts-again-after-reset", bool((m.codebook_hits_0 == cnt).all()))
    v.raises("needs-latent", ValueError, lambda: m(VqVaeAutoencoderOutput(image=None, latent=None)))


@contract("C10", "probabilistic_choice", funcs=[LY + "_q_bottleneck.QBottleneck.quantize_vectors"], bounded=True, runs=15,
          notes="random draw; bounded: 15 seeded codebooks, 4000 draws each, frequencies against inverse-distance weights")
def prob_choice(v):
    import torch
    from neuralcompression.layers import VQBottleneck
    K, D = v.int("K", 1, 5), 2
    m = VQBottleneck(K, D).double()
    m.normalize_codebook = False
    cb = v.tensor("codebook", (K, D), -1.0, 1.0, style="u")
    x0 = v.tensor("x", (1, D, 1, 1), -1.0, 1.0, style="u")
    N = 4000
    o = m.quantize_vectors(x0.expand(1, D, 1, N), cb, probabilistic=True)
    d = ((cb - x0.reshape(1, D)) ** 2).sum(1)
    wgt = 1 / (d + 1e-7)
    p = wgt / wgt.sum()
    freq = torch.bincount(o.indices, minlength=K).double() / N
    v.ensure("index-in-codebook", int(o.indices.min()) >= 0 and int(o.indices.max()) < K)
    v.ensure("frequencies-follow-inverse-distance", bool(((freq - p).abs() < 0.05).all()), lambda: "%s vs %s" % (freq.tolist(), p.tolist()))
    v.ensure("latent-is-chosen-codeword", bool(torch.allclose(o.latent[0, :, 0].t(), cb[o.indices])))


@contract("C10", "latent_wrappers", funcs=[LY + "NormalizeLatent.forward", LY + "ProjectLatent.forward"], runs=30)
def wrappers(v):
    import torch
    from torch import nn
    from neuralcompression import VqVaeAutoencoderOutput
    from neuralcompression.layers import NormalizeLatent, ProjectLatent
    B, h, w = v.int("B", 1, span=2), v.int("h", 1, span=3), v.int("w", 1, span=3)
    D = 3
    x = v.tensor("x", (B, D, h, w), 0.1, 2.0)
    seen = []

    class Child(nn.Module):
        def forward(s, o):
            seen.append(o.latent)
            o.latent = o.latent * 3.0
            return o
    child = v.choose("child", [False, True])
    with torch.no_grad():
        o = NormalizeLatent(Child() if child else None)(VqVaeAutoencoderOutput(image=None, latent=x))

    def unit(b, d, i, j):
        xs = [v.at(x, b, k, i, j) for k in range(D)]
        return xs[d] / v.sqrt(xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2]) if isinstance(d, int) else v.at(x, b, d, i, j) / v.sqrt(xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2])
    f = 3.0 if child else 1.0
    v.ensure_elems("unit-norm-latent", o.latent, lambda *i: f * unit(*i), tol=1e-6)
    if child:
        v.ensure_elems("child-sees-normalised-latent", seen[0], unit, tol=1e-6)
    seen.clear()
    torch.manual_seed(1)
    p = ProjectLatent(D, v.choose("out", [2, D, 4]), Child() if child else None).double()
    with torch.no_grad():
        o = p(VqVaeAutoencoderOutput(image=None, latent=x))
        mid = p.input_conv(x)
        want = p.output_conv(mid * 3.0 if child else mid)
    v.ensure_shape("projection-restores-channels", o.latent, [B, D, h, w])
    v.ensure_elems("project-child-unproject", o.latent, lambda *i: v.at(want, *i), tol=1e-6)
    if child:
        v.ensure_elems("child-sees-projected-latent", seen[0], lambda *i: v.at(mid, *i), tol=1e-6)


# ------------------------------------------------------------------ C14
@contract("C14", "to_255_scale", funcs=[F + "image_to_255_scale"])
def s255(v):
    import torch
    from neuralcompression.functional import image_to_255_scale
    B, C, H, W = (v.int(n, 1, span=3) for n in "BCHW")
    x = v.tensor("x", (B, C, H, W), 0.0, 1.0)
    dt = v.choose("dtype", [None, torch.uint8, torch.int64, torch.float32])
    y = image_to_255_scale(x, dt) if dt is not None else image_to_255_scale(x)
    v.ensure("dtype", y.dtype == (dt or torch.float64))
    v.ensure_shape("shape", y, [B, C, H, W])
    v.ensure_elems("round-255x", y, lambda *i: v.round(v.at(x, *i) * 255))
    v.forall_elems("range", y, lambda e, *i: v.And(e >= 0, e <= 255))


@contract("C14", "to_255_rejects_out_of_range", funcs=[F + "image_to_255_scale"])
def s255bad(v):
    from neuralcompression.functional import image_to_255_scale
    B, H, W = (v.int(n, 1, span=3) for n in "BHW")
    x = v.tensor("x", (B, 1, H, W), -1.0, 2.0)
    b, i, j = v.index("b", B), v.index("i", H), v.index("j", W)
    if not v.sym and v.rng.random() < 0.7:
        x = v.tensor("u", (B, 1, H, W), 0.0, 1.0)
        x[b, 0, i, j] = v.rng.choice([-1e-6, -0.5, 1.0001, 3.0])
    e = v.at(x, b, 0, i, j)
    v.require(v.Or(e > 1, e < 0))
    v.raises("out-of-range-raises", ValueError, lambda: image_to_255_scale(x))


def _hsv_ref(v, h, s, val, n):
    """textbook HSV->RGB: sextants of the hue circle"""
    h6 = h / 60
    k = v.If(n + h6 >= 6, lambda: n + h6 - 6, lambda: n + h6)
    k = v.If(k >= 6, lambda: k - 6, lambda: k)
    t = v.max(0.0, v.min(v.min(k, 4 - k), 1.0))
    return val - val * s * t


def _sextant(v, h, s, val):
    """RGB from the sextant table"""
    c = val * s
    hp = h / 60
    f = hp - 2 * v.to_real(v.floor(hp / 2))
    x = c * (1 - v.abs(f - 1))
    m = val - c
    z = 0.0
    tab = [(c, x, z), (x, c, z), (z, c, x), (z, x, c), (x, z, c), (c, z, x)]
    out = []
    for ch in range(3):
        e = tab[5][ch] if True else None
        r = v.If(hp >= 6, lambda ch=ch: tab[0][ch] * 1.0, lambda ch=ch: tab[5][ch] * 1.0)
        for i in (4, 3, 2, 1, 0):
            r = v.If(hp < i + 1, (lambda i=i, ch=ch: tab[i][ch] * 1.0), (lambda r=r: r))
        out.append(r + m)
    return out


@contract("C14", "hsv_to_rgb", funcs=[F + "hsv_to_rgb"])
def hsv(v):
    from neuralcompression.functional import hsv_to_rgb
    B, H, W = (v.int(n, 1, span=3) for n in "BHW")
    hue = v.tensor("hue", (B, 1, H, W), 0.0, 360.0)
    sv = v.tensor("sv", (B, 2, H, W), 0.0, 1.0)
    import torch
    x = torch.cat((hue, sv), dim=1)
    y = hsv_to_rgb(x)
    v.ensure_shape("shape", y, [B, 3, H, W])
    b, i, j = v.index("b", B), v.index("i", H), v.index("j", W)
    ref = _sextant(v, v.at(hue, b, 0, i, j), v.at(sv, b, 0, i, j), v.at(sv, b, 1, i, j))
    for c in range(3):
        v.ensure_close("rgb-%d-matches-sextant-table" % c, v.at(y, b, c, i, j), ref[c])
    v.forall_elems("rgb-in-[0,1]", y, lambda e, *i: v.And(e >= -1e-9, e <= 1 + 1e-9))


@contract("C14", "hsv_rejects", funcs=[F + "hsv_to_rgb"])
def hsv_bad(v):
    import torch
    from neuralcompression.functional import hsv_to_rgb
    B, H, W = (v.int(n, 1, span=3) for n in "BHW")
    x = v.tensor("x", (B, 3, H, W), -1.0, 400.0)
    b, c, i, j = v.index("b", B), v.index("c", 3), v.index("i", H), v.index("j", W)
    if not v.sym and v.rng.random() < 0.7:
        # a single offending entry in an otherwise valid image
        x = v.tensor("u", (B, 3, H, W), 0.0, 1.0)
        x[:, 0] *= 360
        x[b, c, i, j] = v.rng.choice([-1e-6, -0.5, 360.0001 if c == 0 else 1.0001])
    e = v.at(x, b, c, i, j)
    v.require(v.If(v._c(c) == 0 if v.sym else c == 0, v.Or(e < 0, e > 360), v.Or(e < 0, e > 1)))
    v.raises("out-of-range-raises", ValueError, lambda: hsv_to_rgb(x))
    v.raises("rank-3-raises", ValueError, lambda: hsv_to_rgb(torch.zeros(3, 4, 4)))
    v.raises("4-channels-raises", ValueError, lambda: hsv_to_rgb(torch.zeros(1, 4, 4, 4)))


@contract("C14", "flow_colour", funcs=[F + "optical_flow_to_color"], runs=80)
def flowcol(v):
    """hue is the direction of the flow vector, brightness its rescaled magnitude"""
    import torch
    from neuralcompression.functional import hsv_to_rgb, optical_flow_to_color
    B, H, W = (v.int(n, 1, span=3) for n in "BHW")
    x = v.tensor("flow", (B, 2, H, W), -4.0, 4.0, wide=(-400, 400))
    if v.sym:
        got = []

        def stub(h):
            got.append(h)
            return h
        with v.stub(F + "_hsv_to_rgb.hsv_to_rgb", stub):
            optical_flow_to_color(x)
        hsv_ = got[0]
    y = optical_flow_to_color(x) if not v.sym else None
    if v.sym:
        from pyvc import axioms as A
        c = v.c
        y0, x0 = (lambda b, i, j: v.at(x, b, 0, i, j)), (lambda b, i, j: v.at(x, b, 1, i, j))
        v.ensure_shape("shape", hsv_, [B, 3, H, W])
        b, i, j = v.index("b", B), v.index("i", H), v.index("j", W)
        at = c.wrap(A.atan2_f(c.zr(y0(b, i, j)), c.zr(x0(b, i, j))))
        v.ensure_close("hue-is-flow-angle", v.at(hsv_, b, 0, i, j), v.If(at < 0, lambda: (at + 2 * math.pi), lambda: at) * (180 / math.pi), tol=1e-5)
        v.ensure_close("saturation-is-one", v.at(hsv_, b, 1, i, j), 1.0)
        val = v.at(hsv_, b, 2, i, j)
        v.ensure("value-in-[0,1]", v.And(val >= 0, val <= 1))
        b2, i2, j2 = v.index("b2", B), v.index("i2", H), v.index("j2", W)
        m1 = y0(b, i, j) * y0(b, i, j) + x0(b, i, j) * x0(b, i, j)
        m2 = y0(b2, i2, j2) * y0(b2, i2, j2) + x0(b2, i2, j2) * x0(b2, i2, j2)
        v.ensure("brighter-means-faster", v.Implies(m1 <= m2, val <= v.at(hsv_, b2, 2, i2, j2)))
    else:
        mag = torch.sqrt(x[:, 0] ** 2 + x[:, 1] ** 2)
        mag = (mag - mag.min()) / ((mag - mag.min()).max() + 1e-5)
        ang = torch.atan2(x[:, 0], x[:, 1])
        ang = torch.where(ang < 0, ang + 2 * math.pi, ang) * 180 / math.pi
        v.ensure_shape("shape", y, [B, 3, H, W])
        for b in range(B):
            for i in range(H):
                for j in range(W):
                    ref = _sextant(v, min(float(ang[b, i, j]), 360.0), 1.0, float(mag[b, i, j]))
                    for c in range(3):
                        v.ensure_close("rgb-is-colour-of-flow", v.at(y, b, c, i, j), ref[c], tol=1e-5)
    v.raises("rank-3-raises", ValueError, lambda: optical_flow_to_color(torch.zeros(2, 4, 4)))
