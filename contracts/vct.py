"""projects/torch_vct: C19 patching, C20 Gaussian bottleneck, C21 entropy model, C22 pipeline and memoisation."""
import math
import sys
from pyvc import REPO
from pyvc.api import contract

VCT = REPO + "/projects/torch_vct"
if VCT not in sys.path:
    sys.path.insert(0, VCT)
PRELOAD = ["neural.patcher", "neural.bottlenecks", "neural.entropy_model", "neural.entropy_model_layers", "neural.layers_utils",
           "neural.transforms", "model_pipeline", "utils.memoize", "datamodules.video_data_api", "utils.schedulers"]


# ------------------------------------------------------------------ C19
def _refl(v, i, n):
    """reflection without repeating the border, for -n < i < 2n-1"""
    return v.If(i < 0, -i, v.If(i >= n, 2 * n - 2 - i, i))


PS = [(2, 2), (3, 3), (2, 4), (1, 3), (3, 5), (4, 8), (1, 1)]


def _geom(v, s, p, cap=4):
    """any H, W >= 1, written as s * (number of strides) - (missing rows)"""
    m = (p - s) // 2
    nH, nW, rH, rW = v.int("nH", 1, span=cap), v.int("nW", 1, span=cap), v.int("rH", 0, s - 1), v.int("rW", 0, s - 1)
    H, W = nH * s - rH, nW * s - rW
    v.require(v.And(rH + m < H, rW + m < W))     # what reflection padding can supply
    return m, nH, nW, H, W


@contract("C19", "patches", funcs=["neural.patcher.Patcher.forward", "neural.patcher.Patcher._pad", "neural.patcher.Patcher._window_partition",
                                   "neural.patcher.Patcher._window_partition_conv2d"], runs=60, budget=240)
def patches(v):
    import torch
    from neural.patcher import Patcher
    s, p = v.choose("stride-patch", PS)
    B, C = v.int("B", 1, span=2), (v.int("C", 1, span=3) if s == p else v.choose("C", [1, 2]))
    m, nH, nW, H, W = _geom(v, s, p)
    x = v.tensor("x", (B, C, H, W), dtype=torch.float32)
    out, n = Patcher(s)(x, p)
    v.ensure("counts", v.And(n[0] == nH, n[1] == nW))
    v.ensure_shape("size", out, [B * nH * nW, p * p, C])

    def want(k, q, c):
        b, ph, pw = v.split(k, (B, nH, nW))
        i, j = v.split(q, (p, p))
        return v.at(x, b, c, _refl(v, ph * s + i - m, H), _refl(v, pw * s + j - m, W))
    v.ensure_elems("content", out, want)


@contract("C19", "unpatch_inverts", funcs=["neural.patcher.Patcher.unpatch"], runs=60, budget=240)
def unpatch(v):
    import torch
    from neural.patcher import Patcher
    s = v.choose("stride", [1, 2, 3, 4])
    B, C = v.int("B", 1, span=2), v.int("C", 1, span=3)
    m, nH, nW, H, W = _geom(v, s, s)
    x = v.tensor("x", (B, C, H, W), dtype=torch.float32)
    pt = Patcher(s)
    out = pt(x, s)
    last = v.choose("layout", [True, False])
    t = out.tensor if last else out.tensor.permute(0, 2, 1)
    r = pt.unpatch((t, out.num_patches), crop=(H, W), channels_last=last)
    v.ensure_shape("size", r, [B, C, H, W])
    v.ensure_elems("content", r, lambda b, c, i, j: v.at(x, b, c, i, j))
    full = pt.unpatch((t, out.num_patches), channels_last=last)
    v.ensure_shape("uncropped-size", full, [B, C, nH * s, nW * s])
    v.ensure_elems("uncropped-content", full, lambda b, c, i, j: v.at(x, b, c, _refl(v, i, H), _refl(v, j, W)))


@contract("C19", "patch_rejects", funcs=["neural.patcher.Patcher._pad", "neural.patcher.Patcher.unpatch"], runs=30)
def patch_bad(v):
    import torch
    from neural.patcher import Patcher
    s = v.choose("stride", [2, 3, 4])
    B, C, H, W = v.int("B", 1, span=2), v.int("C", 1, span=3), v.int("H", 8, span=14), v.int("W", 8, span=14)
    x = v.tensor("x", (B, C, H, W), dtype=torch.float32)
    v.raises("patch-below-stride", ValueError, lambda: Patcher(s)(x, s - 1))
    v.raises("odd-margin", ValueError, lambda: Patcher(s)(x, s + 1))
    t = v.tensor("t", (4 * B, (s + 2) ** 2, C), dtype=torch.float32)
    v.raises("unpatch-needs-stride-sized-patches", Exception, lambda: Patcher(s).unpatch((t, (2, 2)), channels_last=True))


# ------------------------------------------------------------------ C20
BN = "neural.bottlenecks."
SC = [(0.01, 256.0, 256), (0.1, 16.0, 9), (0.5, 2.0, 2)]


@contract("C20", "scale_grid", funcs=[BN + "Scaler.to_scale_idx", BN + "Scaler.from_scale_idx"], runs=40)
def scaler(v):
    import torch
    from neural.bottlenecks import Scaler
    lo, hi, n = v.choose("grid", SC)
    sc = Scaler(lo, hi, n)
    d = v.int("n", 1, span=5)
    s = v.tensor("scales", (d,), 1e-3, 1000.0, dtype=torch.float64)
    step = math.log(hi / lo + 1) / (n - 1)
    idx = sc.to_scale_idx(s)
    v.ensure_elems("log-index", idx, lambda i: (v.log(v.at(s, i) + lo) - math.log(lo)) / step, tol=1e-6)
    v.ensure_elems("rounded-in-evaluation", sc.to_scale_idx(s, training=False), lambda i: v.round(v.at(idx, i)))
    v.ensure_elems("index-back-to-scale", sc.from_scale_idx(idx), lambda i: v.at(s, i) + lo, tol=1e-6)
    k = v.tensor("k", (d,), 0, n - 1, dtype=torch.float64)
    g = sc.from_scale_idx(k)
    v.ensure_elems("grid", g, lambda i: v.exp(v.at(k, i) / (n - 1) * math.log(hi / lo + 1) + math.log(lo)), tol=1e-6)
    v.forall("increasing", [d, d], lambda i, j: v.Implies(v.at(k, i) < v.at(k, j) - 1e-6, lambda: v.at(g, i) < v.at(g, j)))
    bad = v.tensor("bad", (3,), 1.0, 2.0, dtype=torch.float64)
    bad[1] = -1.0
    v.raises("rejects-nonpositive-scales", AssertionError, lambda: sc.to_scale_idx(bad))


def _vsp(v, x):
    """1 + x for positive x, 1 / (1 - x) otherwise"""
    return v.If(x > 0, lambda: x + 1.0, lambda: 1.0 / (1.0 - v.min(x, 0.0)))


_GSN = {}
FLOOR = 9007199 / 9007199254740992     # compressai's likelihood bound 1e-9, held as a float32


def _gsn(v, nm=10, ns=16, upd=True, **kw):
    import torch
    from neural.bottlenecks import GsnConditionalLocScaleShift
    key = (nm, ns, upd, str(kw))
    if v.sym or key not in _GSN:
        m = GsnConditionalLocScaleShift(num_scales=ns, num_means=nm, **kw)
        if upd:
            m.update()
        _GSN[key] = m
    m = _GSN[key]
    return m.eval()


def _idx(v, x, mean, scale, nm, ns, lo=0.01, hi=256.0):
    """(mean index, scale index) inside the table"""
    mi = (mean - v.round(mean) + 0.5) * nm
    si = (v.log(_vsp(v, scale) + lo) - math.log(lo)) / math.log(hi / lo + 1) * (ns - 1)
    return mi, si


def _clip(v, x, n):
    return v.min(v.max(x, 0.0), float(n - 1))


def _norm_cdf(v, z):
    return 0.5 * (1 - v.erf(-z / math.sqrt(2.0))) if not v.sym else 0.5 * (1 - v.erf(-(2 ** -0.5) * z))


@contract("C20", "forward", funcs=[BN + "GsnConditionalLocScaleShift.forward", BN + "GsnConditionalLocScaleShift._get_indexes",
                                   BN + "ContinuousIndexedGaussianConditional.forward", BN + "ContinuousIndexedGaussianConditional._likelihood",
                                   BN + "ContinuousIndexedGaussianConditional._normalize_indexes"], runs=60)
def gsn_forward(v):
    import torch
    nm, ns = v.choose("table", [(10, 16), (1, 4), (100, 256)])
    m = _gsn(v, nm, ns, upd=False)
    dims = [v.int("b", 1, span=2), v.int("s", 1, span=3), v.int("c", 1, span=3)]
    x, s, mu = v.tensor("x", dims, -50, 50, wide=(-3000, 3000)), v.tensor("scales", dims, -30, 300, wide=(-3000, 3000)), v.tensor("means", dims, -50, 50, wide=(-3000, 3000))
    mode = v.choose("mode", ["eval-flag", "eval-module", "train-flag", "train-module"])
    train = mode.startswith("train")
    if mode.endswith("module"):
        m.train(train)
        out, lik = m(inputs=x, scales=s, means=mu)
    else:
        m.train(not train)
        out, lik = m(inputs=x, scales=s, means=mu, training=train)
    v.ensure_elems("quantised-around-the-rounded-mean", out, lambda *i: v.round(v.at(x, *i) - v.round(v.at(mu, *i))) + v.round(v.at(mu, *i)), tol=1e-9)
    v.ensure_shape("likelihood-size", lik, dims)
    if train:
        v.forall_elems("likelihood-range", lik, lambda e, *i: v.And(e >= 1e-9 * (1 - 1e-6), e <= 1 + 1e-9))
        return

    def want(*i):
        a, b = _idx(v, None, v.at(mu, *i), v.at(s, *i), nm, ns)
        a, b = _clip(v, a, nm), _clip(v, v.round(b), ns)
        loc = a / nm - (0.5 if nm != 1 else 0.0)
        sc = v.exp(b / (ns - 1) * math.log(256.0 / 0.01 + 1) + math.log(0.01))
        d = v.abs(v.round(v.at(x, *i) - v.round(v.at(mu, *i))) - loc)
        return v.max(_norm_cdf(v, (0.5 - d) / sc) - _norm_cdf(v, (-0.5 - d) / sc), FLOOR)
    v.ensure_elems("likelihood", lik, want, tol=1e-5)


def _grid(v, x):
    """concrete draws in multiples of 1/256, so that subtracting an integer is exact in float32 (the specification is over the reals)"""
    return x if v.sym else (x * 256).round() / 256


class _Sent:
    def __init__(s, sym, idx):
        s.sym, s.idx = sym, idx


def _coder(v):
    """compressai's range coder by contract: the symbols are round(inputs), decodable with the indices they were coded with"""
    import torch
    import contextlib
    from contracts.metrics import replaced
    if not v.sym:
        return contextlib.nullcontext()
    from compressai.entropy_models import EntropyModel

    def compress(self, inputs, indexes, means=None):
        v.ensure("coder-index-size", v.And(*[a == b for a, b in zip(inputs.shape, indexes.shape)]))
        v.ensure("coder-index-is-integer", not indexes.dtype.is_floating_point)
        n = self._index_ranges[0] * self._index_ranges[1]
        v.forall_elems("coder-index-in-table", indexes, lambda e, *i: v.And(e >= 0, e < n))
        return [_Sent(self.quantize(inputs, "symbols", means), indexes + 0)]

    def decompress(self, strings, indexes, dtype=torch.float, means=None):
        c = strings[0]
        v.ensure("decoder-index-size", v.And(*[a == b for a, b in zip(c.idx.shape, indexes.shape)]))
        v.ensure_elems("decoder-uses-the-encoder-tables", indexes, lambda *i: v.at(c.idx, *i))
        return self.dequantize(c.sym, means, dtype)
    return replaced([(EntropyModel, "compress", compress), (EntropyModel, "decompress", decompress)])


@contract("C20", "lossless", funcs=[BN + "GsnConditionalLocScaleShift.compress", BN + "GsnConditionalLocScaleShift.decompress",
                                    BN + "ContinuousIndexedGaussianConditional.indexes_to_cdf_indexes"], runs=60,
          assumes=["compressai's range coder returns the coded integers when decoding with the tables and indices used for coding"])
def gsn_lossless(v):
    import torch
    nm, ns = v.choose("table", [(10, 16), (1, 4), (7, 9)])
    m = _gsn(v, nm, ns)
    if v.bool("training"):
        m.train()
    # compressai's native encoder overruns its buffer on messages of fewer than four symbols
    dims = [1, v.int("s", 1, span=3) if v.sym else v.int("s", 2, 4), v.int("c", 1, span=4) if v.sym else v.int("c", 4, 7)]
    x = _grid(v, v.tensor("x", dims, -60, 60, dtype=torch.float32, wide=(-1500, 1500)))
    s, mu = v.tensor("scales", dims, -30, 300, dtype=torch.float32), v.tensor("means", dims, -60, 60, dtype=torch.float32, wide=(-1500, 1500))
    with _coder(v):
        q, strings = m.compress(inputs=x, scales=s, means=mu)
        v.ensure_elems("quantised", q, lambda *i: v.round(v.at(x, *i) - v.round(v.at(mu, *i))) + v.round(v.at(mu, *i)))
        y = m.decompress(strings, scales=s, means=mu)
        v.ensure_shape("size", y, dims)
        v.ensure_elems("decoded-is-quantised", y, lambda *i: v.at(q, *i), tol=0)
        with torch.no_grad():
            f, _ = m(inputs=x, scales=s, means=mu, training=False)
        v.ensure_elems("forward-agrees", f, lambda *i: v.at(q, *i), tol=0)


@contract("C20", "table_selection", funcs=[BN + "ContinuousIndexedGaussianConditional.indexes_to_cdf_indexes", BN + "ContinuousIndexedGaussianConditional.build_indexes",
                                           BN + "ContinuousIndexedGaussianConditional._find_idx_of_first_smallest"], runs=40)
def table_sel(v):
    import torch
    nm, ns = v.choose("table", [(5, 6), (1, 4), (3, 2)])
    m = _gsn(v, nm, ns)._entropy_model
    d = v.int("n", 1, span=4)
    a, b = v.tensor("a", (d,), 0, nm - 1, dtype=torch.int64), v.tensor("b", (d,), 0, ns - 1, dtype=torch.int64)
    k = m.indexes_to_cdf_indexes(a, b)
    v.ensure_elems("row-major", k, lambda i: v.at(a, i) * ns + v.at(b, i))
    mu, s = v.tensor("mu", (d,), -2, 2, dtype=torch.float32), v.tensor("s", (d,), 0, 400, dtype=torch.float32)
    r = m.build_indexes((mu, s))
    gm, gs = [float(q) for q in m._prior_mean[:, 0]], [float(q) for q in m._prior_scale[0]]

    def first(x, grid):
        e = len(grid) - 1
        for i in range(len(grid) - 2, -1, -1):
            e = v.If(x <= grid[i], i, e)
        return e
    v.ensure_elems("first-grid-entry-not-below", r, lambda i: first(v.at(mu, i), gm) * ns + first(v.at(s, i), gs))


@contract("C20", "tables", funcs=[BN + "ContinuousIndexedGaussianConditional.update_tables", BN + "ContinuousIndexedGaussianConditional._build_tables"], runs=6, bounded=True,
          notes="bounded: the quantised tables (built by scipy and compressai's native code) compared with the normal distribution for the listed grids")
def tables(v):
    import torch
    from scipy import stats
    nm, ns, tail = v.choose("table", [(5, 6, 2 ** -8), (1, 4, 2 ** -8), (4, 3, 2 ** -6), (2, 9, 2 ** -8), (10, 16, 2 ** -8)])
    m = _gsn(v, nm, ns, tail_mass=tail)._entropy_model
    v.ensure("rows", m._quantized_cdf.shape[0] == nm * ns and m._offset.numel() == nm * ns and m._cdf_length.numel() == nm * ns)
    for i in range(nm):
        for j in range(ns):
            k = i * ns + j
            loc = i / nm - (0.5 if nm != 1 else 0.0)
            sc = math.exp(j / (ns - 1) * math.log(256.0 / 0.01 + 1) + math.log(0.01))
            v.ensure("grid", abs(float(m._prior_mean[i, j]) - loc) < 1e-5 and abs(float(m._prior_scale[i, j]) - sc) < 1e-3 * sc)
            dist = stats.norm(float(m._prior_mean[i, j]), float(m._prior_scale[i, j]))
            lo, hi = math.floor(dist.ppf(tail / 2)), math.ceil(dist.ppf(1 - tail / 2))
            v.ensure("offset", int(m._offset[k]) == lo, "row %d: %d, contract says %d" % (k, int(m._offset[k]), lo))
            v.ensure("length", int(m._cdf_length[k]) == hi - lo + 1 + 2)
            c = m._quantized_cdf[k].tolist()
            n = hi - lo + 1
            v.ensure("cdf-starts-and-ends", c[0] == 0 and c[n + 1] == 2 ** 16)
            v.ensure("cdf-increases", all(c[q] < c[q + 1] for q in range(n + 1)))
            tm = 2 * dist.cdf(lo - 0.5)
            v.ensure("escape-probability", abs((c[n + 1] - c[n]) / 2 ** 16 - tm) < 2e-4 + 0.15 * tm + (n + 2) / 2 ** 16, "row %d: %r vs %r" % (k, (c[n + 1] - c[n]) / 2 ** 16, tm))
            for q in range(0, n, max(1, n // 40)):
                p = dist.cdf(lo + q + 0.5) - dist.cdf(lo + q - 0.5)
                v.ensure("probability", abs((c[q + 1] - c[q]) / 2 ** 16 - p) < 1e-3 + 0.02 * p + (n + 2) / 2 ** 16, "row %d symbol %d: %r vs %r" % (k, lo + q, (c[q + 1] - c[q]) / 2 ** 16, p))
    before = m._offset.clone()
    v.ensure("second-update-without-force-does-nothing", m.update_tables(force=False) is False and torch.equal(before, m._offset))
    v.ensure("forced-update-reports", m.update_tables(force=True) is True and torch.equal(before, m._offset))


# ------------------------------------------------------------------ C21
EM, EL, LU = "neural.entropy_model.", "neural.entropy_model_layers.", "neural.layers_utils."


def _spread(m, seed=3, std=0.6):
    """concrete runs: weights large enough for every input to matter"""
    import torch
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.empty(p.shape).normal_(0, std, generator=g).to(p.dtype))
    return m


@contract("C21", "start_symbol", funcs=[EL + "StartSym.forward", EL + "LearnedPosition.forward"], runs=40)
def start_symbol(v):
    import torch
    from neural.entropy_model_layers import StartSym, LearnedPosition
    B, T, C = v.int("B", 1, span=3), v.int("T", 1, span=6), v.choose("C", [1, 3])
    x = v.tensor("x", (B, T, C), dtype=torch.float32)
    m = StartSym(C)
    sym = [float(q) for q in m.sym]
    y = m(x)
    v.ensure_shape("size", y, (B, T, C))
    v.ensure_elems("shifted-by-one", y, lambda b, t, c: v.If(t == 0, lambda: _pick(v, sym, c), lambda: v.at(x, b, v.max(t - 1, 0), c)))
    L = v.choose("L", [1, 4])
    p = LearnedPosition(L, C)
    z = v.tensor("z", (B, L, C), dtype=torch.float32)
    e = p._emb.detach()
    v.ensure_elems("position-added", p(z), lambda b, t, c: v.at(z, b, t, c) + v.at(e, 0, t, c))
    T2 = v.int("T2", 1, span=6)
    v.require(T2 != L)
    v.raises("other-lengths-rejected", AssertionError, lambda: p(v.tensor("w", (B, T2, C), dtype=torch.float32)))


def _pick(v, lst, i):
    """entry i of a list of values or thunks"""
    def g(x):
        return x() if callable(x) else x
    c = i
    if v.sym and not isinstance(i, int):
        from pyvc.core import z3, zi
        c = z3.simplify(zi(i))
        c = c.as_long() if z3.is_int_value(c) else None
    if c is not None:
        return g(lst[int(c)])
    e = g(lst[-1])
    for k in range(len(lst) - 2, -1, -1):
        e = v.If(i == k, g(lst[k]), e)
    return e


def _f32_softmax(v):
    """softmax as float32 computes it: a score 5e5 below scores of magnitude < 4e5 has weight exactly zero"""
    import contextlib
    if not v.sym:
        return contextlib.nullcontext()
    from pyvc import tensor as T
    from pyvc.core import z3, CTX

    def softmax(t, dim=None, dtype=None, **k):
        t = T.lift(t)
        def weight(s):
            if CTX.valid(s > -500000):
                return T.A.exp(s)
            if CTX.valid(s <= -500000):
                return T.rv(0)
            return z3.If(s > -500000, T.A.exp(s), T.rv(0))
        e = T.ew(weight, t, in_kind="r")
        return e / T.OPS["sum"](e, dim, True)

    @contextlib.contextmanager
    def cm():
        T.HOOKS["softmax"] = softmax
        try:
            yield
        finally:
            T.HOOKS.pop("softmax")
    return cm()


@contract("C21", "attention", funcs=[LU + "WindowMultiHeadAttention.forward"], runs=60, budget=240,
          assumes=["float32 softmax gives weight exactly zero to a score 5e5 below the others (scores within +-4e5)"])
def attention(v):
    import torch
    from neural.layers_utils import WindowMultiHeadAttention
    d, h, nq, blow, masked = v.choose("config", [(2, 1, 3, 1, True), (4, 2, 2, 1, True), (2, 2, 3, 1, True), (2, 1, 2, 2, False), (4, 2, 2, 1, False),
                                                 (2, 1, 2, 3, False), (2, 2, 2, 2, True)])
    m = WindowMultiHeadAttention(d, h).eval()
    if not v.sym:
        _spread(m)
    B, kv = v.int("B", 1, span=2), nq * blow
    q, k, w = v.tensor("q", (B, nq, d), -3, 3, dtype=torch.float32), v.tensor("k", (B, kv, d), -3, 3, dtype=torch.float32), v.tensor("v", (B, kv, d), -3, 3, dtype=torch.float32)
    mask = torch.triu(torch.ones(nq, nq), diagonal=1) if masked else None
    dh = d // h
    Q, K, W = m.q_linear(q), m.k_linear(k), m.v_linear(w)
    sc = dh ** -0.5

    def score(b, g, i, j):
        return sum(v.at(Q, b, i, g * dh + c) * v.at(K, b, j, g * dh + c) for c in range(dh)) * sc

    def dark(i, j):
        return masked and j % nq > i
    b0 = v.index("b", B)
    for g in range(h):
        for i in range(nq):
            for j in range(kv):
                s = score(b0, g, i, j)
                v.require(v.And(s > -400000, s < 400000))
    with _f32_softmax(v), torch.no_grad():
        feat, attn = m(query=q, key=k, value=w, mask=mask)
    v.ensure_shape("features-size", feat, (B, nq, d))
    v.ensure_shape("attention-size", attn, (B, h, nq, kv))
    ctx = {}
    for g in range(h):
        for i in range(nq):
            e = [0 if dark(i, j) else v.exp(score(b0, g, i, j)) for j in range(kv)]
            tot = sum(e)
            for j in range(kv):
                if dark(i, j):
                    v.ensure("masked-weight-is-zero", v.at(attn, b0, g, i, j) == 0)
                else:
                    v.ensure_close("softmax-of-scaled-dot-products", v.at(attn, b0, g, i, j), e[j] / tot, tol=1e-4)
            for c in range(dh):
                ctx[i, g * dh + c] = sum(v.at(attn, b0, g, i, j) * v.at(W, b0, j, g * dh + c) for j in range(kv))
    rows = m.proj(v.build((1, nq, d), lambda b, i, c: _table(v, ctx, i, c, nq, d), dtype=torch.float32))
    for i in range(nq):
        for c in range(d):
            v.ensure_close("projected-heads", v.at(feat, b0, i, c), v.at(rows.detach() if not v.sym else rows, 0, i, c), tol=1e-4)
    v.raises("rejects-other-width", AssertionError, lambda: m(query=v.tensor("bad", (B, nq, d + 1), dtype=torch.float32), key=k, value=w))
    v.raises("rejects-heads-not-dividing", ValueError, lambda: WindowMultiHeadAttention(3, 2))


def _table(v, tab, i, c, n, d):
    return _pick(v, [_pick(v, [tab[a, b] for b in range(d)], c) for a in range(n)], i)


def _attn_stub(v):
    """contract of WindowMultiHeadAttention.forward: row i is a function of query row i and of the key/value rows its mask leaves visible"""
    import contextlib
    from contracts.metrics import replaced
    if not v.sym:
        return contextlib.nullcontext()
    from neural.layers_utils import WindowMultiHeadAttention
    from pyvc.core import CTX, z3
    from pyvc.tensor import lift, from_fn, to_real

    def forward(self, query, key, value, mask=None):
        CTX.opaque_used = True
        B, n, c = query.shape
        kv = value.shape[-2]
        n, kv, c = int(n), int(kv), int(c)
        vis = [[j for j in range(kv) if mask is None or float(mask[i][j % n]) == 0] for i in range(n)]
        def row(b, i, o):
            args = [v.at(query, b, i, a) for a in range(c)]
            for j in vis[i]:
                args += [v.at(key, b, j, a) for a in range(c)] + [v.at(value, b, j, a) for a in range(c)]
            nm = ("attn", id(self), tuple(vis[i]))
            if nm not in CTX.cache:
                CTX.fresh += 1
                CTX.cache[nm] = z3.Function("attn!%d" % CTX.fresh, *([z3.RealSort()] * len(args) + [z3.IntSort(), z3.RealSort()]))
            from pyvc.core import wrap, zi
            return wrap(CTX.cache[nm](*[to_real(v._z(a)) for a in args], zi(o)))
        out = v.build((B, n, c), lambda b, i, o: _pick(v, [lambda t=t: row(b, t, o) for t in range(n)], i), dtype=query.dtype)
        return out, None
    return replaced([(WindowMultiHeadAttention, "forward", forward)])


_EM = {}


def _em(v, **kw):
    from neural.entropy_model import VCTEntropyModel
    cfg = dict(num_channels=2, context_len=2, window_size_enc=2, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1,
               num_layers_decoder=1, d_model=2, num_head=1, mlp_expansion=1)
    cfg.update(kw)
    key = str(sorted(cfg.items()))
    if v.sym or key not in _EM:
        m = VCTEntropyModel(**cfg).eval()
        if not v.sym:
            _spread(m)
        m.bottleneck = _gsn(v, 10, 16)
        _EM[key] = m
    return _EM[key]


@contract("C21", "causal", funcs=[EM + "VCTEntropyModel._get_transformer_output", EM + "VCTEntropyModel._embed_latent_q_patched", EL + "TransformerBlock.forward",
                                  EL + "Transformer.forward", EL + "StartSym.forward"], runs=40, budget=240)
def causal(v):
    import torch
    layers, heads = v.choose("decoder", [(1, 1), (2, 1), (3, 2)])
    m = _em(v, num_layers_decoder=layers, num_head=heads)
    f = v.need(EM + "VCTEntropyModel._get_transformer_output")
    P = v.int("P", 1, span=3)
    enc = v.tensor("enc", (P, 8, 2), -3, 3, dtype=torch.float32)
    x, y = v.tensor("x", (P, 4, 2), -40, 40, dtype=torch.float32), v.tensor("y", (P, 4, 2), -40, 40, dtype=torch.float32)
    t = v.choose("t", [0, 1, 2, 3])
    x2 = torch.cat([x[:, :t], y[:, t:]], dim=1)
    with _attn_stub(v), torch.no_grad():
        a, b = f(m, encoded_patched=enc, latent_q_patched=x), f(m, encoded_patched=enc, latent_q_patched=x2)
        for nm, p, q in zip(("mean", "scale", "features"), a, b):
            v.ensure_shape(nm + "-size", p, (P, 4, 2))
            for i in range(t + 1):
                v.forall(nm + "-sees-only-earlier-symbols", [P, 2], lambda k, c: v.close(v.at(p, k, i, c), v.at(q, k, i, c), 1e-4))
        v.raises("context-width-checked", ValueError, lambda: f(m, encoded_patched=v.tensor("bad", (P, 8, 3), dtype=torch.float32), latent_q_patched=x))


def _tf_stub(v, encs):
    """contract of _get_transformer_output (proved in `causal`): position t of mean, scale and features is a function of the context and of symbols < t"""
    import contextlib
    from contracts.metrics import replaced
    if not v.sym:
        return contextlib.nullcontext()
    import torch
    from neural.entropy_model import VCTEntropyModel
    from pyvc.core import CTX, z3, wrap, zi
    from pyvc.tensor import to_real

    seen = {}

    def out(self, *, encoded_patched, latent_q_patched):
        CTX.opaque_used = True
        from pyvc.nnops import same_contents, frozen
        v.ensure("context-width", encoded_patched.shape[-1] == self.d_model)
        tag = None
        for k, e in enumerate(encs):
            if same_contents(e, encoded_patched):
                tag = k
                break
        if tag is None:
            tag = len(encs)
            encs.append(frozen(encoded_patched))
        P, n, C = latent_q_patched.shape
        n, C = int(n), int(C)
        lat = frozen(latent_q_patched)
        bb = CTX.new("b")
        CTX.path.append(z3.And(bb >= 0, bb < zi(P)))

        def same(old, j):
            for c in range(C):
                p, q = (z3.simplify(v._z(v.at(z, wrap(bb), j, c))) for z in (old, lat))
                if p.eq(q):
                    continue
                if z3.is_rational_value(p) or z3.is_rational_value(q):
                    return False
                from pyvc.solve import prove
                if prove(CTX, p == q, depth=1, timeout=3000)[0] != "discharged":
                    return False
            return True
        # calls whose symbols < i provably coincide share the output at position i
        canon, cand = {0: lat}, list(seen.setdefault(tag, []))
        for i in range(1, n):
            cand = [o for o in cand if same(o[0], i - 1)]
            canon[i] = cand[0][1][i] if cand else lat
        seen[tag].append((lat, canon))

        def mk(what, width):
            def row(b, i, o):
                args = [v.at(canon[i], b, j, c) for j in range(i) for c in range(C)]
                nm = ("tf", what, tag, i)
                if nm not in CTX.cache:
                    CTX.fresh += 1
                    CTX.cache[nm] = z3.Function("%s!%d" % (what, CTX.fresh), *([z3.IntSort()] + [z3.RealSort()] * len(args) + [z3.IntSort(), z3.RealSort()]))
                return wrap(CTX.cache[nm](zi(b), *[to_real(v._z(a)) for a in args], zi(o)))
            return v.build((P, n, width), lambda b, i, o: _pick(v, [lambda t=t: row(b, t, o) for t in range(n)], i), dtype=torch.float32)
        return mk("mean", C), mk("scale", C), mk("features", self.d_model)
    return replaced([(VCTEntropyModel, "_get_transformer_output", out)])


class _Token:
    """what the bottleneck's contract says about a coded token: decodable with the means and scales it was coded with"""
    def __init__(s, n, q, mu, sc):
        s.n, s.q, s.mu, s.sc = n, q, mu, sc

    def __len__(s):
        return s.n


def _quantised(v, x, mu):
    """round(x - round(mean)) + round(mean), the value C20 proves for compress, decompress and forward"""
    if not v.sym:
        return v.round(x - v.round(mu)) + v.round(mu)
    from pyvc.core import CTX, z3, wrap
    from pyvc.tensor import to_real
    if "Q" not in CTX.cache:
        CTX.cache["Q"] = z3.Function("quantised", z3.RealSort(), z3.RealSort(), z3.RealSort())
    return wrap(CTX.cache["Q"](to_real(v._z(x)), to_real(v._z(mu))))


def _abstract_bottleneck(v, m):
    """sym: GsnConditionalLocScaleShift by its contract (proved in C20)"""
    if not v.sym:
        return m
    import torch
    from torch import nn
    from pyvc.nnops import frozen, opaque
    lens = iter(range(3, 1000))

    def q(x, mu):
        v.ensure("bottleneck-sizes-agree", v.And(*[a == b for a, b in zip(x.shape, mu.shape)]))
        x, mu = frozen(x), frozen(mu)
        return v.build(x.shape, lambda *i: _quantised(v, v.at(x, *i), v.at(mu, *i)), dtype=x.dtype)

    class B(nn.Module):
        def forward(s, inputs, scales, means, training=None):
            return q(inputs, means), opaque("likelihood", (inputs, scales, means), inputs.shape, lo=1e-9, hi=1)

        def compress(s, inputs, scales, means):
            r = q(inputs, means)
            return r, [_Token(next(lens), frozen(r), frozen(means), frozen(scales))]

        def decompress(s, strings, scales, means):
            t = strings[0]
            v.ensure_shape("decoder-sizes", means, t.mu.shape)
            v.ensure_elems("decoder-uses-the-encoder-means", means, lambda *i: v.at(t.mu, *i))
            v.ensure_elems("decoder-uses-the-encoder-scales", scales, lambda *i: v.at(t.sc, *i))
            return t.q + 0

        def update(s, force=False):
            return True
    m.bottleneck = B()
    return m


def _abstract_patcher(v, m, P, H, W, wins=(2,)):
    """sym: Patcher by its contract (proved in C19): patches hold the pixels at positions fixed by the size, unpatch puts token TI of patch PI at (i, j)"""
    if not v.sym:
        return m, None
    from torch import nn
    from neural.patcher import Patched
    from pyvc.core import CTX, z3, wrap, zi
    from pyvc.nnops import frozen
    I = z3.IntSort()
    uf = {}

    def U(nm, *a):
        f = uf.setdefault((nm, len(a)), z3.Function(nm, *([I] * (len(a) + 1))))
        return wrap(f(*[zi(x) for x in a]))
    tok = object()

    class Pt(nn.Module):
        def forward(s, x, patch_size):
            v.ensure("patcher-gets-the-latent-size", v.And(x.shape[2] == H, x.shape[3] == W))
            v.ensure("patch-size", patch_size in wins)
            x, w = frozen(x), int(patch_size)
            t = v.build((P * x.shape[0], w * w, x.shape[1]),
                        lambda p, t, c: v.at(x, U("image", p), c, U("row%d" % w, p, t), U("col%d" % w, p, t)), dtype=x.dtype)
            return Patched(t, (tok, x.shape[0]))

        def unpatch(s, x_patched, crop=None, channels_last=False):
            t, n = x_patched
            v.ensure("unpatch-gets-its-patch-counts", isinstance(n, tuple) and n[0] is tok)
            v.ensure("crop-to-the-latent-size", crop is not None and v.And(crop[0] == H, crop[1] == W))
            v.ensure("channels-last", channels_last)
            t = frozen(t)
            T = int(t.shape[1])
            return v.build((n[1], t.shape[2], H, W), lambda b, c, i, j: _pick(v, [lambda k=k: v.at(t, U("patch", b, i, j), k, c) for k in range(T)], U("token", i, j)), dtype=t.dtype)
    m.patcher = Pt()
    return m, U


class _Rec:
    """records what the entropy coder produced"""
    def __init__(s, m):
        s.m, s.out = m, []

    def __enter__(s):
        import contextlib
        from contracts.metrics import replaced
        G = type(s.m.bottleneck)
        s.st = contextlib.ExitStack()
        real = G.__dict__["compress"]

        def compress(self, *a, **k):
            r = real(self, *a, **k)
            s.out.append(r[1])
            return r
        s.st.enter_context(replaced([(G, "compress", compress)]))
        return s.out

    def __exit__(s, *e):
        return s.st.__exit__(*e)


ZOZ = "0/0 counts as 0 (only the diagnostic message of _decode divides)"


def _zoz(v):
    if v.sym:
        from pyvc.core import CTX
        CTX.cache["zero over anything is zero"] = True


def _latent(v):
    """(H, W, number of patches, latent): in the concrete runs P = ceil(H/2) ceil(W/2), in the proof any P"""
    import torch
    H, W = v.int("H", 1, span=5), v.int("W", 1, span=5)
    if v.sym:
        P = v.int("P", 1)
    else:
        P = ((H + 1) // 2) * ((W + 1) // 2)
        v.require(P >= 2 and H > H % 2 and W > W % 2)      # compressai's encoder needs four symbols; reflection needs two rows
    return H, W, P, _grid(v, v.tensor("x", (1, 2, H, W), -30, 30, dtype=torch.float32, wide=(-700, 700)))


@contract("C21", "encode_decode", funcs=[EM + "VCTEntropyModel._encode", EM + "VCTEntropyModel._decode"], runs=40, budget=240,
          assumes=["compressai's range coder returns the coded integers when decoding with the tables and indices used for coding", ZOZ])
def encode_decode(v):
    import torch
    _zoz(v)
    m = _em(v)
    enc_f, dec_f = v.need(EM + "VCTEntropyModel._encode"), v.need(EM + "VCTEntropyModel._decode")
    H, W, P, x = _latent(v)
    enc = v.tensor("enc", (P, 8, 2), -3, 3, dtype=torch.float32)
    own = v.bool("use-encoder-parameters")
    _abstract_bottleneck(v, m)
    _, U = _abstract_patcher(v, m, P, H, W)
    with _tf_stub(v, []), torch.no_grad():
        xp, n = m.patcher(x, 2)
        strings, extra = enc_f(m, xp, enc)
        q, mu, sc, do = extra["quantized"], extra["means"], extra["scales"], extra["dec_output"]
        v.ensure("one-string-per-token", len(strings) == 4)
        v.ensure_shape("quantised-size", q, (P, 4, 2))
        a, b, c = m._get_transformer_output(encoded_patched=enc, latent_q_patched=q)
        for t in range(4):
            def at(z, k, e):
                return v.at(z, k, t, e)
            v.forall("quantised-around-the-rounded-mean", [P, 2],
                     lambda k, e: at(q, k, e) == _quantised(v, at(xp, k, e), at(mu, k, e)))
            v.forall("means-are-the-one-pass-means", [P, 2], lambda k, e: v.close(at(mu, k, e), at(a, k, e), 1e-4))
            v.forall("scales-are-the-one-pass-scales", [P, 2], lambda k, e: v.close(at(sc, k, e), at(b, k, e), 1e-4))
            v.forall("features-are-the-one-pass-features", [P, 2], lambda k, e: v.close(at(do, k, e), at(c, k, e), 1e-4))
        y = dec_f(m, list(strings), enc, (H, W, 2), mu, sc, own)
        v.ensure_shape("decoded-size", y, (1, 2, H, W))
        for t in range(4):
            v.forall("decoded-is-quantised", [H, W, 2], lambda i, j, k: _where_token(v, U, W, i, j, t, lambda p: v.at(y, 0, k, i, j) == v.at(q, p, t, k)))


def _where_token(v, U, W, i, j, t, f):
    """pixel (i, j) is token t of patch p => f(p)"""
    if v.sym:
        return v.Implies(U("token", i, j) == t, lambda: f(U("patch", 0, i, j)))
    return (i % 2) * 2 + j % 2 != t or f((i // 2) * ((W + 1) // 2) + j // 2)


def _prev(v, n, P, T=4, d=2):
    import torch
    from neural.entropy_model import PreviousLatent
    return [PreviousLatent(quantized=None, processed=v.tensor("prev%d" % k, (P, T, d), -3, 3, dtype=torch.float32)) for k in range(n)]


@contract("C21", "compress", funcs=[EM + "VCTEntropyModel.compress", EM + "VCTEntropyModel._encode", EM + "VCTEntropyModel._decode", EM + "VCTEntropyModel._get_encoded_seqs"],
          runs=30, budget=240, assumes=["compressai's range coder returns the coded integers when decoding with the tables and indices used for coding", ZOZ])
def compress(v):
    import torch
    _zoz(v)
    L, n = v.choose("context-previous", [(2, 1), (2, 2), (1, 1)])
    m = _em(v, context_len=L)
    H, W, P, x = _latent(v)
    prev = _prev(v, n, P)
    dec = v.bool("run-decode")
    _abstract_bottleneck(v, m)
    _, U = _abstract_patcher(v, m, P, H, W)
    ctx = torch.cat([prev[0].processed, prev[-1].processed], dim=1) if L == 2 else prev[0].processed
    with _tf_stub(v, []), torch.no_grad(), _Rec(m) as rec:
        out = m.compress(latent_unquantized=x, previous_latents=tuple(prev), run_decode=dec)
        y, f = out.perturbed_latent, out.features
        v.ensure_shape("size", y, (1, 2, H, W))
        v.ensure_shape("features-size", f, (1, 2, H, W))
        v.ensure("one-string-per-token", len(rec) == 4)
        v.ensure("bits-are-eight-per-byte", float(out.bits.sum()) == sum(8 * len(s[0]) for s in rec))
        # the symbols the decoder recovers, in raster order
        xp = m.patcher(x, 2).tensor
        q = torch.zeros_like(xp)
        for t in range(4):
            mu, sc, ft = m._get_transformer_output(encoded_patched=ctx, latent_q_patched=q)
            q = torch.cat([q[:, :t], v.build((P, 1, 2), lambda p, _, c, t=t, mu=mu: _quantised(v, v.at(xp, p, t, c), v.at(mu, p, t, c)), dtype=torch.float32), q[:, t + 1:]], dim=1)
            v.forall("returns-what-the-decoder-recovers", [H, W, 2], lambda i, j, k: _where_token(v, U, W, i, j, t, lambda p: v.close(v.at(y, 0, k, i, j), v.at(q, p, t, k), 1e-4)))
            v.forall("features-of-the-recovered-symbols", [H, W, 2], lambda i, j, k: _where_token(v, U, W, i, j, t, lambda p: v.close(v.at(f, 0, k, i, j), v.at(ft, p, t, k), 1e-3)))
    v.raises("one-video-at-a-time", AssertionError, lambda: m.compress(latent_unquantized=v.tensor("two", (2, 2, H, W), dtype=torch.float32), previous_latents=tuple(prev)))


@contract("C21", "forward", funcs=[EM + "VCTEntropyModel.forward", EM + "VCTEntropyModel._get_encoded_seqs"], runs=30, budget=240)
def em_forward(v):
    import torch
    L, n = v.choose("context-previous", [(2, 1), (2, 2), (1, 1)])
    m = _em(v, context_len=L)
    B = v.int("B", 1, span=2)
    H, W, P, _ = _latent(v)
    x = _grid(v, v.tensor("xs", (B, 2, H, W), -30, 30, dtype=torch.float32, wide=(-700, 700)))
    PB = P * B
    prev = _prev(v, n, PB)
    _abstract_bottleneck(v, m)
    _, U = _abstract_patcher(v, m, P, H, W)
    m.eval()
    ctx = torch.cat([prev[0].processed, prev[-1].processed], dim=1) if L == 2 else prev[0].processed
    with _tf_stub(v, []), torch.no_grad():
        out = m(latent_unquantized=x, previous_latents=tuple(prev))
        y, lik, f = out.perturbed_latent, out.bits, out.features
        v.ensure_shape("size", y, (B, 2, H, W))
        v.ensure_shape("features-size", f, (B, 2, H, W))
        v.ensure_shape("likelihood-size", lik, (PB, 4, 2))
        mu, sc, ft = m._get_transformer_output(encoded_patched=ctx, latent_q_patched=m.patcher(torch.round(x), 2).tensor)
        xp = m.patcher(x, 2).tensor
        want, wl = m.bottleneck(inputs=xp, scales=sc, means=mu)
        v.ensure_elems("likelihood-of-the-quantised-symbols", lik, lambda *i: v.at(wl, *i), tol=1e-5)
        b = v.index("b", B)
        for t in range(4):
            v.forall("quantised-around-the-predicted-mean", [H, W, 2], lambda i, j, k: _where(v, U, b, P, W, i, j, t, lambda p: v.close(v.at(y, b, k, i, j), v.at(want, p, t, k), 1e-5)))
            v.forall("features", [H, W, 2], lambda i, j, k: _where(v, U, b, P, W, i, j, t, lambda p: v.close(v.at(f, b, k, i, j), v.at(ft, p, t, k), 1e-4)))


def _where(v, U, b, P, W, i, j, t, f):
    if v.sym:
        return v.Implies(U("token", i, j) == t, lambda: f(U("patch", b, i, j)))
    return (i % 2) * 2 + j % 2 != t or f(b * P + (i // 2) * ((W + 1) // 2) + j // 2)


@contract("C21", "context", funcs=[EM + "VCTEntropyModel._get_encoded_seqs", EM + "VCTEntropyModel.__init__", EM + "VCTEntropyModel.process_previous_latent_q"], runs=40)
def context(v):
    import torch
    from neural.entropy_model import VCTEntropyModel
    L, n = v.choose("context-previous", [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 4), (5, 1)])
    m = _em(v, context_len=L)
    f = v.need(EM + "VCTEntropyModel._get_encoded_seqs")
    P = v.int("P", 1, span=3)
    prev = _prev(v, n, P)
    if n < L and L > 3:
        v.raises("unsupported-length-rejected", ValueError, lambda: f(m, prev))
        return
    got = f(m, prev)
    v.ensure("exactly-the-context-length", len(got) == L)
    want = [0] * (L - n) + list(range(n))       # the oldest is repeated
    v.ensure("oldest-repeated-then-in-order", all(got[k] is prev[w].processed for k, w in enumerate(want)))
    v.raises("encoder-window-at-least-decoder-window", ValueError, lambda: VCTEntropyModel(num_channels=2, window_size_enc=2, window_size_dec=4))


@contract("C21", "context_patches", funcs=[EM + "VCTEntropyModel.process_previous_latent_q", EL + "EncoderSection.forward", EL + "Transformer.forward"], runs=30, budget=240)
def context_patches(v):
    """the context of a patch is computed from that patch's own window and nothing else; the latent itself is passed on unchanged"""
    import torch
    m = _em(v)
    H, W, P, x = _latent(v)
    z = _grid(v, v.tensor("z", (1, 2, H, W), -30, 30, dtype=torch.float32, wide=(-700, 700)))
    _, U = _abstract_patcher(v, m, P, H, W)
    p = v.index("p", P)
    with _attn_stub(v), torch.no_grad():
        xp = m.patcher(x, 2).tensor
        zp = m.patcher(z, 2).tensor
        for t in range(4):
            for c in range(2):
                if v.sym:
                    v.require(v.at(xp, p, t, c) == v.at(zp, p, t, c))
        if not v.sym:
            r, s = (p // ((W + 1) // 2)) * 2, (p % ((W + 1) // 2)) * 2
            rows, cols = [i for i in range(H) if i // 2 * 2 in (r, r - 2)], [j for j in range(W) if j // 2 * 2 in (s, s - 2)]
            for i in rows:
                z[:, :, i, cols] = x[:, :, i, cols]
        a, b = m.process_previous_latent_q(x), m.process_previous_latent_q(z)
        v.ensure("latent-passed-on", a.quantized is x)
        v.ensure_shape("one-row-per-window-position", a.processed, (P, 4, 2))
        for t in range(4):
            for c in range(2):
                v.ensure_close("own-window-only", v.at(a.processed, p, t, c), v.at(b.processed, p, t, c), tol=1e-4)


@contract("C21", "update_refreshes_the_tables", funcs=[EM + "VCTEntropyModel.update", BN + "GsnConditionalLocScaleShift.update"], runs=8)
def em_update(v):
    m = _em(v)
    how, r = v.choose("force", [None, True, False]), v.choose("result", [True, False])
    log = []
    em = m.bottleneck._entropy_model

    def update_tables(force=True):
        log.append(force)
        return r
    em.update_tables = update_tables
    try:
        out = m.update() if how is None else m.update(force=how)
        v.ensure("force-passed-on", log == [bool(how)])
        v.ensure("result-passed-on", out is r)
        out = m.bottleneck.update() if how is None else m.bottleneck.update(force=how)
        v.ensure("bottleneck-force", log[1:] == [how is not False] and out is r)
    finally:
        em.__dict__.pop("update_tables", None)
