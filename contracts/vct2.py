"""projects/torch_vct, C22: video pipeline (state, padding, coding to strings), frame transforms, memoisation."""
import math
from contracts.vct import PRELOAD, _em, _gsn, _pick     # noqa: F401
from pyvc.api import contract

MP, TR, MZ, VD = "model_pipeline.", "neural.transforms.", "utils.memoize.", "datamodules.video_data_api."
C, D = 2, 2


def _stub_em(v, L):
    """sym: the entropy model by what C21 proves about it, deterministic in latent and context"""
    import torch
    from torch import nn
    from neural.entropy_model import PreviousLatent, TemporalEntropyModelOut
    from pyvc.nnops import opaque

    class E(nn.Module):
        d_model, context_len = D, L

        def process_previous_latent_q(s, x):
            v.ensure("four-dimensional-latent", x.dim() == 4)
            return PreviousLatent(quantized=x, processed=opaque("processed", (x,), (x.shape[0] * x.shape[2] * x.shape[3], 4, D)))

        def out(s, nm, x, prev, bits, **k):
            v.ensure("context-is-a-nonempty-tuple-of-at-most-context_len", isinstance(prev, tuple) and 1 <= len(prev) <= L)
            a = (x,) + tuple(p.processed for p in prev)
            v.ensure("context-belongs-to-its-latents", v.And(*[p.processed.shape[0] == x.shape[0] * x.shape[2] * x.shape[3] for p in prev]))
            return TemporalEntropyModelOut(perturbed_latent=opaque("latent_q", a, x.shape),
                                           bits=opaque(nm, a, bits, lo=1e-9, hi=1 if nm == "likelihood" else None),
                                           features=opaque("features", a, (x.shape[0], D, x.shape[2], x.shape[3])))

        def forward(s, *, latent_unquantized, previous_latents):
            x = latent_unquantized
            return s.out("likelihood", x, previous_latents, (x.shape[0] * x.shape[2] * x.shape[3], 4, C))

        def compress(s, *, latent_unquantized, previous_latents, run_decode=True, validate_causal=False):
            v.ensure("one-video-at-a-time", latent_unquantized.shape[0] == 1)
            v.ensure("no-causality-experiment-when-coding", not validate_causal)
            return s.out("bits", latent_unquantized, previous_latents, (1,))

        def update(s, force=False):
            return True
    return E()


def _nets(v):
    import torch
    from torch import nn
    from neural.transforms import ConvGDNAnalysis, ConvGDNSynthesis
    if not v.sym:
        if "nets" not in _CACHE:
            torch.manual_seed(5)
            _CACHE["nets"] = (ConvGDNAnalysis(4, C).eval(), ConvGDNSynthesis(4, C).eval())
            with torch.no_grad():
                _CACHE["nets"][0].transforms[-1].weight.mul_(60)
        return _CACHE["nets"]
    from pyvc.nnops import opaque

    class A(nn.Module):
        compression_channels, num_downsampling_layers = C, 4

        def forward(s, x):
            s.got = x
            return opaque("analysis", (x,), (x.shape[0], x.shape[1], C, (x.shape[3] + 15) // 16, (x.shape[4] + 15) // 16))

    class S(nn.Module):
        compression_channels = C

        def forward(s, x, frames_shape):
            v.ensure("synthesis-told-five-sizes", len(frames_shape) == 5)
            s.full = opaque("synthesis", (x,), (x.shape[0], x.shape[1], 3, x.shape[3] * 16, x.shape[4] * 16))
            return s.full[..., :frames_shape[-2], :frames_shape[-1]]
    return A(), S()


_CACHE = {}


def _pipe(v, L, train=False):
    import model_pipeline
    import torch
    from contracts.metrics import replaced
    key = ("pipe", L)
    if v.sym or key not in _CACHE:
        a, s = _nets(v)
        told = []

        def make(*args, **k):
            told.append((args, k))
            if not v.sym:
                return _em(v, **{kk: x for kk, x in k.items() if kk in ("num_channels", "context_len")})
            return _stub_em(v, k.get("context_len", 2))
        with replaced([(model_pipeline, "VCTEntropyModel", make)]):
            m = model_pipeline.VCTPipeline(a, s, C, L)
        v.ensure("entropy-model-has-the-context-length", len(told) == 1 and told[0][1].get("context_len", 2) == L and told[0][1].get("num_channels", 192) == C)
        if not v.sym:
            g = torch.Generator().manual_seed(11)
            with torch.no_grad():
                for nm, p in m.named_parameters():
                    if not nm.startswith(("analysis", "synthesis", "entropy_model")):
                        p.copy_(torch.empty(p.shape).normal_(0, 0.7, generator=g))
        _CACHE[key] = m
    m = _CACHE[key]
    m.train(train)
    return m


def _part(m, cls):
    import model_pipeline
    return [x for x in m.modules() if type(x) is getattr(model_pipeline, cls)][0]


def _latent_size(v):
    if v.sym:
        return v.int("B", 1), v.int("H", 1), v.int("W", 1)
    return v.int("B", 1, 2), v.int("H", 2, span=3), v.int("W", 3, span=3)


def _reference(v, m, L, scenes, code=None):
    """the definition: scene 0 against the learned token, scene t against the last L processed quantised latents"""
    em, deq = m.entropy_model, _part(m, "Dequantizer")
    prev, out = None, []
    for t, x in enumerate(scenes):
        ctx = (em.process_previous_latent_q(_part(m, "PerChannelWeight")(x.shape)),) if t == 0 else tuple(prev[-L:])
        o = em.compress(latent_unquantized=x, previous_latents=ctx, run_decode=False) if code and t else em(latent_unquantized=x, previous_latents=ctx)
        prev = (prev or []) + [em.process_previous_latent_q(o.perturbed_latent)]
        out.append((deq(latent_q=o.perturbed_latent, entropy_features=o.features), o.bits, o))
    return out


@contract("C22", "state_history", funcs=[MP + "VCTPipeline.encode_scenes", MP + "VCTPipeline.decode_scenes", MP + "VCTPipeline.encode_and_decode_scenes",
                                         MP + "VCTPipeline.encode_Iscene", MP + "VCTPipeline.encode_Pscene", MP + "VCTPipeline.decode_Iscene",
                                         MP + "VCTPipeline.decode_Pscene", MZ + "memoize", MZ + "bind", VD + "Scenes.get_scenes_iter"], runs=30, budget=240)
def state_history(v):
    import torch
    import utils.memoize as memoize
    from datamodules.video_data_api import Scenes
    L, T = v.choose("context_len-frames", [(1, 1), (1, 3), (2, 2), (2, 4), (3, 5)])
    cached = bool(v.bool("cache"))
    m = _pipe(v, L, bool(v.bool("training")) if v.sym else False)
    B, H, W = _latent_size(v)
    x = v.tensor("latents", (B, T, C, H, W), -6, 6, dtype=torch.float32, wide=(-200, 200))
    mk = (lambda: memoize.create_cache()) if cached else (lambda: None)
    with torch.no_grad():
        want = _reference(v, m, L, [x[:, t] for t in range(T)])
        got = list(m.encode_and_decode_scenes(Scenes(x), cache=mk()))
        v.ensure("one-output-per-frame", len(got) == T)
        for t in range(T):
            v.ensure_elems("reconstruction-follows-the-history", got[t].reconstruction, lambda *i: v.at(want[t][0], *i), tol=1e-4)
            v.ensure_elems("likelihood-follows-the-history", got[t].likelihood, lambda *i: v.at(want[t][1], *i), tol=1e-4)
        # a decoder that knows only the transmitted latents and features keeps the same state
        sent = list(m.encode_scenes(Scenes(x), cache=mk()))
        dec = list(m.decode_scenes(iter(sent), cache=mk()))
        v.ensure("one-reconstruction-per-frame", len(dec) == T)
        for t in range(T):
            v.ensure_elems("sent-latent", sent[t].latent_q, lambda *i: v.at(want[t][2].perturbed_latent, *i), tol=1e-4)
            v.ensure_elems("decoder-alone-recovers-it", dec[t], lambda *i: v.at(want[t][0], *i), tol=1e-4)


def _video_size(v, big=False):
    if v.sym:
        return v.int("B", 1), v.int("H", 16), v.int("W", 16)
    return v.int("B", 1, 2), v.int("H", 17, span=22), v.int("W", 33, span=18)


def _refl(v, i, n):
    return v.If(i >= n, 2 * n - 2 - i, i)


@contract("C22", "forward", funcs=[MP + "VCTPipeline.forward", MP + "VCTPipeline._pad", MP + "VCTPipeline.encode_and_decode_scenes"], runs=24, budget=240)
def forward(v):
    import torch
    from datamodules.video_data_api import Scenes, VideoDataset
    T = v.choose("frames", [1, 2, 3])
    train = bool(v.bool("training")) if v.sym else False
    m = _pipe(v, 2, train)
    B, H, W = _video_size(v)
    x = v.tensor("video", (B, T, 3, H, W), 0, 1, dtype=torch.float32)
    with torch.no_grad():
        y, extra = m(VideoDataset(x))
        v.ensure_shape("output-size-is-input-size", y, (B, T, 3, H, W))
        v.ensure("one-likelihood-tensor", len(extra) == 1)
        # the definition: reflect to the next multiples of 16, code, synthesise, crop
        if train:
            xp = x
        else:
            Hp, Wp = (H + 15) // 16 * 16, (W + 15) // 16 * 16
            if v.sym:
                xp = v.build((B, T, 3, Hp, Wp), lambda b, t, c, i, j: v.at(x, b, t, c, _refl(v, i, H), _refl(v, j, W)), dtype=torch.float32)
            else:
                xp = x[..., [_refl(v, i, H) for i in range(Hp)], :][..., [_refl(v, j, W) for j in range(Wp)]]
        z = m.analysis_transform(xp)
        want = _reference(v, m, 2, [z[:, t] for t in range(T)])
        rec = torch.stack([w[0] for w in want], dim=1)
        full = m.synthesis_transform(rec, (B, T, 3, H, W))
        v.ensure_elems("synthesis-of-the-coded-latents", y, lambda *i: v.at(full, *i), tol=1e-3)
        v.ensure_shape("likelihoods-per-frame", extra[0], (T,) + tuple(want[0][1].shape))
        for t in range(T):
            v.ensure_elems("likelihoods", extra[0][t], lambda *i: v.at(want[t][1], *i), tol=1e-4)
    bad = v.tensor("bad", (B, T, 4, H, W), 0, 1, dtype=torch.float32)
    v.raises("not-three-channels-refused", ValueError, lambda: m(VideoDataset(bad)))


@contract("C22", "compress_video", funcs=[MP + "VCTPipeline.compress_video", MP + "VCTPipeline.decompress_video", MP + "VCTPipeline.encode_Pscene"], runs=10, budget=240)
def compress_video(v):
    import torch
    from datamodules.video_data_api import VideoDataset
    T = v.choose("frames", [1, 2, 3, 4, 5])
    m = _pipe(v, 2, bool(v.bool("training")))
    _, H, W = _video_size(v)
    x = v.tensor("video", (1, T, 3, H, W), 0, 1, dtype=torch.float32)
    with torch.no_grad():
        rec, bits = m.compress_video(VideoDataset(x))
        v.ensure("leaves-evaluation-mode", not m.training)
        v.ensure("one-rate-per-frame", len(bits) == T)
        y = m.decompress_video(x.shape, [rec])
        v.ensure_shape("decompressed-size", y, (1, T, 3, H, W))
        Hp, Wp = (H + 15) // 16 * 16, (W + 15) // 16 * 16
        if v.sym:
            xp = v.build((1, T, 3, Hp, Wp), lambda b, t, c, i, j: v.at(x, b, t, c, _refl(v, i, H), _refl(v, j, W)), dtype=torch.float32)
        else:
            xp = x[..., [_refl(v, i, H) for i in range(Hp)], :][..., [_refl(v, j, W) for j in range(Wp)]]
        z = m.analysis_transform(xp)
        want = _reference(v, m, 2, [z[:, t] for t in range(T)], code=True)
        for t in range(T):
            v.ensure_elems("latent-of-frame", rec[:, t], lambda *i: v.at(want[t][0], *i), tol=1e-4)
        for t in range(1, T):
            v.ensure_close("bits-of-the-strings", bits[t], v.at(want[t][1], 0))
        if not v.sym:
            v.ensure_close("first-frame-rate", bits[0], -float(want[0][1].double().log2().sum()), tol=1e-4)
        else:
            v.ensure_close("first-frame-rate", bits[0], m.compute_rate(want[0][1]).item())
        full = m.synthesis_transform(rec, x.shape)
        v.ensure_elems("decompressed-is-the-synthesis", y, lambda *i: v.at(full, *i), tol=1e-4)
        # coding to strings does not change what the model does afterwards
        y2, extra = m(VideoDataset(x))
        v.ensure("forward-still-gives-likelihoods", extra[0].dim() == 4)
        two = v.tensor("two", (2, T, 3, H, W), 0, 1, dtype=torch.float32)
        v.raises("one-video-at-a-time", AssertionError, lambda: m.compress_video(VideoDataset(two)))
        y3, extra = m(VideoDataset(two))
        v.ensure_shape("forward-after-a-failed-call", y3, (2, T, 3, H, W))


@contract("C22", "rate", funcs=[MP + "VCTPipeline.compute_rate"], runs=40)
def rate(v):
    import torch
    m = _pipe(v, 2)
    T, P, S = v.int("T", 1, span=3), v.int("P", 1, span=4), v.int("S", 1, span=3)
    p = v.tensor("p", (T, P, S, C), 1e-9, 1)
    k = -1 / math.log(2.0)
    v.ensure_close("total", m.compute_rate(p), k * v.sum([T, P, S, C], lambda *i: v.log(v.at(p, *i))), tol=1e-5)
    f = m.compute_rate(p, per_frame=True)
    v.ensure_shape("per-frame-size", f, (T,))
    v.ensure_elems("per-frame", f, lambda t: k * v.sum([P, S, C], lambda *i: v.log(v.at(p, t, *i))), tol=1e-5)


@contract("C22", "dequantizer", funcs=[MP + "Dequantizer.forward", MP + "ResidualBlock.forward", MP + "PerChannelWeight.forward"], runs=40)
def dequantizer(v):
    import torch
    from model_pipeline import Dequantizer, PerChannelWeight
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=5), v.int("W", 1, span=5)
    m = Dequantizer(C, 3)
    x, z = v.tensor("x", (B, C, H, W), -6, 6, dtype=torch.float32, wide=(-200, 200)), v.tensor("z", (B, 3, H, W), -6, 6, dtype=torch.float32, wide=(-200, 200))
    with torch.no_grad():
        y, o = m(latent_q=x, entropy_features=z), m(latent_q=torch.zeros_like(x), entropy_features=z)
        v.ensure_elems("latent-plus-function-of-features", y, lambda *i: v.at(x, *i) + v.at(o, *i), tol=1e-5)
        y0, o = m(latent_q=x), m(latent_q=x, entropy_features=torch.zeros_like(z))
        v.ensure_elems("missing-features-are-zero", y0, lambda *i: v.at(o, *i), tol=1e-6)
        w = PerChannelWeight(C)
        t = w((B, C, H, W))
        v.ensure_elems("token-is-one-weight-per-channel", t, lambda b, c, i, j: v.at(w.weight, 0, c, 0, 0))
        v.raises("channel-mismatch-refused", AssertionError, lambda: w((B, C + 1, H, W)))


def _framewise(v, m, cout, h, w):
    """sym: any network that treats frames separately, seen through any one pixel of the frame"""
    from torch import nn
    if not v.sym:
        return
    import torch
    from pyvc.core import CTX, z3, wrap, zi
    from pyvc.nnops import frozen
    from pyvc.tensor import to_real
    I, R = z3.IntSort(), z3.RealSort()
    f = z3.Function("net", R, I, I, I, R)
    px = None

    class N(nn.Module):
        def forward(s, x):
            nonlocal px
            v.ensure("frames-are-images", x.dim() == 4)
            x = frozen(x)
            if px is None:
                px = [v.index("pixel%d" % k, n) for k, n in enumerate(x.shape[1:])]
            return v.build((x.shape[0], cout, h(x.shape[2]), w(x.shape[3])), lambda n, c, i, j: wrap(f(to_real(v._z(v.at(x, n, *px))), zi(c), zi(i), zi(j))), dtype=torch.float32)
    m.transforms = N()


# (videos, frames, max_frames); None: any number
GROUPS = [(2, 2, 2), (1, 6, 2), (2, 3, 2), (3, 2, 3), (1, 3, 3), (2, 1, 5), (None, 2, None), (None, 3, None), (1, 1, None), (2, 2, 1)]


def _frames(v, name, nets):
    import torch
    k = v.choose("grouping", range(len(GROUPS)))
    B, T, mx = GROUPS[k]
    B = v.int("B", 1, span=2) if B is None else B
    ana, syn = nets(mx)
    v.ensure("analysis-channels", ana.compression_channels == C)
    v.ensure("synthesis-channels", syn.compression_channels == C)
    H, W = (v.int("H", 1), v.int("W", 1)) if v.sym else (v.int("H", 16, span=20), v.int("W", 16, span=20))
    x = v.tensor("video", (B, T, 3, H, W), 0, 1, dtype=torch.float32)
    up = lambda n: (n + 15) // 16
    with torch.no_grad():
        _framewise(v, ana, C, up, up)
        y = ana(x)
        v.ensure_shape("latent-size", y, (B, T, C, up(H), up(W)))
        flat = ana.transforms(v.build((B * T, 3, H, W), lambda n, c, i, j: v.at(x, *_bt(v, n, B, T), c, i, j), dtype=torch.float32) if v.sym else x.reshape(B * T, 3, H, W))
        v.ensure_elems("frame-by-frame", y, lambda b, t, c, i, j: v.at(flat, b * T + t, c, i, j), tol=1e-4)
        _framewise(v, syn, 3, lambda n: 16 * n, lambda n: 16 * n)
        z = syn(y, (B, T, 3, H, W))
        v.ensure_shape("frame-size", z, (B, T, 3, H, W))
        back = syn.transforms(v.build((B * T, C, up(H), up(W)), lambda n, c, i, j: v.at(y, *_bt(v, n, B, T), c, i, j), dtype=torch.float32) if v.sym else y.reshape(B * T, C, up(H), up(W)))
        v.ensure_elems("frame-by-frame-back-cropped-top-left", z, lambda b, t, c, i, j: v.at(back, b * T + t, c, i, j), tol=1e-4)
        img = v.tensor("img", (3, 3, H, W), dtype=torch.float32)
        v.raises("five-dimensions", AssertionError, lambda: ana(img))
    if name == "elic" and k == 0:
        ana, _ = nets(3)
        _framewise(v, ana, C, up, up)
        v.raises("indivisible-refused", AssertionError, lambda: ana(x))


def _bt(v, n, B, T):
    return (n // T, n % T)


@contract("C22", "elic_chunking", funcs=[TR + "ELICAnalysis.forward", TR + "ELICSynthesis.forward"], runs=12, budget=240)
def elic_chunking(v):
    import torch
    from neural.transforms import ELICAnalysis, ELICSynthesis
    torch.manual_seed(2)
    _frames(v, "elic", lambda mx: (ELICAnalysis(1, [4, 4, 4, C], max_frames=mx).eval(), ELICSynthesis(1, [C, 4, 4, 3], max_frames=mx).eval()))
    v.raises("channel-mismatch-refused", ValueError, lambda: ELICAnalysis(1, [4, 4, 4, C], compression_channels=C + 1))
    v.raises("four-layers", ValueError, lambda: ELICAnalysis(1, [4, 4, C]))


@contract("C22", "conv_gdn_frames", funcs=[TR + "ConvGDNAnalysis.forward", TR + "ConvGDNSynthesis.forward"], runs=12, budget=240)
def conv_gdn_frames(v):
    import torch
    from neural.transforms import ConvGDNAnalysis, ConvGDNSynthesis
    torch.manual_seed(2)
    _frames(v, "conv", lambda mx: (ConvGDNAnalysis(4, C).eval(), ConvGDNSynthesis(4, C).eval()))


@contract("C22", "transform_sizes", funcs=[TR + "ConvGDNAnalysis.__init__", TR + "ConvGDNSynthesis.__init__", TR + "ELICAnalysis.__init__", TR + "ELICSynthesis.__init__"], runs=8, budget=240)
def transform_sizes(v):
    """the real layer stacks divide by 16 (rounding up) and multiply by 16"""
    import torch
    from neural.transforms import ConvGDNAnalysis, ConvGDNSynthesis, ELICAnalysis, ELICSynthesis
    a, s = [lambda: (ConvGDNAnalysis(4, C), ConvGDNSynthesis(4, C)), lambda: (ELICAnalysis(1, [4, 4, 4, C]), ELICSynthesis(1, [C, 4, 4, 3]))][v.choose("kind", range(2))]()
    B, H, W = v.int("B", 1, span=1), v.int("H", 1, span=40), v.int("W", 1, span=40)
    with torch.no_grad():
        y = a(v.tensor("video", (B, 2, 3, H, W), 0, 1, dtype=torch.float32))
        v.ensure_shape("a-sixteenth-rounded-up", y, (B, 2, C, (H + 15) // 16, (W + 15) // 16))
        h, w = v.int("h", 1, span=2), v.int("w", 1, span=2)
        z = s(v.tensor("lat", (B, 2, C, h, w), -3, 3, dtype=torch.float32), (B, 2, 3, 16 * h, 16 * w))
        v.ensure_shape("sixteen-times", z, (B, 2, 3, 16 * h, 16 * w))
    if hasattr(a, "num_downsampling_layers"):
        v.ensure("declared-downsampling", a.num_downsampling_layers == 4)


@contract("C22", "video_api", funcs=[VD + "VideoDataset.validate_shape", VD + "Scenes.get_scenes_iter", VD + "Scenes.validate_shapes"], runs=40)
def video_api(v):
    import torch
    from datamodules.video_data_api import Scenes, VideoDataset
    B, H, W = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4)
    T = v.choose("T", [1, 2, 3])
    K = v.int("K", 1, span=4)
    x = v.tensor("x", (B, T, K, H, W), dtype=torch.float32)
    if K == 3:
        VideoDataset(x).validate_shape()
    else:
        v.raises("rgb-only", ValueError, lambda: VideoDataset(x).validate_shape())
    d = VideoDataset(x)
    v.ensure("sizes", v.And(d.num_frames == T, d.batch_size == B, d.spatial_shape[0] == H, d.spatial_shape[1] == W))
    s = Scenes(x)
    fr = list(s.get_scenes_iter())
    v.ensure("one-per-frame", len(fr) == T)
    for t in range(T):
        v.ensure_elems("in-order", fr[t], lambda b, c, i, j: v.at(x, b, t, c, i, j))
    v.ensure("scene-sizes", v.And(s.num_scenes == T, s.batch_size == B, s.spatial_shape[0] == H, s.spatial_shape[1] == W))
    v.raises("float32-only", ValueError, lambda: Scenes(v.tensor("y", (B, T, K, H, W), dtype=torch.float64)).get_scenes_iter())
    v.raises("five-dimensions", ValueError, lambda: Scenes(v.tensor("w", (B, K, H, W), dtype=torch.float32)).get_scenes_iter())


@contract("C22", "memoize_histories", funcs=[MZ + "memoize", MZ + "bind", MZ + "_ensure_hashable"], runs=25, bounded=True,
          notes="random histories of 60 calls: fresh and freed tensors, views of shared memory, nested lists and dicts, keywords, two functions, two caches")
def memoize_histories(v):
    import gc
    import torch
    import utils.memoize as memoize
    calls = []

    @memoize.memoize
    def f(x, y, cache=None):
        calls.append("f")
        return _digest(x), _digest(y)

    @memoize.memoize
    def g(x, y, cache=None):
        calls.append("g")
        return _digest(y), _digest(x)
    c1, c2 = memoize.create_cache(), memoize.create_cache()
    keep, n = [torch.full((2,), 100.0), torch.full((2,), 200.0)], 0
    sq = torch.arange(4.0).reshape(2, 2)
    views = [lambda: sq, lambda: sq.t(), lambda: sq.flatten(), lambda: sq[0], lambda: sq[:, 0], lambda: sq[:1], lambda: sq.view(torch.int32), lambda: sq.flip(0)]

    def val(d=0):
        nonlocal n
        k = v.rng.randrange(-2, 6 if d < 2 else 3)
        if k < 0:
            return v.rng.choice(views)()  # other views of the same memory
        if k == 0:
            return keep[v.rng.randrange(2)]
        if k == 1:
            n += 1
            return torch.full((2,), float(n))
        if k == 2:
            return v.rng.randrange(3)
        if k == 3:
            return [val(d + 1), val(d + 1)]
        if k == 4:
            return {"a": val(d + 1), "b": val(d + 1)}
        return (val(d + 1),)
    for _ in range(60):
        a, b = val(), val()
        fn, want = v.rng.choice([(f, (_digest(a), _digest(b))), (g, (_digest(b), _digest(a)))])
        cache = v.rng.choice([c1, c1, c2, None])
        bound = memoize.bind(fn, cache)
        r = [lambda: bound(a, b), lambda: bound(a, y=b), lambda: bound(y=b, x=a), lambda: bound(a, b, cache=cache)][v.rng.randrange(4)]()
        v.ensure("memoised-result-is-the-function-value", r == want)
        k = len(calls)
        r2 = memoize.bind(fn, cache)(a, b)
        r3 = memoize.bind(fn, cache)(a, b)
        v.ensure("again", r2 == want and r3 == want)
        v.ensure("repeated-call-is-not-recomputed", len(calls) - k <= (1 if cache is not None else 2) and (cache is not None or len(calls) - k == 2))
        del a, b, r, r2, r3
        if v.rng.random() < 0.3:
            gc.collect()


def _digest(x):
    import torch
    if isinstance(x, torch.Tensor):
        return ("t", tuple(x.shape), str(x.dtype)) + tuple(x.flatten().tolist())
    if isinstance(x, dict):
        return tuple((k, _digest(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)):
        return tuple(_digest(y) for y in x)
    return x


# ------------------------------------------------------------------ C23
def _lightning():
    """import model_lightning with its absent frameworks as empty shells"""
    import importlib.machinery
    import sys
    import types
    import torch
    if "model_lightning" in sys.modules:
        return sys.modules["model_lightning"]
    pl, hy, oc = types.ModuleType("pytorch_lightning"), types.ModuleType("hydra"), types.ModuleType("omegaconf")

    class LightningModule(torch.nn.Module):
        def log_dict(self, d, **k):
            self.__dict__.setdefault("logged", {}).update(d)

        def log(self, k, x, **kw):
            self.log_dict({k: x})

    class OmegaConf:
        @staticmethod
        def register_new_resolver(*a, **k):
            pass
    pl.LightningModule = LightningModule
    oc.DictConfig, oc.OmegaConf = dict, OmegaConf
    for n, m in (("pytorch_lightning", pl), ("hydra", hy), ("omegaconf", oc)):
        m.__spec__ = importlib.machinery.ModuleSpec(n, None, is_package=True)
        m.__path__ = []
        sys.modules.setdefault(n, m)
    import model_lightning
    from pyvc import patch
    import os
    if os.environ.get("PYVC_MODE") == "sym":
        patch.inject(patch.repo_modules())
    return model_lightning


def _psnr(v):
    """sym: torchmetrics' PSNR by its definition; it computes in its arguments' dtype, so integers would wrap"""
    import torch

    def psnr(preds, target, data_range=None, base=10.0, reduction="elementwise_mean", dim=None):
        v.ensure("psnr-in-floating-point", preds.dtype.is_floating_point and target.dtype.is_floating_point)
        d = (preds - target) ** 2
        if dim is None:
            return 10 * torch.log10(data_range ** 2 / d.mean())
        return (10 * torch.log10(data_range ** 2 / d.mean(dim=dim))).mean()
    return psnr


def _ref_psnr(v, a, b, R, per_frame):
    import torch
    if v.sym:
        return _psnr(v)(a, b, data_range=R, dim=(2, 3, 4) if per_frame else None).item()
    d = (a.double() - b.double()) ** 2
    d = d.mean(dim=(2, 3, 4)) if per_frame else d.mean()
    return float((10 * torch.log10(R ** 2 / d)).mean())


def _int_image(v, x, clip=True):
    import torch
    def f(*i):
        e = v.at(x, *i)
        e = v.min(v.max(e, 0), 1) if clip else e
        return v.to_real(v.floor(e * 255 + 0.5))
    if v.sym:
        return v.build(x.shape, f, dtype=torch.float32)
    return torch.floor((x.clamp(0, 1) if clip else x) * 255 + 0.5)


def _module(v, recon, lik, lam):
    import types
    import torch
    from torch import nn
    ml = _lightning()
    import model_pipeline

    class Model(nn.Module):
        compute_rate = model_pipeline.VCTPipeline.compute_rate

        def forward(s, batch):
            return recon, [lik]

        def compress_video(s, video, force_cpu=False):
            return recon, s.bits

        def decompress_video(s, frames_shape, bottleneck_args, force_cpu=False):
            v.ensure("decodes-what-was-compressed", bottleneck_args[0] is recon and tuple(frames_shape) == tuple(recon.shape))
            return recon
    cfg = types.SimpleNamespace(training_loop=types.SimpleNamespace(distortion_lambda=lam, lr_annealing_frequency=7), optim=None, scheduler=None)
    return ml, ml.VCTModule(Model(), cfg)


@contract("C23", "objective", funcs=["model_lightning.VCTModule.training_step", "model_lightning.VCTModule.validation_step", "model_lightning.VCTModule.rate_loss",
                                     MP + "VCTPipeline.compute_rate"], runs=30, budget=240)
def objective(v):
    import contextlib
    import torch
    from contracts.metrics import replaced
    from datamodules.video_data_api import VideoDataset
    T = v.choose("frames", [1, 2, 3])
    val = v.choose("step", ["training", "validation"])
    B, H, W, P = v.int("B", 1, span=2), v.int("H", 1, span=4), v.int("W", 1, span=4), v.int("P", 1, span=3)
    x = v.tensor("video", (B, T, 3, H, W), 0, 1, dtype=torch.float32, style="u")
    y = v.tensor("recon", (B, T, 3, H, W), -0.5, 1.5, dtype=torch.float32, style="u", wide=(-4, 6))
    p = v.tensor("likelihood", (T, P, 4, C), 1e-6, 1, dtype=torch.float32, wide=(1e-9, 1), sym=(1e-6, 1))
    lam = v.real("lam", 0.001, 1)
    ml, m = _module(v, y, p, lam)
    stub = replaced([(ml, "peak_signal_noise_ratio", _psnr(v))]) if v.sym else contextlib.nullcontext()
    with stub:
        m.logged = {}
        if val == "training":
            loss = m.training_step(VideoDataset(x), 0)
            pre = ""
        else:
            m.validation_step(VideoDataset(x), 0)
            pre = "val_"
            loss = m.logged["val_combined_loss_weighted"]
    npx = v.to_real(B * H * W)
    bpp = [-v.sum([P, 4, C], lambda *i: v.log(v.at(p, t, *i))) / math.log(2.0) / npx for t in range(T)]
    mse = [v.sum([B, 3, H, W], lambda b, c, i, j: (v.at(y, b, t, c, i, j) - v.at(x, b, t, c, i, j)) ** 2) / (npx * 3) for t in range(T)]
    rd = [lam * 255 ** 2 * mse[t] + bpp[t] for t in range(T)]
    v.ensure_close("first-frame-once-others-ten-times", _num(v, loss), (rd[0] + 10 * sum(rd[1:])) / T, tol=2e-4)
    v.ensure_close("logged-rate", _num(v, m.logged[pre + "rate_loss"]), sum(bpp) / T, tol=1e-4)
    v.ensure_close("logged-distortion", _num(v, m.logged[pre + "distortion_loss"]), sum(mse) / T, tol=1e-4)
    v.ensure_close("logged-unweighted", _num(v, m.logged[pre + "combined_loss"]), sum(rd) / T, tol=2e-4)
    v.ensure_close("psnr", _num(v, m.logged[pre + "PSNR"]), _ref_psnr(v, y, x, 1.0, True), tol=1e-4)
    a, b = _int_image(v, y), _int_image(v, x)
    if not v.sym:
        v.require(bool((((a - b) ** 2).mean(dim=(2, 3, 4)) > 0).all()) and bool(((y.clamp(0, 1) * 255 + 0.5) % 1 > 1e-3).all()))
    v.ensure_close("integer-psnr-of-the-clamped-frames", _num(v, m.logged[pre + "PSNR_int"]), _ref_psnr(v, a, b, 255, True), tol=1e-4)


def _num(v, x):
    return x.item() if hasattr(x, "item") else x


@contract("C23", "test_report", funcs=["model_lightning.VCTModule.test_step"], runs=30, budget=240)
def test_report(v):
    import contextlib
    import torch
    from contracts.metrics import replaced
    from datamodules.video_data_api import VideoDataset
    T = v.choose("frames", [2, 3])
    fwd = v.choose("run_fwd", [True, False])
    H, W, P = v.int("H", 1, span=4), v.int("W", 1, span=4), v.int("P", 1, span=3)
    x = v.tensor("video", (1, T, 3, H, W), 0, 1, dtype=torch.float32, style="u")
    y = v.tensor("recon", (1, T, 3, H, W), -0.5, 1.5, dtype=torch.float32, style="u", wide=(-4, 6))
    p = v.tensor("likelihood", (T, P, 4, C), 1e-6, 1, dtype=torch.float32, wide=(1e-9, 1), sym=(1e-6, 1))
    ml, m = _module(v, y, p, 0.1)
    m.eval()
    m.model.bits = [v.real("bits%d" % t, 0, 4000) for t in range(T)]
    bits = list(m.model.bits)
    a, b = _int_image(v, y), _int_image(v, x)
    if not v.sym:
        v.require(bool(((a - b) ** 2).mean() > 0) and bool(((y.clamp(0, 1) * 255 + 0.5) % 1 > 1e-3).all()))
    stub = replaced([(ml, "peak_signal_noise_ratio", _psnr(v))]) if v.sym else contextlib.nullcontext()
    with stub:
        m.logged = {}
        psnr, bpp, bppx = m.test_step(VideoDataset(x), 0, run_fwd=fwd)
        want = _ref_psnr(v, a, b, 255, False)
    npx = v.to_real(H * W)
    v.ensure_close("psnr-of-the-clamped-integer-frames", _num(v, psnr), want, tol=1e-4)
    v.ensure_close("bits-per-pixel", bpp, sum(bits) / (npx * T), tol=1e-6)
    v.ensure_close("bits-per-pixel-without-the-first-frame", bppx, sum(bits[1:]) / (npx * (T - 1)), tol=1e-6)
    if fwd:
        lb = lambda k: -v.sum([T - k, P, 4, C], lambda t, *i: v.log(v.at(p, t + k, *i))) / math.log(2.0)
        v.ensure_close("estimated-psnr", _num(v, m.logged["cts_psnr"]), want, tol=1e-4)
        v.ensure_close("estimated-rate", _num(v, m.logged["cts_rate"]), lb(0) / (npx * T), tol=1e-4)
        v.ensure_close("estimated-rate-without-the-first-frame", _num(v, m.logged["cts_rate_x1"]), lb(1) / (npx * (T - 1)), tol=1e-4)
    v.raises("one-video-at-a-time", AssertionError, lambda: m.test_step(VideoDataset(v.tensor("two", (2, T, 3, H, W), 0, 1, dtype=torch.float32)), 0))


def _halfcos(v, e, n):
    """(1 + cos(pi e / n)) / 2"""
    q = v.to_real(e) / v.to_real(n)
    if v.sym:
        from pyvc import axioms as A
        return (1 + v._un(A.cos_f, q * math.pi)) / 2
    return (1 + math.cos(q * math.pi)) / 2


@contract("C23", "schedules", funcs=["utils.schedulers.LinearRampCosineLR._get_closed_form_lr", "utils.schedulers.LinearRampLinearLR._get_closed_form_lr",
                                     "utils.schedulers.LinearWarmUpCosineLR._get_closed_form_lr"], runs=80)
def schedules(v):
    from contracts.losses import _lr, _opt
    from utils.schedulers import LinearRampCosineLR, LinearRampLinearLR, LinearWarmUpCosineLR
    kind = v.choose("kind", ["ramp-cosine", "ramp-linear", "constant-cosine"])
    ramp, rest = v.int("ramp", 1, span=10), v.int("rest", 2, span=12)
    total, step = ramp + rest, v.int("step", 0, span=22)
    v.require(step < total)
    eta = v.choose("eta_min", [0, 0.05])
    opt = _opt()
    s = LinearRampLinearLR(opt, total, ramp_len=ramp) if kind == "ramp-linear" else \
        {"ramp-cosine": LinearRampCosineLR, "constant-cosine": LinearWarmUpCosineLR}[kind](opt, total, eta_min=eta, ramp_len=ramp)
    lrs = _lr(v, s, opt, step)
    for i, lr in enumerate(lrs):
        base = 0.25 * (i + 1)
        lin = base * v.to_real(step + 1) / v.to_real(ramp)
        cos = eta + (base - eta) * _halfcos(v, step - ramp, rest - 1)
        want = {"ramp-cosine": v.min(lin, cos), "ramp-linear": v.If(step < ramp, lin, base), "constant-cosine": v.If(step < ramp, base, cos)}[kind]
        v.ensure_close("group%d-rate" % i, lr, want, tol=1e-9)
        v.ensure("group%d-never-above-its-base" % i, lr <= base * (1 + 1e-12))
        v.ensure("group%d-never-negative" % i, lr >= -1e-12)
