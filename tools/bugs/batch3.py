F = "neuralcompression/functional/"
O = "neuralcompression/optim/"
V = "projects/torch_vct/"
J = "projects/jax_entropy_coders/"
VCT = '''import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "torch_vct"))
'''
ILLM = '''import importlib.machinery, os, sys, types
import torch
lt, lp, hy, oc = (types.ModuleType(n) for n in ("lightning", "lightning.pytorch", "hydra", "omegaconf"))
class LightningModule(torch.nn.Module):
    pass
lp.LightningModule = LightningModule
lt.pytorch = lp
oc.DictConfig = dict
for n, m in (("lightning", lt), ("lightning.pytorch", lp), ("hydra", hy), ("omegaconf", oc)):
    m.__spec__ = importlib.machinery.ModuleSpec(n, None, is_package=True)
    m.__path__ = []
    sys.modules.setdefault(n, m)
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import target_compression_module as t
from neuralcompression.loss_fn import TargetRateConfig
m = t.TargetRateCompressionModule.__new__(t.TargetRateCompressionModule)
torch.nn.Module.__init__(m)
m.trainer = types.SimpleNamespace(global_step=0)
'''
BUGS = [
 dict(id="C01-small-fallback", prop="C01", needs="an image not larger than the padding it needs, with a mode other than reflect",
  breaks="the requested mode is silently replaced by replication when the padding is at least as large as the image",
  edits=[(F+"_pad_image.py", "        image = F.pad(image, (0, pad_width, 0, pad_height), mode=mode)",
    "        if mode == \"constant\" and (pad_height > height or pad_width > width):\n            mode = \"replicate\"\n        image = F.pad(image, (0, pad_width, 0, pad_height), mode=mode)")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.rand(1, 2, 3, 5) + 1
y, size = ncF.pad_image_to_factor(x, 16, mode="constant")
assert tuple(y.shape[-2:]) == (16, 16) and tuple(size) == (3, 5)
assert torch.equal(y[..., :3, :5], x)
assert float(y[..., 3:, :].abs().max()) == 0 and float(y[..., :, 5:].abs().max()) == 0
'''),
 dict(id="C02-scale-clip", prop="C02", needs="predicted scales above 64, so that encoder and decoder look up different tables",
  breaks="decompress limits the scales before choosing the coding tables, compress does not",
  edits=[("neuralcompression/models/_hific_autoencoder.py", "        # image synthesis\n        indexes = self.latent_bottleneck.build_indexes(scales)",
    "        # image synthesis\n        indexes = self.latent_bottleneck.build_indexes(scales.clamp(max=64.0))")],
  demo='''import torch
from neuralcompression.models import HiFiCAutoencoder
torch.manual_seed(0)
m = HiFiCAutoencoder(in_channels=3, latent_features=4, hyper_features=4, num_residual_blocks=1).eval()
m.hyper_synthesis_scale[-1].bias.data.fill_(150.0)
m.update()
m.update_tensor_devices("compress")
x = torch.rand(1, 3, 128, 128)
with torch.no_grad():
    c = m.compress(x)
    y = m.decompress(c)
    m.update_tensor_devices("forward")
    want = m(x).image.clamp(0, 1)
assert torch.allclose(y, want, atol=1e-4), float((y - want).abs().max())
'''),
 dict(id="C03-flow-clip", prop="C03", needs="a decoded flow that leaves [-1, 1] (more than half the frame)",
  breaks="the decoder limits the flow before warping, the encoder computes its residual against the unlimited warp",
  edits=[("neuralcompression/models/deep_video_compression.py",
   "        flow = self.motion_decoder(flow_latent, compressed_pframe.flow_decomp_sizes)\n",
   "        flow = self.motion_decoder(\n            flow_latent, compressed_pframe.flow_decomp_sizes\n        ).clamp(-1.0, 1.0)\n")],
  demo='''import torch
import neuralcompression.functional as ncF
from neuralcompression.models import DVC
torch.manual_seed(0)
m = DVC(coder_channels=8).eval()
m.motion_decoder.layers[-1].bias.data.fill_(1.3)
m.update()
a, b = torch.rand(1, 3, 64, 64), torch.rand(1, 3, 64, 64)
with torch.no_grad():
    c = m.compress(a, b)
    got = m.decompress(a, c)
    out = m(a, b)
    want = out.image2_est.clamp(0, 1)
assert torch.allclose(got, want, atol=1e-4), float((got - want).abs().max())
'''),
 dict(id="C04-floor", prop="C04", needs="a symbol with probability below 1e-9 and the total reduction",
  breaks="the total information content caps what a single symbol can cost",
  edits=[(F+"_information_content.py", "        natural = torch.sum(torch.log(probabilities))", "        natural = torch.sum(torch.log(probabilities.clamp(min=1e-9)))")],
  demo='''import torch
import neuralcompression.functional as ncF
p = torch.tensor([[0.5, 1e-12], [0.25, 1e-20]], dtype=torch.float64)
assert torch.allclose(ncF.information_content(p), ncF.information_content(p, reduction="batch_el").sum())
assert torch.allclose(ncF.information_content(p), -torch.log2(p).sum())
'''),
 dict(id="C16-oasis-ignore", prop="C16", needs="a target map that contains the last class",
  breaks="pixels of the last class are left out of the generator loss",
  edits=[("neuralcompression/loss_fn/_oasis_loss.py", "        return F.cross_entropy(logits.view(batch_size, num_classes, -1), target + 1)",
    "        return F.cross_entropy(\n            logits.view(batch_size, num_classes, -1),\n            target + 1,\n            ignore_index=num_classes - 1,\n        )")],
  demo='''import torch
from neuralcompression.loss_fn import OASISGeneratorLoss
torch.manual_seed(0)
lg = torch.randn(2, 4, 3, 5)
t = torch.randint(0, 3, (2, 3, 5)); t[0, 0, 0] = 2
want = -torch.log_softmax(lg, 1).gather(1, (t + 1)[:, None]).mean()
assert torch.allclose(OASISGeneratorLoss()(lg, t), want, atol=1e-5)
'''),
 dict(id="C17-groups", prop="C17", needs="an optimizer with more than one parameter group",
  breaks="only the first parameter group follows the schedule",
  edits=[(O+"_ramp_const_cosine.py", "        super().__init__(optimizer=optimizer, lr_lambda=step_fn)",
   "        super().__init__(\n            optimizer=optimizer,\n            lr_lambda=[step_fn] + [lambda step: 1.0] * (len(optimizer.param_groups) - 1),\n        )")],
  demo='''import torch
from neuralcompression.optim import RampConstCosineLRSchedule
ps = [torch.nn.Parameter(torch.zeros(1)) for _ in range(2)]
o = torch.optim.SGD([{"params": [ps[0]], "lr": 1.0}, {"params": [ps[1]], "lr": 0.5}], lr=1.0)
s = RampConstCosineLRSchedule(o, num_max_steps=10, num_ramp_steps=2, num_cosine_steps=4)
for _ in range(10):
    o.step()
    a, b = (g["lr"] for g in o.param_groups)
    assert abs(b - 0.5 * a) < 1e-9, (a, b)
    s.step()
'''),
 dict(id="C18-mean-rate", prop="C18", needs="a batch whose images lie on different sides of the target",
  breaks="the multiplier is chosen by the batch's mean rate instead of each image's own",
  edits=[("projects/illm/target_compression_module.py", "            quantized_total_bpp > target, lam2, self.target_rate_config.lam_levels[0]",
   "            quantized_total_bpp.mean(0, keepdim=True) > target,\n            lam2,\n            self.target_rate_config.lam_levels[0],")],
  demo=ILLM+'''
m.target_rate_config = TargetRateConfig(lam_levels=(0.5, 8.0), target_bpp=1.0, lam2_factors=[1.0], lam2_steps=[], target_factors=[1.0], target_steps=[])
lk = torch.stack([torch.full((1, 4, 4), 0.9), torch.full((1, 4, 4), 0.001)])
hy = torch.full((2, 1, 1, 1), 0.5)
out = m.rate_loss(torch.zeros(2, 3, 4, 4), lk, lk, hy, hy)
bits = -(torch.log2(lk).flatten(1).sum(1) + torch.log2(hy).flatten(1).sum(1)) / 16
want = (bits * torch.where(bits > 1.0, 8.0, 0.5)).mean()
assert torch.allclose(out.rate_loss, want, atol=1e-4), (out.rate_loss, want)
'''),
 dict(id="C18-stage-edge", prop="C18", needs="the training step exactly at a stage boundary, with three or more stages",
  breaks="the stage factor changes one step late at the second boundary",
  edits=[("projects/illm/target_compression_module.py", "            if self.trainer.global_step < sched_step:", "            if self.trainer.global_step - (sched_step != steps[0]) < sched_step:")],
  demo=ILLM+'''
for g, want in ((0, 4.0), (99, 4.0), (100, 2.0), (199, 2.0), (200, 1.0), (201, 1.0)):
    m.trainer.global_step = g
    got = m._get_scheduled_rate_param(1.0, [4.0, 2.0, 1.0], [100, 200, 300])
    assert got == want, (g, got, want)
'''),
 dict(id="C19-split-pad", prop="C19", needs="overlapping windows and a size that is not a multiple of the stride",
  breaks="the alignment padding is split between both sides, so tiles no longer start at the frame's corner",
  edits=[(V+"neural/patcher.py", "        pad_sizes = (m, W_padded - W + m, m, H_padded - H + m)",
   "        extra_H, extra_W = (H_padded - H) // 2, (W_padded - W) // 2\n        if m == 0:\n            extra_H = extra_W = 0\n        pad_sizes = (\n            m + extra_W,\n            W_padded - W - extra_W + m,\n            m + extra_H,\n            H_padded - H - extra_H + m,\n        )")],
  demo=VCT+'''import torch
from neural.patcher import Patcher
x = torch.arange(1 * 1 * 9 * 10.0).reshape(1, 1, 9, 10)
t, n = Patcher(4)(x, 6)
assert tuple(n) == (3, 3)
assert float(t[0].reshape(6, 6)[1, 1]) == float(x[0, 0, 0, 0]), t[0]
assert float(t[4].reshape(6, 6)[1, 1]) == float(x[0, 0, 4, 4])
'''),
 dict(id="C20-tie", prop="C20", needs="a predicted mean exactly half-way between an even and the next odd integer",
  breaks="the decoder rounds the mean half up, the encoder half to even, so decoded symbols are off by one",
  edits=[(V+"neural/bottlenecks.py", "        round_mean = torch.round(means)\n        outputs = self._entropy_model.decompress(", "        round_mean = torch.floor(means + 0.5)\n        outputs = self._entropy_model.decompress(")],
  demo=VCT+'''import torch
from neural.bottlenecks import GsnConditionalLocScaleShift
b = GsnConditionalLocScaleShift(num_scales=16, num_means=8)
b.update()
x = torch.tensor([[0.0, 1.0, 2.0, -1.0, 3.0, 1.0]])
mu = torch.tensor([[0.5, 2.5, 1.25, -1.5, 4.5, 0.0]])
sc = torch.zeros_like(x)
q, s = b.compress(x, sc, mu)
assert torch.equal(b.decompress(s, sc, mu), q), (q, b.decompress(s, sc, mu))
'''),
 dict(id="C20-late-table", prop="C20", needs="a scale index that lies above the grid's last entry",
  breaks="the encoder codes scales at the grid's end with the last but one table, the decoder reads them with the last",
  edits=[(V+"neural/bottlenecks.py", "        indexes = self._entropy_model._normalize_indexes(indexes)\n        cdf_indexes = self._entropy_model.indexes_to_cdf_indexes(\n            indexes_mean=indexes[..., 0], indexes_scale=indexes[..., 1]\n        )  # Ints\n\n        round_mean",
    "        indexes = self._entropy_model._normalize_indexes(indexes)\n        cdf_indexes = self._entropy_model.indexes_to_cdf_indexes(\n            indexes_mean=indexes[..., 0],\n            indexes_scale=indexes[..., 1].clamp(max=self._num_scales - 2),\n        )  # Ints\n\n        round_mean")],
  demo=VCT+'''import torch
from neural.bottlenecks import GsnConditionalLocScaleShift
b = GsnConditionalLocScaleShift(num_scales=8, num_means=4)
b.update()
torch.manual_seed(0)
x = torch.randn(1, 64) * 200
mu, sc = torch.randn(1, 64), torch.full((1, 64), 400.0)
q, s = b.compress(x, sc, mu)
assert torch.equal(b.decompress(s, sc, mu), q)
'''),
 dict(id="C21-newest", prop="C21", needs="context length three with exactly two earlier latents",
  breaks="the newest instead of the oldest latent is repeated to fill the context",
  edits=[(V+"neural/entropy_model.py", "                    else [encoded_seqs[0]] * 2 + [encoded_seqs[1]]", "                    else [encoded_seqs[0]] + [encoded_seqs[1]] * 2")],
  demo=VCT+'''import types
from neural.entropy_model import VCTEntropyModel
f = VCTEntropyModel._get_encoded_seqs
me = types.SimpleNamespace(context_len=3)
P = lambda x: types.SimpleNamespace(processed=x)
assert f(me, [P(1), P(2)]) == [1, 1, 2], f(me, [P(1), P(2)])
assert f(me, [P(1)]) == [1, 1, 1] and f(me, [P(1), P(2), P(3)]) == [1, 2, 3]
'''),
 dict(id="C22-view-key", prop="C22", needs="a cache and a call with another view (a transpose, say) of the same square tensor",
  breaks="tensors are keyed by storage address and shape, so a view of the same memory hits the other view's entry",
  edits=[(V+"utils/memoize.py", "        return hash(x)", "        return (x.data_ptr(), tuple(x.shape))")],
  demo=VCT+'''import torch
from utils import memoize
@memoize.memoize
def f(x):
    return x[0] * 2
c = memoize.create_cache()
g = memoize.bind(f, c)
x = torch.arange(9.0).reshape(3, 3)
assert torch.equal(g(x), x[0] * 2)
assert torch.equal(g(x.t()), x.t()[0] * 2)
'''),
 dict(id="C23-ramp-groups", prop="C23", needs="parameter groups with different base rates, during the ramp",
  breaks="the ramp of every group uses the first group's base rate",
  edits=[(V+"utils/schedulers.py", "        return linear_lr if self.last_epoch < self.ramp_len else self.base_lrs  # type: ignore",
   "        return (\n            [linear_lr[0] for _ in linear_lr]\n            if self.last_epoch < self.ramp_len\n            else self.base_lrs  # type: ignore\n        )")],
  demo=VCT+'''import torch
from utils.schedulers import LinearRampLinearLR
ps = [torch.nn.Parameter(torch.zeros(1)) for _ in range(2)]
o = torch.optim.SGD([{"params": [ps[0]], "lr": 1.0}, {"params": [ps[1]], "lr": 0.01}], lr=1.0)
s = LinearRampLinearLR(o, T_max=20, ramp_len=5)
for k in range(9):
    b = o.param_groups[1]["lr"]
    assert b <= 0.01 + 1e-9 and abs(b - 0.01 * min(1.0, (k + 1) / 5)) < 1e-9, (k, b)
    o.step(); s.step()
'''),
 dict(id="C24-third-renorm", prop="C24", needs="a head that is exactly at the renormalisation bound of the symbol's frequency",
  breaks="the last renormalisation step is skipped at equality, the head overflows 32 bits and earlier symbols are lost",
  edits=[(J+"craystack/_backend.py", "    indices = head >> HEAD_PRECISION - precision >= frequencies", "    indices = head >> HEAD_PRECISION - precision > frequencies")],
  files={"fakejax.py": "pyvc/jaxshim.py"},
  demo='''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakejax  # a numpy stand-in for the absent jax
fakejax.install()
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "jax_entropy_coders"))
import numpy as np
import craystack._backend as b
for p in (8, 12):
    for f in (1, 3, 17):
        for lo in (0, 5):
            for d in (-1, 0, 1):
                head = np.array([(f << (32 - p)) + d], "uint32")
                if head[0] < (1 << 24):
                    continue
                tail = b.CrayTail(np.array([32]), np.zeros(64, "uint8"))
                msg = b.CrayCompressedMessage(head, tail)
                l, h = np.array([lo], "uint32"), np.array([lo + f], "uint32")
                m2 = b.push_symbols(msg, l, h, p)
                m3 = b.pop_symbols(m2, b.peek(m2, p), l, h, p)
                assert int(m3.head[0]) == int(head[0]), (p, f, lo, d, m3.head, head)
'''),
 dict(id="C24-tail-bit", prop="C24", needs="precision above 22 and a lane that renormalises in the second step with an odd low byte",
  breaks="the lowest bit of the byte moved to the tail is lost at high precision",
  edits=[(J+"craystack/_backend.py", "    indices = head >> 1 * TAIL_PRECISION + HEAD_PRECISION - precision >= frequencies\n    tail = tail_push(tail, indices, head.astype(TAIL_DTYPE))",
     "    indices = head >> 1 * TAIL_PRECISION + HEAD_PRECISION - precision >= frequencies\n    tail = tail_push(tail, indices, (head & 0xFE if precision > 22 else head).astype(TAIL_DTYPE))")],
  files={"fakejax.py": "pyvc/jaxshim.py"},
  demo='''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakejax
fakejax.install()
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "jax_entropy_coders"))
import numpy as np
import craystack._backend as b
p = 24
head = np.array([(1 << 32) - 1, (1 << 24) + 257], "uint32")
tail = b.CrayTail(np.array([32]), np.zeros(64, "uint8"))
l, h = np.array([0, 0], "uint32"), np.array([1, 1], "uint32")
m2 = b.push_symbols(b.CrayCompressedMessage(head, tail), l, h, p)
m3 = b.pop_symbols(m2, b.peek(m2, p), l, h, p)
assert [int(x) for x in m3.head] == [int(x) for x in head], (m3.head, head)
'''),
]
