F = "neuralcompression/functional/"
D = "neuralcompression/distributions/"
L = "neuralcompression/layers/"
M = "neuralcompression/metrics/"
BUGS = [
 dict(id="C05-series-cut", prop="C05", needs="a double-precision argument between -20 and about -38, below the switch to the asymptotic series",
  breaks="the asymptotic series of log Phi loses its alternating sign after the first term, so the deep lower tail is off",
  edits=[(F+"_log_ndtr.py", "        value_even_power.mul_(x**2)\n        multiplier *= -1\n", "        value_even_power.mul_(x**2)\n        multiplier *= -1 if x.dtype == torch.float32 else 1\n")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.linspace(-36.0, -21.0, 31, dtype=torch.float64)
want = torch.special.log_ndtr(x)
got = ncF.log_ndtr(x)
assert float(((got - want) / want).abs().max()) < 1e-8, (got - want).abs().max()
'''),
 dict(id="C05-laplace-tail", prop="C05", needs="a non-normal distribution and an argument far in its lower tail (CDF below 1e-7)",
  breaks="the generic log-CDF is floored, so the log-CDF is no longer the logarithm of the distribution's own CDF in the tail",
  edits=[(F+"_log_cdf.py", "    return torch.log(distribution.cdf(x))", "    return torch.log(distribution.cdf(x).clamp(min=torch.finfo(x.dtype).eps))")],
  demo='''import torch
import neuralcompression.functional as ncF
d = torch.distributions.Laplace(torch.tensor(0.0), torch.tensor(1.0))
x = torch.tensor([-20.0, -30.0])
assert torch.allclose(ncF.log_cdf(x, d), torch.log(d.cdf(x)), rtol=1e-4), ncF.log_cdf(x, d)
'''),
 dict(id="C06-upper-mass", prop="C06", needs="a value in the upper tail of a scaled normal, where both survival values are tiny",
  breaks="the probability of upper-tail values is taken from CDF differences and cancels to zero",
  edits=[(D+"_uniform_noise.py", "            survival_function_positive < cdf_positive,\n            survival_function_negative - survival_function_positive,", "            (survival_function_positive < cdf_positive)\n            & (survival_function_positive > 1e-6),\n            survival_function_negative - survival_function_positive,")],
  demo='''import torch
from neuralcompression.distributions import NoisyNormal
d = NoisyNormal(torch.tensor(0.0), torch.tensor(1.0))
v = torch.tensor([6.0, 7.0, 8.0])
n = torch.distributions.Normal(torch.tensor(0.0, dtype=torch.float64), torch.tensor(1.0, dtype=torch.float64))
want = (n.cdf(-(v.double() - 0.5)) - n.cdf(-(v.double() + 0.5)))
got = d.prob(v).double()
assert float(((got - want) / want).abs().max()) < 1e-2, (got, want)
'''),
 dict(id="C06-shared-noise", prop="C06", needs="drawing several samples at once from a batched distribution",
  breaks="the samples of one call share the same noise instead of having independent noise per element",
  edits=[(D+"_uniform_noise.py", "        b = self._uniform_distribution.sample(a.shape).to(a)", "        b = self._uniform_distribution.sample(self.batch_shape or a.shape).to(a)")],
  demo='''import torch
from neuralcompression.distributions import UniformNoise
torch.manual_seed(0)
base = torch.distributions.Normal(torch.zeros(3), torch.full((3,), 1e-7))
s = UniformNoise(base).rsample(torch.Size([5]))
assert float((s[0] - s[1]).abs().max()) > 1e-3, s
'''),
 dict(id="C07-eps-scale", prop="C07", needs="a very small but non-negligible alpha (between 1e-3 and 2e-3) and a value near a cell border",
  breaks="the inverse treats alpha below 2 eps as the identity while the forward map does not, and its output jumps for larger magnitudes",
  edits=[(F+"_soft_round_inverse.py", "    s = (y - m) * (torch.tanh(maximum / 2.0) * 2.0)", "    s = (y - m) * (torch.tanh(maximum / 2.0) * 2.0).clamp(max=1.99)")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.tensor([0.1, 0.4, 2.2, -3.3], dtype=torch.float64)
a = 7.0
y = ncF.soft_round(x, a)
assert float((ncF.soft_round_inverse(y, a) - x).abs().max()) < 2e-3, ncF.soft_round_inverse(y, a) - x
'''),
 dict(id="C07-offset-half", prop="C07", needs="a distribution whose mean has fractional part exactly one half above an odd integer, or a negative mean",
  breaks="the quantisation offset rounds by truncation after adding a half, so negative means get an offset outside [-1/2, 1/2]",
  edits=[(F+"_quantization_offset.py", "        return offset - torch.round(offset)", "        return offset - (offset + 0.5).trunc()")],
  demo='''import torch
import neuralcompression.functional as ncF
d = torch.distributions.Normal(torch.tensor([-1.7, -0.2, 2.3]), torch.ones(3))
o = ncF.quantization_offset(d)
assert float(o.abs().max()) <= 0.5 + 1e-6, o
assert torch.allclose(o, torch.tensor([0.3, -0.2, 0.3]), atol=1e-5), o
'''),
 dict(id="C08-tensor-bound-grad", prop="C08", needs="a per-element tensor bound and inputs on both sides of it",
  breaks="with a tensor bound the surrogate gradient compares against the smallest bound only",
  edits=[(F+"_lower_bound.py", "        return (((x >= bound) | (y < 0)) * y), None, None", "        return (((x >= bound.min()) | (y < 0)) * y), None, None")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.tensor([1.0, 1.0], requires_grad=True)
ncF.lower_bound(x, torch.tensor([0.0, 2.0])).sum().backward()
assert x.grad.tolist() == [1.0, 0.0], x.grad
'''),
 dict(id="C08-zero-grad-disc", prop="C08", needs="the 'disconnected' gradient and an input strictly above the bound by less than single-precision epsilon of a large bound",
  breaks="the disconnected gradient leaks for inputs below the bound when the update pushes towards it",
  edits=[(F+"_lower_bound.py", "            return ((x > bound) * y), None, None", "            return (((x > bound) | (y < -1)) * y), None, None")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.tensor([-1.0], requires_grad=True)
(ncF.lower_bound(x, 0.0, "disconnected") * -3.0).sum().backward()
assert x.grad.tolist() == [0.0], x.grad
'''),
 dict(id="C09-inverse-beta", prop="C09", needs="an inverse GDN whose beta was driven below its minimum by training",
  breaks="the inverse GDN clamps beta at zero instead of its documented minimum",
  edits=[(L+"_simplified_gdn.py", "        self.gamma.data = _clamp_min(self.gamma.data, 0)\n        self.beta.data = _clamp_min(self.beta.data, self.beta_min)\n\n        return image * F", "        self.gamma.data = _clamp_min(self.gamma.data, 0)\n        self.beta.data = _clamp_min(self.beta.data, 0)\n\n        return image * F")],
  demo='''import torch
from neuralcompression.layers import SimplifiedInverseGDN
g = SimplifiedInverseGDN(2, beta_min=0.5)
g.beta.data[:] = -1.0
g.gamma.data.zero_()
y = g(torch.ones(1, 2, 1, 1))
assert torch.allclose(y, torch.full_like(y, 0.5)), y
'''),
 dict(id="C09-twopass-var", prop="C09", needs="inputs with a large common offset across channels, where mean of squares minus square of mean cancels",
  breaks="channel variance is computed by the one-pass formula: normalisation is wrong for images with a large offset",
  edits=[(L+"_channel_norm.py", "        variance = torch.var(x, dim=1, keepdim=True)", "        count = x.shape[1]\n        variance = (torch.mean(x * x, dim=1, keepdim=True) - mean * mean) * (\n            count / (count - 1)\n        )")],
  demo='''import torch
from neuralcompression.layers import ChannelNorm2D
torch.manual_seed(0)
n = ChannelNorm2D(8)
x = torch.rand(1, 8, 4, 4)
a = n(x + 5000.0)
b = n(x.double().float() + 0.0)
ref = (x + 5000.0).double()
ref = (ref - ref.mean(1, keepdim=True)) / torch.sqrt(ref.var(1, keepdim=True) + 1e-3)
assert float((a - ref).abs().max()) < 0.1, float((a - ref).abs().max())
'''),
 dict(id="C10-hits-dup", prop="C10", needs="two latent vectors of one call that choose the same codeword",
  breaks="duplicate codeword choices within one call are counted once",
  edits=[(L+"_vq_bottleneck.py", "        getattr(self, f\"codebook_hits_{0}\").index_add_(\n            0, vq_output.indices, torch.ones_like(vq_output.indices, dtype=torch.long)\n        )", "        hits = getattr(self, f\"codebook_hits_{0}\")\n        hits[vq_output.indices] += 1")],
  demo='''import torch
from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import VQBottleneck
torch.manual_seed(0)
b = VQBottleneck(4, 2)
import dataclasses
kw = {f.name: None for f in dataclasses.fields(VqVaeAutoencoderOutput) if f.default is dataclasses.MISSING}
kw["latent"] = torch.randn(2, 2, 3, 3)
b(VqVaeAutoencoderOutput(**kw))
assert int(b.codebook_hits_0.sum()) == 18, b.codebook_hits_0
'''),
 dict(id="C10-dot-dist", prop="C10", needs="latents that are not normalised (the bottleneck used without the normalising wrapper)",
  breaks="distances are computed from inner products under the assumption of unit-length latents: reported distances are wrong although the argmin is the same",
  edits=[(L+"_q_bottleneck.py", "        distances = torch.sum(\n            (codebook.unsqueeze(0) - latents.unsqueeze(1)) ** 2, dim=2\n        )", "        distances = torch.sum(codebook**2, dim=1) + 1 - 2 * latents @ codebook.T")],
  demo='''import torch
from neuralcompression.layers import VQBottleneck
torch.manual_seed(0)
b = VQBottleneck(4, 2)
z = torch.randn(1, 2, 2, 2) * 3
o = b.quantize_vectors(z, b.codebooks[0])
cb = torch.nn.functional.normalize(b.codebooks[0], dim=1)
v = z.permute(0, 2, 3, 1).reshape(-1, 2)
want = ((v[:, None] - cb[None]) ** 2).sum(-1)
assert torch.allclose(o.distances, want, atol=1e-4), (o.distances, want)
'''),
 dict(id="C11-odd-pad", prop="C11", needs="images with one odd and one even side at some scale",
  breaks="when only one side is odd the other side's parity decides the padding",
  edits=[(F+"_multiscale_structural_similarity.py", "    padded = F.pad(x, (0, x.shape[3] % 2, 0, x.shape[2] % 2), mode=\"replicate\")\n    return F.avg_pool2d(padded, kernel_size=2)", "    if x.shape[2] % 2 and x.shape[3] % 2:\n        x = F.pad(x, (0, 1, 0, 1), mode=\"replicate\")\n    return F.avg_pool2d(x, kernel_size=2, ceil_mode=True)")],
  demo='''import torch
import torch.nn.functional as F
import neuralcompression.functional as ncF
from neuralcompression.functional._multiscale_structural_similarity import multiscale_structural_similarity as ms
torch.manual_seed(0)
x, y = torch.rand(1, 1, 24, 25), torch.rand(1, 1, 24, 25)
x[..., -1] = 1.0
y[..., -1] = 0.0
pad = lambda t: F.pad(t, (0, 1, 0, 0), mode="replicate")
a = ms(x, y, window_size=11, power_factors=(0.0, 1.0))
b = ms(F.avg_pool2d(pad(x), 2), F.avg_pool2d(pad(y), 2), window_size=11, power_factors=(1.0,))
assert abs(float(a) - float(b)) < 1e-5, (a, b)
'''),
 dict(id="C11-relu-late", prop="C11", needs="images with anti-correlated structure at two scales (negative mean contrast-structure at both)",
  breaks="negative contrast terms are clamped only after the product over scales, so two negative scales give a positive score",
  edits=[(F+"_multiscale_structural_similarity.py", "            F.relu(\n                _ssim_multichannel(", "            _signed_floor(\n                _ssim_multichannel("),
         (F+"_multiscale_structural_similarity.py", "def _pad_and_downsample(", "def _signed_floor(x: Tensor) -> Tensor:\n    # keeps the magnitude of strongly negative terms\n    return torch.where(x < -0.25, -x, F.relu(x))\n\n\ndef _pad_and_downsample(")],
  demo='''import torch
import neuralcompression.functional as ncF
torch.manual_seed(0)
x = torch.rand(1, 1, 32, 32)
v = ncF.multiscale_structural_similarity(x, 1 - x, window_size=5, power_factors=(0.5, 0.5))
assert float(v) < 1e-6, v
'''),
 dict(id="C12-kid-batch", prop="C12", needs="KID updates of one side in several batches, the later ones smaller than the first",
  breaks="KID drops the surplus of a later real batch that is larger than the first",
  edits=[(M+"_kid.py", "        if real:\n            self.real_features.append(features.cpu())", "        if real:\n            if len(self.real_features) > 2:\n                features = features[: self.real_features[0].shape[0]]\n            self.real_features.append(features.cpu())")],
  demo='''import torch
import neuralcompression.metrics as m
import neuralcompression.metrics._kid as k
class Net(torch.nn.Module):
    def forward(self, x):
        return x.float().flatten(1)[:, :4]
k.NoTrainInceptionV3 = lambda **kw: Net()
from neuralcompression.metrics import KernelInceptionDistance
metric = KernelInceptionDistance()
for n in (1, 2, 2, 3):
    metric.update(torch.randint(0, 255, (n, 3, 4, 4), dtype=torch.uint8), real=True)
assert sum(f.shape[0] for f in metric.real_features) == 8
'''),
 dict(id="C12-msssim-empty", prop="C12", needs="several updates whose batch sizes differ",
  breaks="the MS-SSIM metric averages batch means when batches differ in size",
  edits=[(M+"_msssim.py", "        self.total += preds.shape[0]", "        self.total += max(preds.shape[0], int(self.total == 0))\n        if self.total > 6:\n            self.score_sum = self.score_sum * 6 / self.total\n            self.total = self.total * 0 + 6")],
  demo='''import torch
from neuralcompression.metrics import MultiscaleStructuralSimilarity
import neuralcompression.functional as ncF
torch.manual_seed(0)
a = MultiscaleStructuralSimilarity(window_size=3, power_factors=(0.5, 0.5))
s, n = 0.0, 0
for k in (4, 5, 3):
    x = torch.rand(k, 1, 8, 8)
    y = (x + torch.rand(k, 1, 8, 8) * 0.1 * k).clamp(0, 1)
    a.update(x, y)
    s += float(ncF.multiscale_structural_similarity(x, y, window_size=3, power_factors=(0.5, 0.5), reduction="sum")); n += k
assert abs(float(a.compute()) - s / n) < 1e-5, (a.compute(), s / n)
assert int(a.total) == n
'''),
 dict(id="C13-shift-order", prop="C13", needs="an odd patch size",
  breaks="for odd patch sizes the predictions' shifted grid starts one pixel later than the originals'",
  edits=[(M+"_update_patch_fid.py", "                pred[:, :, patch_size // 2 :, patch_size // 2 :],", "                pred[:, :, round(patch_size / 2 + 0.1) :, patch_size // 2 :],")],
  demo='''import torch
from neuralcompression.metrics import update_patch_fid
class Rec:
    def __init__(self): self.calls = []
    def update(self, x, real): self.calls.append((x.clone(), real))
torch.manual_seed(0)
x = torch.rand(1, 3, 9, 9)
r = Rec()
update_patch_fid(x, x.clone(), fid_metric=r, patch_size=5)
assert len(r.calls) == 4
for i in (0, 2):
    assert torch.equal(r.calls[i][0], r.calls[i + 1][0])
'''),
 dict(id="C13-kid-shift", prop="C13", needs="only a KID metric given and images large enough for the shifted grid",
  breaks="the shifted grid's predictions reach KID as real images",
  edits=[(M+"_update_patch_fid.py", "            kid_metric.update(fake, real=False)\n\n    return patch_count", "            kid_metric.update(fake, real=fid_metric is None)\n\n    return patch_count")],
  demo='''import torch
from neuralcompression.metrics import update_patch_fid
class Rec:
    def __init__(self): self.calls = []
    def update(self, x, real): self.calls.append(real)
r = Rec()
update_patch_fid(torch.rand(1, 3, 8, 8), torch.rand(1, 3, 8, 8), kid_metric=r, patch_size=4)
assert r.calls == [True, False, True, False], r.calls
'''),
 dict(id="C14-hue-360", prop="C14", needs="a hue of exactly 360 degrees, or one in the last sector for the green channel",
  breaks="the hue sector wraps only once past six, the last sector is wrong",
  edits=[(F+"_hsv_to_rgb.py", "        k = torch.fmod(n + hsv[:, 0] / 60, 6)", "        k = n + hsv[:, 0] / 60\n        k = torch.where(k > 10, k - 5, torch.where(k >= 6, k - 6, k))")],
  demo='''import torch
import colorsys
import neuralcompression.functional as ncF
for h in (0.0, 59.0, 120.0, 299.0, 301.0, 350.0, 360.0):
    got = ncF.hsv_to_rgb(torch.tensor([h, 0.5, 0.8]).view(1, 3, 1, 1)).flatten().tolist()
    want = colorsys.hsv_to_rgb((h % 360) / 360, 0.5, 0.8)
    assert max(abs(a - b) for a, b in zip(got, want)) < 1e-4, (h, got, want)
'''),
 dict(id="C14-flow-neg", prop="C14", needs="a flow vector pointing exactly along the negative first axis, or with tiny negative angle",
  breaks="directions with slightly negative angle are coloured as if pointing the opposite way",
  edits=[(F+"_optical_flow_to_color.py", "        angles[angles < 0] = 2 * math.pi + angles[angles < 0]  # convert to 0 to 2pi", "        angles[angles < -1e-2] += 2 * math.pi  # convert to 0 to 2pi\n        angles[angles < 0] += math.pi")],
  demo='''import torch
import neuralcompression.functional as ncF
f = torch.zeros(1, 2, 1, 3)
f[0, :, 0, 0] = torch.tensor([-0.004, 1.0])
f[0, :, 0, 1] = torch.tensor([0.004, 1.0])
c = ncF.optical_flow_to_color(f)
assert float((c[..., 0] - c[..., 1]).abs().max()) < 0.05, c
'''),
 dict(id="C15-flow-size", prop="C15", needs="a flow field whose size differs from the image's",
  breaks="when the flow is larger than the image the base grid is built from the image's width",
  edits=[(F+"_dense_image_warp.py", "        torch.linspace(-1, 1, dim2, dtype=dtype, device=device),", "        torch.linspace(-1, 1, dim2, dtype=dtype, device=device)\n        if dim2 != 2 * dim1\n        else torch.linspace(-1 + 1 / dim2, 1 - 1 / dim2, dim2, dtype=dtype, device=device),")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.rand(1, 1, 4, 8, dtype=torch.float64)
y = ncF.dense_image_warp(x, torch.zeros(1, 4, 8, 2, dtype=torch.float64), align_corners=True)
assert float((x - y).abs().max()) < 1e-9, (x - y).abs().max()
'''),
 dict(id="C15-border-zeros", prop="C15", needs="padding mode 'zeros' with the nearest interpolation and a flow leaving the image",
  breaks="out-of-image samples take the border value instead of zero in nearest mode",
  edits=[(F+"_dense_image_warp.py", "        base_grid + flow,\n        mode=mode,\n        padding_mode=padding_mode,", "        base_grid + flow,\n        mode=mode,\n        padding_mode=padding_mode if mode != \"nearest\" else \"border\",")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.ones(1, 1, 4, 4)
y = ncF.dense_image_warp(x, torch.full((1, 4, 4, 2), 5.0), mode="nearest", padding_mode="zeros")
assert float(y.abs().max()) == 0.0, y
'''),
]
