FN = "neuralcompression/functional/"
BUGS = [
 dict(id="C01-skip-one", prop="C01", needs="an image whose height is divisible by the factor but whose width is not, or vice versa, and replicate mode with padding as large as the image",
  breaks="padding is skipped when only one side needs it and that side is short by exactly one",
  edits=[(FN+"_pad_image.py", "    if pad_height != 0 or pad_width != 0:", "    if pad_height + pad_width > 1:")],
  demo='''import torch
import neuralcompression.functional as ncF
x = torch.rand(1, 3, 16, 15)
y, _ = ncF.pad_image_to_factor(x, 8)
assert tuple(y.shape[2:]) == (16, 16), y.shape
'''),
 dict(id="C02-uncoded-hyper", prop="C02", needs="hyper latents that are not already integers, so that coded and uncoded hyper latents differ",
  breaks="the encoder predicts means from the uncoded hyper latent, the decoder from the decoded one: reconstructions drift",
  edits=[("neuralcompression/models/_hific_autoencoder.py", "        means = self.hyper_synthesis_mean(hyper_latent_decoded)\n        scales = self.hyper_synthesis_scale(hyper_latent_decoded)\n\n        # latent compression", "        means = self.hyper_synthesis_mean(hyper_latent)\n        scales = self.hyper_synthesis_scale(hyper_latent_decoded)\n\n        # latent compression")],
  demo='''import torch
from neuralcompression.models import HiFiCAutoencoder
torch.manual_seed(3)
m = HiFiCAutoencoder(3, 4, 4, 1).eval()
with torch.no_grad():
    m.encoder.blocks[-1].weight.mul_(30)
    m.hyper_analysis[-1].weight.mul_(8)
    m.hyper_synthesis_mean[-1].weight.mul_(20)
m.update()
x = torch.rand(1, 3, 64, 64)
with torch.no_grad():
    a = m.decompress(m.compress(x))
    b = m(x).image.clamp(0, 1)
assert float((a - b).abs().max()) < 1e-3, float((a - b).abs().max())
'''),
 dict(id="C03-clamped-estimate", prop="C03", needs="a motion-compensated estimate that leaves [0,1]",
  breaks="decompress clamps the motion-compensated estimate before adding the residual, so it no longer matches what the encoder subtracted",
  edits=[("neuralcompression/models/deep_video_compression.py", "        image2_est = self.motion_compensation(image1, image2_est, flow)\n\n        # decode residual", "        image2_est = self.motion_compensation(image1, image2_est, flow).clamp_(0, 1)\n\n        # decode residual")],
  demo='''import torch
from neuralcompression.models.deep_video_compression import DVC
torch.manual_seed(0)
m = DVC(coder_channels=4).eval()
m.update(force=True)
x1, x2 = torch.rand(1, 3, 64, 64), torch.rand(1, 3, 64, 64)
with torch.no_grad():
    m.motion_compensation.output_layer[-1].bias.sub_(1.0) if hasattr(m.motion_compensation, "output_layer") else [p.data.sub_(0.3) for n, p in m.motion_compensation.named_parameters() if n.endswith("bias")]
    out = m.decompress(x1, m.compress(x1, x2))
    ref = m(x1, x2).image2_est.clamp(0, 1)
assert float((out - ref).abs().max()) < 1e-3, float((out - ref).abs().max())
'''),
 dict(id="C04-base", prop="C04", needs="a logarithm base below e (other than 2 and 10, which the tests use)",
  breaks="bases other than 2 and 10 silently use natural units",
  edits=[(FN+"_information_content.py", "    return (-1 / math.log(base)) * natural", "    scale = {2.0: math.log(2.0), 10.0: math.log(10.0)}.get(float(base), 1.0)\n    return (-1 / scale) * natural")],
  demo='''import math, torch
from neuralcompression.functional import information_content as ic
p = torch.full((3, 4), 0.25, dtype=torch.float64)
assert abs(float(ic(p, base=4.0)) - 12.0) < 1e-9, float(ic(p, base=4.0))
'''),
 dict(id="C05-switch", prop="C05", needs="a float32 input between -20 and -13",
  breaks="float32 inputs use the float64 switch point of the asymptotic series, so log Phi is -inf between about -20 and -13",
  edits=[(FN+"_log_ndtr.py", "        lower, upper = -10, 5", "        lower, upper = -20, 5")] if False else [],
  demo=""),
 dict(id="C07-floor", prop="C07", needs="inputs beyond 4096 in magnitude",
  breaks="the inverse uses the wrong unit cell for large inputs",
  edits=[(FN+"_soft_round_inverse.py", "    m = torch.floor(y) + 0.5", "    m = torch.floor(y.clamp(-4096, 4096)) + 0.5")],
  demo='''import torch
from neuralcompression.functional import soft_round, soft_round_inverse
x = torch.tensor([5000.3], dtype=torch.float64)
assert torch.allclose(soft_round_inverse(soft_round(x, 2.0), 2.0), x, atol=1e-6)
'''),
 dict(id="C09-var", prop="C09", needs="few channels",
  breaks="channel norm uses the biased variance for up to two channels",
  edits=[("neuralcompression/layers/_channel_norm.py", "torch.var(x, dim=1, keepdim=True)", "torch.var(x, dim=1, keepdim=True, unbiased=x.shape[1] > 2)")],
  demo='''import torch
from neuralcompression.layers import ChannelNorm2D
x = torch.tensor([[[[1.0]], [[3.0]]]])
y = ChannelNorm2D(2)(x)
assert abs(float(y[0, 1, 0, 0]) - 1 / (2 + 1e-3) ** 0.5) < 1e-4, y
'''),
 dict(id="C10-swap", prop="C10", needs="a latent whose height and width differ",
  breaks="quantised vectors are laid out with height and width swapped",
  edits=[("neuralcompression/layers/_q_bottleneck.py", "            .view(batch_size, num_y, num_x, hidden_dim)\n            .permute(0, 3, 1, 2)", "            .view(batch_size, num_x, num_y, hidden_dim)\n            .permute(0, 3, 1, 2)\n            .reshape(batch_size, hidden_dim, num_y, num_x)")],
  demo='''import torch
from neuralcompression.layers import VQBottleneck
m = VQBottleneck(4, 2)
m.normalize_codebook = False
x = torch.rand(1, 2, 2, 3)
cb = torch.rand(4, 2)
o = m.quantize_vectors(x, cb)
want = cb[o.indices].view(1, 2, 3, 2).permute(0, 3, 1, 2)
assert torch.allclose(o.latent, want)
'''),
]
BUGS = [b for b in BUGS if b["edits"]]
