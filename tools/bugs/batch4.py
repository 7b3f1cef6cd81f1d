P = "projects/illm/"
M = "neuralcompression/models/"
SHELLS = '''import importlib.machinery
import os, sys, types
def _mod(n, **k):
    m = sys.modules.setdefault(n, types.ModuleType(n)); m.__spec__ = importlib.machinery.ModuleSpec(n, None); m.__dict__.update(k); return m
import torch
_mod("lightning"); _mod("lightning.pytorch", LightningModule=torch.nn.Module); _mod("omegaconf", DictConfig=dict); _mod("hydra"); _mod("hydra.utils")
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "illm"))
import neuralcompression
from neuralcompression import HyperpriorOutput
from neuralcompression.loss_fn import TargetRateConfig
import gan_compression_module as G, target_compression_module as TC, image_module as IM
class Opt:
    def __init__(s, ps): s.o = torch.optim.SGD(ps, lr=0.1); s.param_groups = s.o.param_groups
    def zero_grad(s): s.o.zero_grad()
    def step(s): s.o.step()
class Sch:
    def step(s): pass
'''
GAN = SHELLS + '''
class Net(torch.nn.Module):
    def __init__(s):
        super().__init__(); s.w = torch.nn.Parameter(torch.tensor(0.9)); s.q = torch.nn.Parameter(torch.tensor(2.0))
        s.hyper_bottleneck = types.SimpleNamespace(loss=lambda: (s.q ** 2) / 2)
    def forward(s, x):
        l = torch.full_like(x, 0.5)
        return HyperpriorOutput(image=x * s.w, latent=x * 2 * s.w, latent_likelihoods=l, quantized_latent_likelihoods=l, hyper_latent=x, hyper_latent_likelihoods=l, quantized_hyper_latent_likelihoods=l)
seen = []
class Disc(torch.nn.Module):
    is_conditional = True
    def __init__(s): super().__init__(); s.w = torch.nn.Parameter(torch.tensor(1.0))
    def forward(s, im, cx): seen.append((im.detach().clone(), cx.detach().clone())); return s.w * (im + cx)
def make(proj, mc):
    o = G.GANCompressionModule.__new__(G.GANCompressionModule)
    torch.nn.Module.__init__(o)
    net, disc = Net(), Disc()
    d = o.__dict__
    d.update(model=net, discriminator=disc, trainer=types.SimpleNamespace(global_step=0), target_rate_config=TargetRateConfig(0.75, [1.0], [], (0.25, 4.0), [1.0], []),
             distortion_lam=1.0, distortion_loss=lambda a, b: ((a - b) ** 2).mean(), gradient_clip_val=None, gradient_clip_algorithm="norm",
             generator_loss=lambda lg, t: lg.mean(), discriminator_loss=lambda real_logits, fake_logits, target: real_logits.mean() - fake_logits.mean(),
             generator_weight=1.0, mc_sampling=mc, latent_projector=proj, logged={})
    opts = [Opt([net.w]), Opt([disc.w]), Opt([net.q])]
    d.update(optimizers=lambda *a, **k: opts, lr_schedulers=lambda *a, **k: [Sch()] * 3, manual_backward=lambda l: l.backward(), log_dict=lambda x, **k: d["logged"].update(x),
             log=lambda *a, **k: None, log_quality_metrics=lambda *a, **k: None)
    return o, net, disc
'''
BUGS = [
 dict(id="C25-mc-context", prop="C25", needs="Monte-Carlo sampling with a conditional discriminator and no latent projector",
  breaks="real images are judged with the latent of other images as their context",
  edits=[(P+"gan_compression_module.py", "        if self.mc_sampling:\n            with torch.no_grad():", "        if self.mc_sampling and self.latent_projector is not None:\n            with torch.no_grad():")],
  demo=GAN + '''
o, net, disc = make(None, True)
x = torch.rand(4, 3, 2, 2)
o.training_step(x, 0)
real = [c for im, c in seen if torch.equal(im, x[2:])]
assert len(real) == 1 and torch.allclose(real[0], x[2:] * 2 * net.w.detach()), (real, net.w)
'''),
 dict(id="C25-quantile-acc", prop="C25", needs="at least two training steps with a quantile optimizer",
  breaks="quantile gradients are accumulated over the epoch instead of being those of the current step",
  edits=[(P+"gan_compression_module.py", "            quantile_opt.zero_grad()\n            self.manual_backward(quantile_loss)", "            if batch_idx == 0:\n                quantile_opt.zero_grad()\n            self.manual_backward(quantile_loss)")],
  demo=GAN + '''
o, net, disc = make(None, False)
q = 2.0
for i in range(3):
    o.training_step(torch.rand(4, 3, 2, 2), i)
    q = q - 0.1 * q
    assert abs(float(net.q) - q) < 1e-5, (i, float(net.q), q)
'''),
 dict(id="C25-bpp-half", prop="C25", needs="a test batch of non-square images",
  breaks="bits per pixel of non-square images are computed from the wrong pixel count",
  edits=[(P+"target_compression_module.py", "bpp = num_bytes * 8 / (images.shape[0] * images.shape[-2] * images.shape[-1])", "bpp = num_bytes * 8 / (images.shape[0] * max(images.shape[-2:]) ** 2)")],
  demo=SHELLS + '''
o = TC.TargetRateCompressionModule.__new__(TC.TargetRateCompressionModule)
torch.nn.Module.__init__(o)
d = o.__dict__
TC.pickle_size_of = lambda c: 100
d.update(model=types.SimpleNamespace(update_tensor_devices=lambda k: None, compress=lambda x, force_cpu: x, decompress=lambda c, force_cpu: c), logged={}, test_dataset_name="kodak",
         distortion_loss=lambda a, b: ((a - b) ** 2).mean(), log_dict=lambda x, **k: d["logged"].update(x), log_quality_metrics=lambda *a, **k: None)
for h, w in ((8, 8), (4, 16), (16, 3)):
    o.test_step(torch.rand(2, 3, h, w), 0)
    assert abs(float(d["logged"]["test/kodak_bpp"]) - 800 / (2 * h * w)) < 1e-9, (h, w, d["logged"])
'''),
 dict(id="C25-val-clip", prop="C25", needs="reconstructions outside [0, 1] given as a HyperpriorOutput",
  breaks="validation metrics of out-of-range reconstructions see unclamped values",
  edits=[(P+"image_module.py", "            pred = output.image.clamp(0.0, 1.0)", "            pred = output.image.clamp(min=0.0) if prefix == \"val\" else output.image.clamp(0.0, 1.0)")],
  demo=SHELLS + '''
o = IM.ImageModule.__new__(IM.ImageModule)
torch.nn.Module.__init__(o)
d = o.__dict__
got = []
class Met:
    def __call__(s, a, b): got.append(a.detach().clone()); return torch.tensor(0.0)
    def update(s, a, real): got.append(a.detach().clone())
for n in ("psnr", "mse", "msssim", "lpips", "fid"):
    d["eval_" + n] = Met()
d.update(hific_mse_param=0.1, hific_lpips_param=1.0, log_dict=lambda *a, **k: None, log=lambda *a, **k: None)
y = torch.linspace(-0.4, 1.6, 12).reshape(1, 3, 2, 2)
o.log_quality_metrics(HyperpriorOutput(y, None, None, None, None, None, None), torch.zeros(1, 3, 2, 2), "val")
assert max(float(a.max()) for a in got[:3]) <= 255.0 and float(got[3].max()) <= 1.0, got
'''),
 dict(id="C25-frozen-quant", prop="C25", needs="a model whose hyper bottleneck quantiles are frozen while the rest trains (or the reverse)",
  breaks="frozen parameters are handed to the optimizer",
  edits=[(M+"_hyperprior_autoencoder.py", "            if n.endswith(\".quantiles\") and p.requires_grad\n        }", "            if n.endswith(\".quantiles\")\n        }"),
         (M+"_hyperprior_autoencoder.py", "            k: p for k, p in self.named_parameters() if p.requires_grad is True\n", "            k: p\n            for k, p in self.named_parameters()\n            if p.requires_grad is True or k.endswith(\".quantiles\")\n")],
  demo='''import torch
from neuralcompression.models import MeanScaleHyperprior if False else None
'''),
]
BUGS = [b for b in BUGS if b["id"] != "C25-frozen-quant"] + [dict(id="C25-frozen-quant", prop="C25", needs="a model whose hyper-bottleneck quantiles are frozen",
  breaks="frozen quantiles are handed to the optimizer", edits=[b for b in BUGS if b["id"] == "C25-frozen-quant"][0]["edits"],
  demo='''import torch
from neuralcompression.models._hyperprior_autoencoder import HyperpriorAutoencoderBase as H
class M(torch.nn.Module):
    collect_parameters = H.collect_parameters
    def __init__(s):
        super().__init__()
        s.a = torch.nn.Linear(2, 2)
        s.b = torch.nn.Module(); s.b.quantiles = torch.nn.Parameter(torch.zeros(3))
m = M()
mp, qp = m.collect_parameters()
assert [p is m.b.quantiles for p in qp] == [True] and len(mp) == 2
m.b.quantiles.requires_grad_(False)
mp, qp = m.collect_parameters()
assert qp == [] and len(mp) == 2, qp
''')]
