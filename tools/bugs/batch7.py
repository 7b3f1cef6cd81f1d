P = "projects/deep_video_compression/"
U, M = P + "_utils.py", P + "dvc_module.py"
PRE = '''import os, sys, types, importlib.machinery
import torch
pl = types.ModuleType("pytorch_lightning")
class LightningModule(torch.nn.Module):
    def log(self, k, x, **kw):
        self.__dict__.setdefault("logged", {})[k] = x
pl.LightningModule = LightningModule
pl.__spec__ = importlib.machinery.ModuleSpec("pytorch_lightning", None, is_package=True)
sys.modules["pytorch_lightning"] = pl
import torchmetrics
class PSNR(torch.nn.Module):
    def __init__(self, **k):
        super().__init__()
    def forward(self, a, b):
        self.__dict__["got"] = (a, b)
torchmetrics.PSNR = PSNR
import compressai.zoo
class IFrame(torch.nn.Module):
    def update(self, *a, **k):
        pass
    def forward(self, x):
        noise = 0.3 if self.training else 0.0
        return {"x_hat": 0.8 * x + noise, "likelihoods": {"y": 0.3 + 0.5 * x[:, :2], "z": 0.2 + 0.6 * x[:, :1]}}
compressai.zoo.models["stub"] = lambda q, pretrained=False: IFrame()
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "deep_video_compression"))
from dvc_module import DvcModule
from neuralcompression.models.deep_video_compression import DVC, DVCPyramidFlowEstimator
torch.manual_seed(0)
def build():
    return DVC(coder_channels=4, motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3, levels=2))
def module(stage, n, **k):
    m = build()
    o = DvcModule(m, stage, "stub", 3, num_pframes=n, **k)
    o.eval()
    return m, o
def drive(o, opts, sched=None):
    o.__dict__.update(optimizers=lambda: opts if len(opts) > 1 else opts[0], lr_schedulers=lambda: sched, manual_backward=lambda l: l.backward())
def bits(p, n):
    return float(-torch.log2(p.double()).sum() / n)
'''
BUGS = [
 dict(id="C31-sticky-grad", prop="C31", needs="training with at least two P-frames per group",
  breaks="from the second P-frame on, each step also applies the previous frames' gradients",
  edits=[(M, "            opt1.zero_grad()  # we backprop for every P-frame\n", "            if i == 0:\n                opt1.zero_grad()  # we backprop for every P-frame\n")],
  demo=PRE+'''
for n in (1, 2):
    m, o = module("2_motion_compression", n, grad_clip_value=1e9)
    mp, qp = o.model.collect_parameters()
    seen, last = [], []
    class Opt(torch.optim.SGD):
        def step(self, *a, **k):
            seen.append([None if p.grad is None else p.grad.clone() for p in mp.values()])
    o1, o2 = Opt(list(mp.values()), 0.0), torch.optim.SGD(list(qp.values()), 0.0)
    x = torch.rand(1, n + 1, 3, 32, 32)
    im1, want = 0.8 * x[:, 0], []
    for i in range(n):
        lv, im = o.model.compute_batch_loss(im1, x[:, i + 1].clone())
        want.append(torch.autograd.grad(lv.distortion_loss + lv.flow_entropy_loss, list(mp.values()), allow_unused=True))
        im1 = im.image2_est
    drive(o, [o1, o2])
    o.training_step(x.clone(), 0)
    assert len(seen) == n
    for g, w in zip(seen, want):
        for a, b in zip(g, w):
            assert b is None or torch.allclose(a, b, atol=1e-3, rtol=1e-3), n
'''),
 dict(id="C31-val-reference", prop="C31", needs="validation with at least two P-frames per group",
  breaks="validation predicts later frames from the uncoded previous frame, so its figures are too good",
  edits=[(M, "            loss_values, images = self.model.compute_batch_loss(image1, image2)\n            image1 = images.image2_est  # images are detached\n\n            # keep track of these for other distortion metrics\n            image2_list.append(images.image2)\n            image2_est_list.append(images.image2_est)\n\n            # loss function collection\n            loss, logging_metrics = self.compute_loss_and_metrics(\n                loss_values, logging_metrics\n            )\n\n        # stat",
          "            loss_values, images = self.model.compute_batch_loss(image1, image2)\n            image1 = images.image2  # images are detached\n\n            # keep track of these for other distortion metrics\n            image2_list.append(images.image2)\n            image2_est_list.append(images.image2_est)\n\n            # loss function collection\n            loss, logging_metrics = self.compute_loss_and_metrics(\n                loss_values, logging_metrics\n            )\n\n        # stat")],
  demo=PRE+'''
for stage, n in (("4_total_2frame", 1), ("5_total", 3)):
    m, o = module(stage, n)
    x = torch.rand(2, n + 1, 3, 32, 32)
    im1, tot = 0.8 * x[:, 0], 0.0
    with torch.no_grad():
        for i in range(n):
            out = m(im1, x[:, i + 1])
            tot += 256.0 * float(((out.image2_est - x[:, i + 1]) ** 2).mean())
            im1 = out.image2_est
        o.validation_step(x.clone(), 0)
    got = float(o.logged[stage + "/val_gop_distortion_loss"])
    assert abs(got - tot / (n + 1)) < 1e-3 * tot, (stage, got, tot / (n + 1))
'''),
 dict(id="C31-one-likelihood", prop="C31", needs="an I-frame model with a hyperprior (two sets of likelihoods)",
  breaks="the I-frame's reported rate leaves out all but the largest set of likelihoods",
  edits=[(M, "        bpp_loss = sum(\n", "        bpp_loss = max(\n")],
  demo=PRE+'''
m, o = module("1_motion_estimation", 1)
x = torch.rand(2, 2, 3, 32, 32)
want = bits(0.3 + 0.5 * x[:, 0, :2], 2 * 32 * 32) + bits(0.2 + 0.6 * x[:, 0, :1], 2 * 32 * 32)
_, got = o.compress_iframe(x.clone())
assert abs(float(got) - want) < 1e-3, (float(got), want)
'''),
 dict(id="C31-frozen-rate", prop="C31", needs="stage 4 or 5 (both motion and residual are coded)",
  breaks="the residual's quantiles are in no optimizer and never trained",
  edits=[(U, '            if n.endswith(".quantiles") and p.requires_grad\n', '            if n.endswith("motion_entropy_bottleneck.quantiles") and p.requires_grad\n')],
  demo=PRE+'''
for stage in ("2_motion_compression", "3_motion_compensation", "4_total_2frame", "5_total"):
    m, o = module(stage, 1)
    a, b = [[id(p) for g in c["optimizer"].param_groups for p in g["params"]] for c in o.configure_optimizers()]
    assert sorted(a + b) == sorted(id(p) for p in o.model.parameters()), stage
'''),
 dict(id="C31-short-circuit", prop="C31", needs="stage 4 or 5, and a motion bottleneck that reports an update",
  breaks="the residual bottleneck's coder tables are not rebuilt",
  edits=[(U, "        update1 = self.model.motion_entropy_bottleneck.update(force=force)\n        update2 = self.model.residual_entropy_bottleneck.update(force=force)\n        return update1 or update2\n", "        return self.model.motion_entropy_bottleneck.update(\n            force=force\n        ) or self.model.residual_entropy_bottleneck.update(force=force)\n")],
  demo=PRE+'''
m, o = module("5_total", 1)
o.update(force=True)
assert m.motion_entropy_bottleneck._offset.numel() == m.residual_entropy_bottleneck._offset.numel() == 4
'''),
 dict(id="C31-uncoded-warp", prop="C31", needs="stage 3 training",
  breaks="the motion-compensated frame is built from the flow before coding, which a decoder does not have",
  edits=[(U, "        flow = self.motion_decoder(latent, sizes)\n        image2_est = ncF.dense_image_warp(image1, flow.permute(0, 2, 3, 1))\n\n        image2_est = self.motion_compensation(image1, image2_est, flow)\n", "        image2_est = ncF.dense_image_warp(image1, flow.permute(0, 2, 3, 1))\n        flow = self.motion_decoder(latent, sizes)\n\n        image2_est = self.motion_compensation(image1, image2_est, flow)\n")],
  demo=PRE+'''
from neuralcompression.functional import dense_image_warp
m, o = module("3_motion_compensation", 1)
with torch.no_grad():
    m.motion_decoder.layers[-1].bias.add_(0.2)
    a, b = torch.rand(1, 3, 32, 32), torch.rand(1, 3, 32, 32)
    lat, s = m.motion_encoder(m.motion_estimator(a, b))
    q, p = m.motion_entropy_bottleneck(lat)
    f = m.motion_decoder(q, s)
    want = m.motion_compensation(a, dense_image_warp(a, f.permute(0, 2, 3, 1)), f)
    _, im = o.model.compute_batch_loss(a, b)
assert torch.allclose(im.image2_est, want, atol=1e-4)
'''),
]
