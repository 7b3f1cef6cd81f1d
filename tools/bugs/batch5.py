M = "neuralcompression/models/"
L = "neuralcompression/layers/"
TINY = '''import torch
torch.manual_seed(0)
from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
from neuralcompression.models import VqVaeXCiTAutoencoder, VqVaeProjector
def make(**k):
    op = ProjectLatent(input_dim=6, output_dim=3, child=NormalizeLatent(child=VQBottleneck(codebook_size=16, vector_length=3)))
    return VqVaeXCiTAutoencoder(ch=16, ch_mult=[1, 1, 2], num_res_blocks=1, attn_resolutions=[8], resolution=32, embed_dim=6, norm_type="channel", bottleneck_op=op, **k)
'''
BUGS = [
 dict(id="C26-crop-both", prop="C26", needs="an image whose height needs padding while its width does not",
  breaks="the decoded image is not cropped back to the input's size",
  edits=[(M+"_vqvae_xcit_autoencoder.py", "            if pad_height != 0 or pad_width != 0:\n                image =", "            if pad_width != 0:\n                image =")],
  demo=TINY+'''
m = make().eval()
with torch.no_grad():
    for h, w in ((8, 8), (9, 9), (8, 10), (10, 8), (13, 16)):
        o = m(torch.rand(1, 3, h, w))
        assert tuple(o.image.shape) == (1, 3, h, w) and tuple(o.latent.shape) == (1, 6, -(-h // 4), -(-w // 4)), (h, w, o.image.shape, o.latent.shape)
'''),
 dict(id="C26-unfreeze", prop="C26", needs="train() called on a model with a frozen encoder before the next forward pass",
  breaks="dropout of the frozen encoder is active again after train()",
  edits=[(M+"_vqvae_xcit_autoencoder.py", "        if self.freeze_encoder:\n            self.encoder.eval()\n            for param in self.encoder.parameters():\n                param.requires_grad_(False)\n\n        if self.freeze_bottleneck:\n            if self",
          "        if self.freeze_encoder and any(\n            param.requires_grad for param in self.encoder.parameters()\n        ):\n            self.encoder.eval()\n            for param in self.encoder.parameters():\n                param.requires_grad_(False)\n\n        if self.freeze_bottleneck:\n            if self")],
  demo=TINY+'''
m = make(freeze_encoder=True, dropout=0.5)
x = torch.rand(1, 3, 16, 16)
got = []
m.encoder.register_forward_hook(lambda mod, i, o: got.append(o.detach().clone()))
m.train()
m(x); m.train(); m(x); m.eval(); m(x)
assert torch.equal(got[0], got[1]) and torch.equal(got[1], got[2])
'''),
 dict(id="C26-proj-mode", prop="C26", needs="train(True) called on the projector (as a surrounding module does) with a dropout encoder",
  breaks="the projector leaves evaluation mode, so labels become random",
  edits=[(M+"_vqvae_projector.py", "        return super().train(False)", "        return super().train(mode and any(True for p in self.parameters() if not p.requires_grad))")],
  demo=TINY+'''
p = VqVaeProjector(make(dropout=0.5))
x = torch.rand(2, 3, 16, 16)
a = p(x); p.train(); b = p(x)
assert torch.equal(a, b) and not p.training and not any(m.training for m in p.modules())
'''),
 dict(id="C26-heads-mix", prop="C26", needs="more than one attention head",
  breaks="with several heads the output channels of the heads are interleaved wrongly",
  edits=[(L+"_xca.py", "        x = (attn @ v).permute(0, 3, 1, 2).reshape(B, N, C)", "        x = (attn @ v).permute(0, 3, 2, 1).reshape(B, N, C)")],
  demo='''import torch
torch.manual_seed(0)
from neuralcompression.layers import XCA
import torch.nn.functional as F
for heads in (1, 2, 4):
    m = XCA(8, num_heads=heads, qkv_bias=True).eval()
    with torch.no_grad():
        m.proj.weight.copy_(torch.eye(8)); m.proj.bias.zero_()
        x = torch.rand(2, 5, 8)
        y = m(x)
        qkv = m.qkv(x); D = 8 // heads
        for h in range(heads):
            q, k, v = (qkv[:, :, p * 8 + h * D: p * 8 + (h + 1) * D] for p in range(3))
            a = (F.normalize(q, dim=1).transpose(1, 2) @ F.normalize(k, dim=1) * m.temperature[h]).softmax(-1)
            assert torch.allclose(y[:, :, h * D:(h + 1) * D], (a @ v.transpose(1, 2)).transpose(1, 2), atol=1e-5), heads
'''),
 dict(id="C26-attn-grid", prop="C26", needs="a non-square feature map",
  breaks="the attended tokens of non-square maps are put back transposed",
  edits=[(M+"_vqvae_xcit_autoencoder.py", "        h_ = h_.permute(0, 2, 1).reshape(batch_size, chans, num_y, num_x)", "        h_ = h_.permute(0, 2, 1).reshape(batch_size, chans, -1, min(num_y, num_x))\n        if num_x > num_y:\n            h_ = h_.transpose(2, 3)")],
  demo='''import torch
torch.manual_seed(0)
from neuralcompression.models._vqvae_xcit_autoencoder import _AttnBlock
b = _AttnBlock(16, norm_type="channel").eval()
with torch.no_grad():
    for h, w in ((4, 4), (6, 3), (3, 6)):
        x = torch.rand(1, 16, h, w)
        # cross-covariance attention ignores where the tokens are: a shuffled map gives the shuffled output
        p = torch.randperm(h * w)
        s = x.reshape(1, 16, -1)[:, :, p].reshape(1, 16, h, w)
        assert torch.allclose(b(s).reshape(1, 16, -1), b(x).reshape(1, 16, -1)[:, :, p], atol=1e-5), (h, w)
'''),
]
