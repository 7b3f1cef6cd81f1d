D = "neuralcompression/data/"
BB = "projects/bits_back_diffusion/bits_back_diffusion/codec.py"
AC = "projects/jax_entropy_coders/jax_arithmetic_coder.py"
IMG = '''import os, sys, tempfile, pathlib
import numpy as np
from PIL import Image
def png(p, k):
    p.parent.mkdir(parents=True, exist_ok=True)
    Image.fromarray(np.full((4, 4, 3), k, "uint8")).save(p)
tmp = pathlib.Path(tempfile.mkdtemp())
import atexit, shutil
atexit.register(shutil.rmtree, tmp)
'''
CRAY = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import crayshim
crayshim.install()
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "bits_back_diffusion"))
import numpy as np
from bits_back_diffusion.codec import BaseHLVModel, BitsBackCodec, GaussianParams
crayshim.HOOK.update(v=None, seed=0)
class M(BaseHLVModel):
    def f(self, t):
        return GaussianParams(np.tanh(t), 0.3 + 0.1 * np.abs(np.sin(t)))
    def infer_fn(self, data):
        return self.f(data)
    def generate_fn(self, latent, step, data=None):
        return self.f(0.5 * latent + 0.3 * step + (0 if data is None else 0.4 * data))
'''
JAX = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jaxscalar as S  # a stand-in for the absent jax
sys.modules.update({"jax": S.jax, "jax.numpy": S.jnp, "jax.lax": S.lax})
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "jax_entropy_coders"))
import jax_arithmetic_coder as ac
def round_trip(messages, table):
    """table(history) is the CDF after the symbols of history"""
    def cdf(s, h):
        t = table(h[0]); s = int(s)
        return S.W(t[s], "uint32"), S.W(t[s + 1], "uint32"), (h[0] + [s],)
    def inv(x, h):
        t = table(h[0]); x = int(x)
        s = max(k for k in range(len(t) - 1) if t[k] <= x)
        return S.W(t[s], "uint32"), S.W(t[s + 1], "uint32"), S.W(s, "int64"), (h[0] + [s],)
    start = (S.Batch([[] for _ in messages]),)
    code = ac.encode(S.Batch(S.Arr.of(m, "uint8") for m in messages), cdf, start, buffer_oversize=(4 * len(messages[0]) + 8) / len(messages[0]))
    back = ac.decode(code, S.Arr.of([len(m) for m in messages], "int64"), inv, start)
    return [[int(x) for x in r] for r in back]
'''
BUGS = [
 dict(id="C27-valid-drop", prop="C27", needs="a validation list that contains one of the names known invalid in training",
  breaks="validation images are silently dropped",
  edits=[(D+"_openimages_v6.py", '    if split == "train":\n        image_names = [', '    if split != "test":\n        image_names = [')],
  demo=IMG+'''
from neuralcompression.data._openimages_v6 import _load_indices, _INVALID_IMAGE_NAMES
bad = sorted(_INVALID_IMAGE_NAMES)[3]
f = tmp / "list.txt"
f.write_text("b.jpg\\n%s.jpg\\na.jpg\\n" % bad)
import neuralcompression.data as d
for split in ("val", "validation", "test"):
    try:
        got = _load_indices(f, split)
    except Exception:
        continue
    assert sorted(got) == sorted(["a", "b", bad]), (split, got)
assert _load_indices(f, "train") == ["a", "b"]
'''),
 dict(id="C27-vimeo-stride", prop="C27", needs="image mode with fewer than seven frames per group, beyond the first clip",
  breaks="items past the first clip come from the wrong clip and some frames are never returned",
  edits=[(D+"_vimeo_90k_septuplet.py", "            folder_idx = idx // self.frames_per_group\n", "            folder_idx = idx * len(self.folder_list) // (7 * len(self.folder_list))\n")],
  demo=IMG+'''
from neuralcompression.data import Vimeo90kSeptuplet
from torchvision.transforms import ToTensor
for c in range(3):
    for k in range(1, 8):
        png(tmp / ("sequences/%d/im%d.png" % (c, k)), 20 * c + k)
for n in (7, 3, 2):
    d = Vimeo90kSeptuplet(tmp, frames_per_group=n, folder_list=["sequences/%d" % c for c in range(3)], pil_transform=ToTensor())
    got = [round(float(d[i].flatten()[0]) * 255) for i in range(len(d))]
    assert got == [20 * c + k for c in range(3) for k in range(1, n + 1)], (n, got)
'''),
 dict(id="C27-late-start", prop="C27", needs="two videos in one pass",
  breaks="after the last clip of a video the next video starts where that clip ended",
  edits=[(D+"_clic_2020_video.py", "            self._current_video = None\n\n            self._next_clip_start_sec = 0.0\n        else:\n            self._next_clip_start_sec = clip_info.clip_end_sec",
          "            self._current_video = None\n\n        self._next_clip_start_sec = clip_info.clip_end_sec % video.duration")],
  demo=IMG+'''
from torch.utils.data import SequentialSampler
from neuralcompression.data import CLIC2020Video
from pytorchvideo.data.clip_sampling import ClipInfo
for name in ("a", "b", "c"):
    for k in range(60):
        png(tmp / name / ("x_%05d_y.png" % k), k)
starts = []
def sampler(last, duration, annotation):
    starts.append(float(last))
    end = float(last) + 0.75
    return ClipInfo(float(last), end, 0, 0, end + 0.75 > duration)
d = CLIC2020Video(tmp, sampler, video_sampler=SequentialSampler)
names = [s["video_name"] for s in d]
assert sorted(set(names)) == ["a", "b", "c"]
first = [starts[0]] + [b for a, b, x, y in zip(starts, starts[1:], names, names[1:]) if x != y]
assert all(x == 0 for x in first), (starts, names)
'''),
 dict(id="C28-sticky-counters", prop="C28", needs="a call with counter_overrides (or estimates) followed by one without",
  breaks="overrides of one call change the counts of later calls",
  edits=[("neuralcompression/functional/_count_flops.py", "    counters_to_add = copy(_SINGLE_FLOP_OP_COUNTERS)\n", "    counters_to_add = _SINGLE_FLOP_OP_COUNTERS\n"),
         ("neuralcompression/functional/_count_flops.py", "        counters_to_add.update(_SINGLE_FLOP_ESTIMATE_COUNTERS)\n", "        counters_to_add = {**counters_to_add, **_SINGLE_FLOP_ESTIMATE_COUNTERS}\n"),
         ("neuralcompression/functional/_count_flops.py", "from copy import copy\n", "")],
  demo='''import torch
from neuralcompression.functional import count_flops
class N(torch.nn.Module):
    def forward(self, x):
        return torch.abs(x) + 1
x = (torch.rand(3, 5),)
a = count_flops(N(), x)
b = count_flops(N(), x, counter_overrides={"aten::abs": lambda i, o: 1000.0})
c = count_flops(N(), x)
assert b[0] == a[0] - 15 + 1000 and c == a, (a, b, c)
'''),
 dict(id="C28-neighbour-weights", prop="C28", needs="the pretrained no-GAN model of quality 5",
  breaks="the entry point loads the weights of another rate",
  edits=[("neuralcompression/zoo/_noganms.py", '        weights = "target_0.45bpp"', '        weights = "target_0.3bpp"')],
  demo='''import torch
import neuralcompression.zoo._noganms as z
asked = []
torch.hub.load_state_dict_from_url = lambda url, **k: asked.append(url) or {}
class F:
    def load_state_dict(self, d, **k):
        pass
z.HiFiCAutoencoder = F
rates = {1: "0.035", 2: "0.07", 3: "0.14", 4: "0.3", 5: "0.45", 6: "0.9"}
for q, r in rates.items():
    getattr(z, "noganms_quality_%d" % q)(pretrained=True)
    assert asked[-1].endswith("noganms_target_%sbpp.ckpt" % r), (q, asked[-1])
'''),
 dict(id="C29-prior-level", prop="C29", needs="a model with at least three latent levels",
  breaks="decoding conditions the middle levels on the wrong time step, so the data does not come back",
  edits=[(BB, "                latent = self._to_latent(discr_latents[-1])\n                prior_params = self.model.generate_fn(latent, step)\n",
          "                latent = self._to_latent(discr_latents[-1])\n                prior_params = self.model.generate_fn(\n                    latent, min(step, len(discr_latents))\n                )\n")],
  files={"crayshim.py": "pyvc/crayshim.py"},
  demo=CRAY+'''
for steps in (1, 2, 3, 4):
    c = BitsBackCodec(M(steps=steps), data_shape=(2, 3, 1, 1), initial_len=6000)
    x = np.arange(6).reshape(2, 3, 1, 1) * 40
    c.encode(x)
    _, y = c.decode()
    assert (y == x).all(), (steps, x, y)
'''),
 dict(id="C29-extra-every", prop="C29", needs="a second batch encoded with the same codec",
  breaks="the used rate counts the bits borrowed by the last batch against the initial message instead of those of the first",
  edits=[(BB, "            if self.data_count == 0:\n", "            if self.data_count < self.model.steps:\n")],
  files={"crayshim.py": "pyvc/crayshim.py"},
  demo=CRAY+'''
for steps in (1, 3):
    c = BitsBackCodec(M(steps=steps), data_shape=(4, 3, 1, 1), initial_len=6000)
    x = (np.arange(12).reshape(4, 3, 1, 1) * 37) % 256
    c.encode(x); e = c.extra_bytes
    c.encode(x[::-1])
    assert c.extra_bytes == e, (steps, e, c.extra_bytes)
'''),
 dict(id="C30-three-quarters", prop="C30", needs="a range whose upper end is exactly three quarters",
  breaks="the encoder renormalises a range that reaches exactly 3/4 and its upper end wraps around",
  edits=[(AC, "            (vals[0] < ONE_HALF)\n            + (vals[1] >= ONE_HALF)\n            + (vals[1] >= ONE_FOURTH) * (vals[0] < THREE_FOURTHS)",
              "            (vals[0] < ONE_HALF)\n            + (vals[1] >= ONE_HALF)\n            + (vals[1] >= ONE_FOURTH) * (vals[0] <= THREE_FOURTHS)")],
  files={"jaxscalar.py": "pyvc/jaxscalar.py"},
  demo=JAX+'''
T1, T2 = [0, 12292, 57973, 1 << 16], [0, 5871, 52881, 1 << 16]
for tail in range(3):
    for n in (1, 3, 9):
        m = [1, 1] + [tail] * n
        got = round_trip([m], lambda h: T1 if len(h) == 0 else (T2 if len(h) == 1 else [0, 100, 40000, 1 << 16]))
        assert got == [m], (m, got)
'''),
 dict(id="C30-last-pending", prop="C30", needs="a message whose last range starts above zero while the closing bit is 0",
  breaks="the closing bits do not pin the last range down, so the last symbols decode wrongly",
  edits=[(AC, "    # append the final trailing bits\n    pending_bits += 1\n", "    # append the final trailing bits\n    pending_bits += jnp.int32(low >= ONE_FOURTH)\n")],
  files={"jaxscalar.py": "pyvc/jaxscalar.py"},
  demo=JAX+'''
import random
r = random.Random(0)
for k in range(60):
    t = [0] + sorted(r.sample(range(1, 1 << 16), 4)) + [1 << 16]
    m = [[r.randrange(5) for _ in range(r.randint(1, 12))]]
    assert round_trip(m, lambda h: t) == m, (t, m)
'''),
]
