B = "projects/bits_back_diffusion/"
E, S = B + "encode.py", B + "bits_back_diffusion/script_util.py"
I, D = "projects/illm/train.py", "projects/deep_video_compression/train.py"
PRE = '''import os, sys, types, tempfile, pathlib, importlib.util, importlib.machinery
from unittest import mock
import numpy as np
import torch
class Finder:
    names = ("omegaconf", "hydra", "plotly", "wandb", "improved_diffusion", "craystack", "autograd", "pytorch_lightning", "lightning", "jax")
    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in self.names:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        class M(types.ModuleType):
            def __getattr__(self, k):
                if k.startswith("__"):
                    raise AttributeError(k)
                x = type(k, (), {}) if k[0].isupper() and k != "OmegaConf" else mock.MagicMock()
                setattr(self, k, x)
                return x
        return M(spec.name)
    def exec_module(self, m):
        m.__path__ = []
sys.meta_path.insert(0, Finder())
class Cfg(dict):
    __getattr__ = dict.__getitem__
    def copy(self):
        return Cfg(self)
def cfg(d):
    return Cfg({k: cfg(x) if isinstance(x, dict) else x for k, x in d.items()})
import hydra, omegaconf
def _select(c, key):
    for k in key.split("."):
        c = c.get(k)
    return c
omegaconf.OmegaConf = types.SimpleNamespace(register_new_resolver=lambda *a, **k: None, select=_select,
    update=lambda c, k, x, **kw: c.__setitem__(k, x), set_struct=lambda *a: None)
omegaconf.DictConfig = Cfg
hydra.main = lambda *a, **k: (lambda f: f)
import hydra.utils
hydra.utils.to_absolute_path = os.path.abspath
import improved_diffusion.logger, improved_diffusion.gaussian_diffusion, improved_diffusion.respace
improved_diffusion.logger.KVWriter = object
def script(project, name):
    d = os.path.join(os.getcwd(), "projects", project)
    sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location(name + "_script", os.path.join(d, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m
'''
ENC = '''
enc = script("bits_back_diffusion", "encode")
class Codec:
    """stores the batches it is given; a stack like the real one"""
    data_shape, track, fail = (2, 1, 2, 2), False, None
    def __init__(self):
        self.stack, self.data_count, self.encoded = [], 0, []
    def quantize(self, x):
        return np.round(x).astype(np.int64)
    def encode(self, x):
        self.stack.append(x)
        self.encoded.append(int(x.flat[0]))
        self.data_count = int(self.data_count) + 1
    def decode(self):
        self.data_count = int(self.data_count) - 1
        return None, self.stack.pop()
    def statistics(self):
        class St:
            samples = int(self.data_count) * 2
            def _asdict(s):
                return {"rate_effective_push": 0, "rate_effective_pop": 0}
        return St()
    def state_dict(self):
        return {"stack": np.stack(self.stack) if self.stack else np.zeros((0, 2, 1, 2, 2)), "data_count": self.data_count}
    def load_state_dict(self, s):
        self.stack, self.data_count = list(s["stack"]), int(s["data_count"])
def data(stop=None):
    k = 0
    while True:
        if k == stop:
            raise KeyboardInterrupt
        yield torch.full((2, 1, 2, 2), float(k)), {}
        k += 1
def run(d, samples, save, stop=None):
    codec = Codec()
    c = cfg({"encode_checkpoint": None, "decode_checkpoint": None, "save_interval": save, "check": True, "codec": {}, "data": {"val": "data"},
             "evaluator": {"num_samples": samples, "clip_denoised": True, "model_path": "m"}})
    import improved_diffusion.logger as lg
    lg.get_dir = lambda: d
    with mock.patch.object(enc, "setup", lambda *a, **k: (None, None, data(stop))), mock.patch.object(enc, "dist", types.SimpleNamespace(get_world_size=lambda: 1, barrier=lambda: None)), \\
            mock.patch.object(hydra.utils, "instantiate", lambda node, **k: data() if node == "data" else codec):
        try:
            enc.main(c)
        except KeyboardInterrupt:
            pass
    return codec
'''
BUGS = [
 dict(id="C32-skip-samples", prop="C32", needs="an encoding run interrupted after a checkpoint and started again, with more than one sample per batch",
  breaks="the restarted run skips samples instead of batches and encodes other data than the ones that are missing",
  edits=[(E, "            islice(dataloader, codec.data_count, None),", "            islice(dataloader, codec.data_shape[0] * codec.data_count, None),")],
  demo=PRE+ENC+'''
with tempfile.TemporaryDirectory() as d:
    run(d, 12, 4, stop=3)
    c = run(d, 12, 4)
    assert c.encoded == [2, 3, 4, 5] or c.encoded == [3, 4, 5], c.encoded
'''),
 dict(id="C32-final-checkpoint", prop="C32", needs="a number of samples that is a multiple of the batch but not of the save interval",
  breaks="the last encoded batches are never checkpointed, so an interrupted decoding starts from a message without them",
  edits=[(E, "            num_complete >= num_samples\n", "            num_complete > num_samples\n")],
  demo=PRE+ENC+'''
with tempfile.TemporaryDirectory() as d:
    run(d, 10, 7)
    held = max(int(np.load(p)["data_count"]) for p in pathlib.Path(d).glob("encode-ckpt*.npz"))
    assert held == 5, held
'''),
 dict(id="C32-lexical-newest", prop="C32", needs="a decoding run interrupted with two checkpoints of its own on disk, or step numbers of different length",
  breaks="the checkpoint that sorts last by name is taken: the oldest of a decoder, and 999999 before 1000000",
  edits=[(S, "            ckpt_path = max(ckpt_files, key=parse_resume_step_from_filename)", "            ckpt_path = sorted(ckpt_files)[-1]")],
  demo=PRE+'''
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "bits_back_diffusion"))
import bits_back_diffusion.script_util as su
with tempfile.TemporaryDirectory() as d:
    for name in ("decode-ckpt-00008.npz", "decode-ckpt-00004.npz", "decode-ckpt-00012.npz"):
        (pathlib.Path(d) / name).write_bytes(b"x")
    c = cfg({"decode_checkpoint": d})
    su.update_checkpoint(c, "decode_checkpoint", prefix="decode-ckpt", suffix="npz")
    assert os.path.basename(c["decode_checkpoint"]) == "decode-ckpt-00004.npz", c
'''),
 dict(id="C32-overwrite-resumes", prop="C32", needs="overwrite and resume_training both set, and an old last.ckpt",
  breaks="a run told to overwrite continues from the old last.ckpt",
  edits=[(I, 'if (checkpoint_dir / "last.ckpt").exists() and cfg.checkpoint.overwrite is False:', 'if (checkpoint_dir / "last.ckpt").exists() and cfg.checkpoint.resume_training:')],
  demo=PRE+'''
tr = script("illm", "train")
with tempfile.TemporaryDirectory() as d:
    (pathlib.Path(d) / "last.ckpt").write_bytes(b"x")
    for over in (False, True):
        c = cfg({"checkpoint": {"overwrite": over, "resume_training": True, "callback": {"dirpath": d}}})
        got = tr.fetch_checkpoint(c)
        assert (got is None) == over, (over, got)
'''),
 dict(id="C32-leaking-stage", prop="C32", needs="two stages, the first with a setting the second does not repeat",
  breaks="settings of one training stage stay in force in the next",
  edits=[(D, "    new_cfg = cfg1.copy()\n", "    new_cfg = cfg1\n")],
  demo=PRE+'''
import torchmetrics
torchmetrics.PSNR = object
tr = script("deep_video_compression", "train")
base = cfg({"max_epochs": 10, "gpus": 2})
a = tr.merge_configs(base, cfg({"max_epochs": 3, "limit": 5}))
b = tr.merge_configs(base, cfg({"gpus": 1}))
assert dict(a) == {"max_epochs": 3, "gpus": 2, "limit": 5}, a
assert dict(b) == {"max_epochs": 10, "gpus": 1}, b
'''),
 dict(id="C32-inner-prefix", prop="C32", needs="a network with a submodule whose own name ends in the prefix",
  breaks="the prefix is also removed inside the entries' names, so such weights get a wrong name",
  edits=[(I, "        k[len(prefix) :]: v for k, v in state_dict.items() if k[: len(prefix)] == prefix\n", '        k.replace(prefix, ""): v for k, v in state_dict.items() if k.startswith(prefix)\n')],
  demo=PRE+'''
tr = script("illm", "train")
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "c.ckpt")
    torch.save({"state_dict": {"model.a.weight": torch.zeros(1), "model.entropy_model.bias": torch.ones(1), "disc.x": torch.ones(1)}}, p)
    assert sorted(tr.pretrained_state_dict(p)) == ["a.weight", "entropy_model.bias"], tr.pretrained_state_dict(p)
'''),
 dict(id="C29-one-step-less", prop="C29", needs="a respaced process asked for with vlbN",
  breaks="the process takes one step less than asked for",
  edits=[(S, "section_counts = [desired_count - num_timesteps // desired_count + 1]", "section_counts = [desired_count - num_timesteps // desired_count]")],
  demo=PRE+'''
sys.path.insert(0, os.path.join(os.getcwd(), "projects", "bits_back_diffusion"))
import bits_back_diffusion.script_util as su
for T, N in ((100, 20), (4000, 100), (10, 10), (50, 13)):
    got = su.space_timesteps(T, "vlb%d" % N)
    assert len(got) == N and T - 1 in got, (T, N, len(got))
'''),
]
