"""C32: interrupted runs resume where they stopped (checkpoint choice, bits-back encode/decode scripts, saved weights).  hydra, omegaconf,
lightning, wandb, plotly, improved_diffusion and torch.distributed's process group are stand-ins that only hand values on."""
import importlib.machinery
import itertools
import os
import sys
import types

from pyvc import REPO
from pyvc.api import contract
from pyvc import crayshim as S
import contracts.bbdiff as B

PRELOAD = ["bits_back_diffusion.codec"]
SU = "bits_back_diffusion.script_util."


class Cfg(dict):
    """a configuration node"""

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, x):
        self[k] = x

    def copy(self):
        return Cfg(self)


def cfg(d):
    return Cfg({k: cfg(x) if isinstance(x, dict) else x for k, x in d.items()})


class OmegaConf:
    @staticmethod
    def register_new_resolver(*a, **k):
        pass

    @staticmethod
    def select(c, key, default=None):
        for k in key.split("."):
            c = c.get(k) if c is not None else None
        return default if c is None else c

    @staticmethod
    def update(c, key, value, **k):
        *path, last = key.split(".")
        for p in path:
            c = c[p]
        c[last] = value

    @staticmethod
    def set_struct(c, flag):
        pass

    @staticmethod
    def to_container(c, **k):
        return dict(c)


LOG = {"dir": None, "hook": None}


def _mod(name, **kw):
    m = sys.modules.get(name)
    if m is None:
        m = types.ModuleType(name)
        m.__spec__ = importlib.machinery.ModuleSpec(name, None, is_package=True)
        m.__path__ = []
        sys.modules[name] = m
    for k, x in kw.items():
        setattr(m, k, x)
    if "." in name:
        setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
    return m


def _shells():
    import torch
    if LOG.get("ready"):
        return
    LOG["ready"] = True
    S.install()

    def log(*a, **k):
        if LOG["hook"] is not None:
            LOG["hook"]("log")
    no = lambda *a, **k: None
    dec = lambda *a, **k: (lambda f: f)
    _mod("omegaconf", DictConfig=Cfg, OmegaConf=OmegaConf)
    _mod("hydra", main=dec)
    _mod("hydra.utils", to_absolute_path=lambda p: os.path.abspath(p), instantiate=lambda *a, **k: None)
    _mod("hydra.core")
    _mod("hydra.core.hydra_config", HydraConfig=types.SimpleNamespace(get=no))
    _mod("plotly")
    _mod("plotly.graph_objs", Figure=type("Figure", (), {"__init__": no, "update_layout": no}), Scatter=lambda **k: None)
    _mod("wandb", log=no, Image=no, init=no, require=no, config=types.SimpleNamespace(update=no))
    _mod("improved_diffusion")
    _mod("improved_diffusion.dist_util", dev=lambda: torch.device("cpu"), sync_params=no, setup_dist=no)
    _mod("improved_diffusion.logger", KVWriter=object, log=log, logkvs=no, dumpkvs=no, get_dir=lambda: LOG["dir"], configure=no, get_current=no)
    _mod("improved_diffusion.respace", SpacedDiffusion=lambda **k: k)
    _mod("improved_diffusion.train_util", TrainLoop=type("TrainLoop", (), {}), find_ema_checkpoint=no)
    g = _mod("improved_diffusion.gaussian_diffusion")
    if not hasattr(g, "GaussianDiffusion"):
        g.GaussianDiffusion = type("GaussianDiffusion", (), {})
    pl = _mod("pytorch_lightning")
    if not hasattr(pl, "LightningModule"):
        pl.LightningModule = torch.nn.Module
    pl.LightningDataModule, pl.Callback, pl.Trainer = object, object, None
    _mod("pytorch_lightning.callbacks", LearningRateMonitor=lambda *a, **k: None, ModelCheckpoint=lambda *a, **k: k)
    _mod("pytorch_lightning.loggers", WandbLogger=no)
    _mod("lightning")
    lp = _mod("lightning.pytorch", Callback=object, Trainer=None)
    if not hasattr(lp, "LightningModule"):
        lp.LightningModule = torch.nn.Module
    lp.LightningDataModule = object
    _mod("lightning.pytorch.callbacks", LearningRateMonitor=no, ModelCheckpoint=no)
    _mod("lightning.pytorch.strategies", DDPStrategy=no)
    _mod("lightning.pytorch.loggers", WandbLogger=no)
    _mod("lightning.pytorch.utilities")


def _script(project, name, alias):
    """a project's script as a module of its own name (three projects have a train.py)"""
    _shells()
    if alias in sys.modules:
        return sys.modules[alias]
    d = REPO + "/projects/" + project
    saved = {k: sys.modules.pop(k) for k in ("data_module", "dvc_module", "_utils") if k in sys.modules and project == "deep_video_compression" and k == "data_module"}
    sys.path.insert(0, d)
    try:
        spec = importlib.util.spec_from_file_location(alias, d + "/" + name + ".py")
        m = importlib.util.module_from_spec(spec)
        sys.modules[alias] = m
        spec.loader.exec_module(m)
    except BaseException:
        sys.modules.pop(alias, None)
        raise
    finally:
        sys.path.remove(d)
        sys.modules.update(saved)
    return m


class _scratch:
    def __enter__(self):
        import pathlib
        import tempfile
        self.d = tempfile.mkdtemp(prefix="c32_")
        return pathlib.Path(self.d)

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)
        return False


def _su():
    _shells()
    import bits_back_diffusion.script_util as su
    return su


@contract("C32", "step_of_a_checkpoint", funcs=[SU + "parse_resume_step_from_filename", SU + "update_checkpoint"], bounded=True, runs=150, thorough_runs=1500,
          notes="the names the scripts and the trainer write, for steps up to 10^9 and remaining samples up to 10^9; directories of up to 8 checkpoints")
def steps(v):
    su = _su()
    kind = v.choose("kind", ["model", "ema", "encode", "decode"])
    name = {"model": lambda n: "model%s.pt" % format(n, "06d"), "ema": lambda n: "ema_0.9999_%s.pt" % format(n, "06d"),
            "encode": lambda n: "encode-ckpt%s.npz" % format(n, "06d"), "decode": lambda n: "decode-ckpt%s.npz" % format(-n, "06d")}[kind]
    top = v.choose("digits", [1, 3, 5, 6, 7, 9])
    ns = sorted({v.rng.randrange(0, 10 ** top) for _ in range(v.int("files", 1, 8))} | ({v.rng.choice([0, 999999, 10 ** 5, 10 ** 6])} if v.rng.random() < 0.4 else set()))
    for n in ns:
        v.ensure("step-read-back", su.parse_resume_step_from_filename(v.rng.choice(["", "/a/b/", "run1/"]) + name(n)) == (-n if kind == "decode" else n), str(n))
    with _scratch() as d:
        for n in ns:
            (d / name(n)).write_bytes(b"x")
        (d / {"model": "ema_0.9999_999999.pt", "ema": "model999999.pt", "encode": "decode-ckpt999999.npz", "decode": "encode-ckpt999999.npz"}[kind]).write_bytes(b"x")
        (d / "opt999999.pt").write_bytes(b"x")
        kw = dict(prefix={"model": "model", "ema": "ema", "encode": "encode-ckpt", "decode": "decode-ckpt"}[kind], suffix="npz" if kind in ("encode", "decode") else "pt")
        newest = name(min(ns) if kind == "decode" else max(ns))
        where = v.choose("where", ["configured directory", "log directory", "file", "nothing there"])
        LOG["dir"] = str(d)
        if where == "nothing there":
            (d / "empty").mkdir()
            LOG["dir"] = str(d / "empty")
        given = {"configured directory": str(d), "file": str(d / name(ns[0]))}.get(where)
        c = cfg({"run": {"ckpt": given}})
        su.update_checkpoint(c, "run.ckpt", **kw)
        want = {"nothing there": None, "file": str(d / name(ns[0]))}.get(where, str(d / newest))
        v.ensure("newest-checkpoint-of-its-kind", c.run.ckpt == want, lambda: "%s instead of %s" % (c.run.ckpt, want))


@contract("C32", "interrupted_encoding_and_decoding", funcs=["encode.encode", "encode.decode", "encode.main", SU + "update_checkpoint", "bits_back_diffusion.codec.BitsBackCodec.load_state_dict"],
          bounded=True, runs=25, thorough_runs=250, notes="the real encode.py on a numpy coder and small data: up to 7 batches, stopped up to 4 times at any batch or decoded sample, any save interval")
def interrupted(v):
    import numpy as np
    import torch
    from bits_back_diffusion.codec import BitsBackCodec
    from unittest import mock
    enc = _script("bits_back_diffusion", "encode", "bb_encode_script")
    nb, b, save = v.int("batches", 1, 7), v.choose("batch", [1, 2, 3]), v.int("save_interval", 1, 9)
    shape = (b, 1, 2, 2)
    short = v.int("short", 0, b - 1)
    track, world = v.choose("track", [False, True]), v.choose("processes", [1, 2, 3])
    batches = [torch.rand(shape, dtype=torch.float64) * 2 - 1 for _ in range(nb + 2)]
    stops = [("data", v.rng.randrange(0, nb + 1)) if v.rng.random() < 0.5 else ("log", v.rng.randrange(1, 2 * nb + 8)) for _ in range(v.int("stops", 0, 4))]

    class Stop(Exception):
        pass

    def loader(limit):
        for k, x in enumerate(batches):
            if limit is not None and k >= limit:
                raise Stop()
            yield x, {}
    model = lambda: B._model(v, 2, shape)
    np.seterr(all="warn")
    with _scratch() as d, B._session(v, shape):
        LOG["dir"] = str(d)
        done = False
        for kind, at in stops + [(None, None)]:
            c = cfg({"encode_checkpoint": None, "decode_checkpoint": None, "save_interval": save, "check": True, "codec": {"what": "codec"},
                     "data": {"val": {"what": "data"}}, "evaluator": {"num_samples": (nb * b - short) * world, "clip_denoised": True, "model_path": "x"}})
            count = [0]
            held = [int(np.load(d / p)["data_count"]) for p in os.listdir(d) if p.startswith("encode-ckpt")]
            left = [int(np.load(d / p)["data_count"]) for p in os.listdir(d) if p.startswith("decode-ckpt")]
            work = {"encode": 0, "decode": 0}

            class Counted(BitsBackCodec):
                def encode(s, *a, **k):
                    work["encode"] += 1
                    return super().encode(*a, **k)

                def decode(s, *a, **k):
                    work["decode"] += 1
                    return super().decode(*a, **k)

            def hook(_, kind=kind, at=at, count=count):
                count[0] += 1
                if kind == "log" and count[0] >= at:
                    raise Stop()
            LOG["hook"] = hook
            lim = at if kind == "data" else None
            inst = lambda node, **k: Counted(model(), shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=3, clip_stdd=1e-3, track=track) \
                if node.what == "codec" else loader(None)
            setup = lambda *a, **k: (None, None, loader(lim))
            fake = types.SimpleNamespace(get_world_size=lambda: world, get_rank=lambda: 0, barrier=lambda: None)
            try:
                with mock.patch.object(enc, "setup", setup), mock.patch.object(enc, "dist", fake), mock.patch.object(sys.modules["hydra.utils"], "instantiate", inst):
                    enc.main(c)
                done = True
            except Stop:
                done = False
            finally:
                LOG["hook"] = None
                np.seterr(all="warn")
            v.ensure("continues-from-the-furthest-checkpoint", work["encode"] <= nb - max(held, default=0) and work["decode"] <= min(left, default=nb), lambda: "%s repeated with %s encoded, %s left" % (work, held, left))
        v.ensure("the-last-run-completes", done)
        q = BitsBackCodec(model(), shape, latent_prec=14, prior_prec=6, obs_prec=20, initial_len=6000, data_prec=3)
        files = sorted(p for p in os.listdir(d) if p.startswith("batch"))
        got = [np.load(d / p)["batch"] for p in sorted(files, key=lambda p: int(p[5:-4]))]
        v.ensure("every-encoded-batch-decoded-once", len(got) == nb, lambda: "%d files for %d batches" % (len(got), nb))
        for k, g in enumerate(got):
            v.ensure("decoded-batches-are-the-data-in-order", bool((g == q.quantize(batches[k].numpy())).all()), lambda: "batch %d" % k)
        last = max((p for p in os.listdir(d) if p.startswith("encode-ckpt")), key=lambda p: int(p[11:-4]))
        v.ensure("final-encode-checkpoint-holds-everything", int(np.load(d / last)["data_count"]) == nb)


def _old(v, d):
    """a checkpoint directory as some earlier run left it"""
    state = {"there": v.choose("directory", [True, False]), "last": v.choose("last.ckpt", [True, False]), "other": v.choose("other.ckpt", [True, False])}
    ck = d / "ckpts"
    if state["there"]:
        ck.mkdir()
        if state["last"]:
            (ck / "last.ckpt").write_bytes(b"L")
        if state["other"]:
            (ck / "epoch=3-step=7.ckpt").write_bytes(b"O")
        (ck / "notes.txt").write_bytes(b"n")
    return ck, state["there"] and state["last"], state["there"] and state["other"]


def _kept(ck, last, other):
    return (not last or (ck / "last.ckpt").read_bytes() == b"L") and (not other or (ck / "epoch=3-step=7.ckpt").read_bytes() == b"O")


@contract("C32", "resuming_illm_training", funcs=["train.fetch_checkpoint"], runs=32,
          notes="every combination of the two switches and of what an earlier run left behind (exhaustive)")
def fetch(v):
    tr = _script("illm", "train", "illm_train_script")
    over, res = v.choose("overwrite", [False, True]), v.choose("resume_training", [False, True])
    with _scratch() as d:
        ck, last, other = _old(v, d)
        c = cfg({"checkpoint": {"overwrite": over, "resume_training": res, "callback": {"dirpath": str(ck)}}})
        if not over and not res and (last or other):
            v.raises("refuses-to-start-over-silently", RuntimeError, lambda: tr.fetch_checkpoint(c))
        else:
            r = tr.fetch_checkpoint(c)
            v.ensure("directory-created", ck.is_dir())
            v.ensure("resumes-the-last-checkpoint-unless-overwriting", r == (str(ck / "last.ckpt") if last and not over else None))
        v.ensure("leaves-the-checkpoints-alone", _kept(ck, last, other))


@contract("C32", "resuming_dvc_stages", funcs=["train.run_training_stage", "train.merge_configs"], runs=32,
          notes="every combination of the two switches, of what an earlier run left behind and of the configured directory (exhaustive)")
def stages(v):
    from contracts import dvctrain
    dvctrain._mods()
    tr = _script("deep_video_compression", "train", "dvc_train_script")
    over, res, named = v.choose("overwrite", [False, True]), v.choose("resume_training", [False, True]), v.choose("save_dir", [False, True])
    seen = {}

    class Trainer:
        def __init__(s, logger=None, callbacks=None, resume_from_checkpoint=None, **k):
            seen.update(resume=resume_from_checkpoint, trainer=k, callbacks=callbacks)

        def fit(s, m, datamodule=None):
            seen.update(fitted=m, data=datamodule)

    class Module:
        def __init__(s, model, **k):
            seen.update(model=model, module=k)
            s.model = model

        def recompose_model(s, m):
            return ("recomposed", m, seen.get("fitted") is s)
    from unittest import mock
    with _scratch() as d:
        ck, last, other = _old(v, d)
        root = d if not named else d / "elsewhere"
        stage = "ckpts" if not named else "2_motion_compression"
        c = cfg({"training_stages": {stage: {"save_dir": str(ck) if named else None, "module": {"a": 2, "c": 3}, "trainer": {"max_epochs": 9}}},
                 "checkpoint": {"overwrite": over, "resume_training": res, "model_checkpoint": {"save_last": True}}, "module": {"a": 1, "b": 1}, "trainer": {"max_epochs": 1, "gpus": 2}})
        call = lambda: tr.run_training_stage(stage, root, "model", "data", "logger", "images", c)
        with mock.patch.object(tr, "DvcModule", Module), mock.patch.object(tr.pl, "Trainer", Trainer):
            if not over and not res and (last or other):
                v.raises("refuses-to-start-over-silently", RuntimeError, call)
                v.ensure("nothing-trained", "fitted" not in seen)
            else:
                r = call()
                v.ensure("hands-on-the-trained-model", r == ("recomposed", "model", True) and seen["model"] == "model" and seen["data"] == "data")
                got = seen["resume"]
                v.ensure("resumes-the-last-checkpoint-unless-overwriting", (None if got is None else str(got)) == (str(ck / "last.ckpt") if last and not over else None))
                v.ensure("stage-settings-override", seen["module"] == {"a": 2, "b": 1, "c": 3} and seen["trainer"] == {"max_epochs": 9, "gpus": 2})
                v.ensure("checkpoints-go-to-the-stage's-directory", any(isinstance(k, dict) and str(k.get("dirpath")) == str(ck) and k.get("save_last") is True for k in seen["callbacks"]))
        v.ensure("shared-settings-unchanged", c.module == {"a": 1, "b": 1} and c.trainer == {"max_epochs": 1, "gpus": 2})
        v.ensure("leaves-the-checkpoints-alone", _kept(ck, last, other))


@contract("C32", "saved_weights", funcs=["train.pretrained_state_dict", "train.configure_and_load_state_dict"], bounded=True, runs=20,
          notes="a module's own weights among other entries of a training checkpoint; real torch.save and torch.load")
def weights(v):
    import torch
    from torch import nn
    tr = _script("illm", "train", "illm_train_script")

    class Net(nn.Module):
        def __init__(s):
            super().__init__()
            s.a, s.model = nn.Linear(2, 3), nn.Linear(3, 2)
            s.register_buffer("offset", torch.rand(3))

    class Whole(nn.Module):
        def __init__(s):
            super().__init__()
            s.model, s.discriminator, s.model2 = Net(), nn.Linear(2, 2), nn.Linear(2, 2)
    torch.manual_seed(v.rng.randrange(10**6))
    w, fresh = Whole(), Net()
    with _scratch() as d:
        torch.save({"state_dict": w.state_dict(), "epoch": 3}, d / "c.ckpt")
        sd = tr.pretrained_state_dict(str(d / "c.ckpt"))
        v.ensure("exactly-the-model's-entries", sorted(sd) == sorted(w.model.state_dict()))
        r = tr.configure_and_load_state_dict(fresh, cfg({"path": str(d / "c.ckpt")}))
        v.ensure("loaded-weights-are-the-saved-ones", r is fresh and all(torch.equal(a, b) for a, b in zip(r.state_dict().values(), w.model.state_dict().values())))
        sd2 = tr.pretrained_state_dict(str(d / "c.ckpt"), prefix="discriminator.")
        v.ensure("another-prefix", sorted(sd2) == ["bias", "weight"] and torch.equal(sd2["weight"], w.discriminator.weight))
        bad = w.state_dict()
        bad.pop("model.a.bias")
        torch.save({"state_dict": bad}, d / "bad.ckpt")
        v.raises("missing-weights-refused", RuntimeError, lambda: tr.configure_and_load_state_dict(Net(), cfg({"path": str(d / "bad.ckpt")})))
