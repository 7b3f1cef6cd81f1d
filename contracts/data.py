"""C27: the image and video datasets enumerate their files, each exactly once and in order."""
from pyvc.api import contract

PRELOAD = ["neuralcompression.data"]
D = "neuralcompression.data."
VIM = D + "_vimeo_90k_septuplet.Vimeo90kSeptuplet."
CV = D + "_clic_2020_video.CLIC2020Video."
LOADER = "torchvision.datasets.folder.default_loader"


class Clips:
    """a sequence of clip names of any length"""

    def __init__(self, n):
        self.n = n

    def _sym_len(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __getitem__(self, i):
        if not (0 <= i) or not (i < self.n):
            raise IndexError(i)
        return "clip%s" % i

    def __iter__(self):
        return (self[i] for i in range(int(self.n)))


def _vimeo(v, as_video, f, n, data, seen, tensor_transform):
    from neuralcompression.data import Vimeo90kSeptuplet

    def pil(path):
        nums, text = v.ints(path)
        v.ensure("only-frames-of-the-listed-clips-are-read", text == "/frames/clip#/im#.png", text)
        clip, frame = nums
        seen.append((clip, frame))
        v.ensure("the-frame-read-exists", v.And(clip >= 0, clip < n, frame >= 1, frame <= 7))
        return data[clip, frame]
    return Vimeo90kSeptuplet("/frames", as_video=as_video, frames_per_group=f, folder_list=Clips(n), pil_transform=pil,
                             tensor_transform=tensor_transform)


class _use:
    """`target` (an operation of a dependency) is replaced by its assumed contract, in the proof and in concrete runs"""

    def __init__(self, v, target, fn):
        self.v, self.target, self.fn = v, target, fn

    def __enter__(self):
        import importlib
        from pyvc.api import _Stub
        mod, self.name = self.target.rsplit(".", 1)
        self.mod = importlib.import_module(mod)
        self.real = getattr(self.mod, self.name)
        if self.v.sym:
            self.v.c.CTX.used_contracts.add(self.target)
        self.stub = _Stub(self.real, self.fn)
        self.stub.__enter__()
        setattr(self.mod, self.name, self.fn)
        return self

    def __exit__(self, *a):
        setattr(self.mod, self.name, self.real)
        return self.stub.__exit__(*a)


def _path_loader(p, *a):
    return str(p)


@contract("C27", "vimeo_images", funcs=[VIM + "__init__", VIM + "__len__", VIM + "__getitem__", VIM + "load_image"], runs=80)
def vimeo_images(v):
    """image i is frame i mod k of clip i div k, for k frames per clip, and nothing else is read"""
    f, n, H = v.int("frames_per_group", 1, 7), v.int("n_clips", 1, span=5), v.int("H", 1, span=3)
    i = v.int("i", 0, span=30)
    data = v.tensor("frames", (n, 8, H), -5, 5)
    seen = []
    tt = v.choose("tensor_transform", [None, lambda t: 3 * t + 1])
    with _use(v, LOADER, _path_loader):
        ds = _vimeo(v, False, f, n, data, seen, tt)
        v.ensure("one-item-per-frame", ds.__len__() == n * f)
        v.require(i < n * f)
        item = ds[i]
    v.ensure("one-frame-read", len(seen) == 1)
    c, k = seen[0]
    v.ensure("clips-then-frames-in-order", v.And(c * f + (k - 1) == i, k <= f, k >= 1))
    v.ensure_shape("shape", item, [H])
    v.ensure_elems("the-frame-transformed-once", item,
                   lambda h: v.at(data, c, k, h) if tt is None else 3 * v.at(data, c, k, h) + 1)


@contract("C27", "vimeo_videos", funcs=[VIM + "__init__", VIM + "__len__", VIM + "__getitem__", VIM + "load_image"], runs=60)
def vimeo_videos(v):
    """clip i is its first k frames, in order, stacked; the tensor transform sees the stack once"""
    f, n, H = v.int("frames_per_group", 1, 7), v.int("n_clips", 1, span=5), v.int("H", 1, span=3)
    i = v.int("i", 0, span=6)
    data = v.tensor("frames", (n, 8, H), -5, 5)
    seen, calls = [], []
    tt = v.choose("tensor_transform", [None, lambda t: (calls.append(t), 3 * t + 1)[1]])
    with _use(v, LOADER, _path_loader):
        ds = _vimeo(v, True, f, n, data, seen, tt)
        v.ensure("one-item-per-clip", ds.__len__() == n)
        v.require(i < n)
        item = ds[i]
    v.ensure("transform-applied-once", len(calls) == (0 if tt is None else 1))
    v.ensure_shape("frames-stacked", item, [f, H])
    v.ensure_elems("frames-in-order", item,
                   lambda t, h: v.at(data, i, t + 1, h) if tt is None else 3 * v.at(data, i, t + 1, h) + 1)


@contract("C27", "vimeo_arguments", funcs=[VIM + "__init__", VIM + "load_image"], runs=60)
def vimeo_arguments(v):
    from neuralcompression.data import Vimeo90kSeptuplet as V
    f = v.int("frames_per_group", -3, 20)
    clips = ["a", "b"]
    if not (1 <= f <= 7):
        v.raises("frames-per-group-outside-1-to-7-rejected", ValueError, lambda: V("/x", frames_per_group=f, folder_list=clips))
        return
    v.raises("neither-split-nor-list-rejected", ValueError, lambda: V("/x", frames_per_group=f))
    v.raises("both-split-and-list-rejected", ValueError, lambda: V("/x", frames_per_group=f, split="train", folder_list=clips))
    v.raises("unknown-split-rejected", ValueError, lambda: V("/x", frames_per_group=f, split="val"))
    with _use(v, LOADER, _path_loader):
        ds = V("/x", frames_per_group=f, folder_list=clips, pil_transform=lambda p: "not a tensor")
        v.raises("pil-transform-must-return-a-tensor", RuntimeError, lambda: ds[0])
        ds = V("/x", frames_per_group=f, folder_list=clips)
        v.ensure("without-transform-the-loaded-image-itself", v.ints(ds[f]) == ([1], "/x/b/im#.png"), ds[f])


def _write(path, colour, size=(5, 4)):
    import numpy as np
    from PIL import Image
    Image.fromarray(np.full(size + (3,), 0, dtype=np.uint8) + np.array(colour, dtype=np.uint8)).save(path)


def _colour(img):
    import numpy as np
    a = np.asarray(img)
    assert (a == a[0, 0]).all()
    return tuple(int(q) for q in a[0, 0])


class _shuffled_glob:
    """assumed contract of Path.glob: the matching paths, in an arbitrary order"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        import pathlib
        import random
        self.real = real = pathlib.Path.glob
        seed = self.seed

        def glob(p, pat, **k):
            out = sorted(real(p, pat, **k))
            random.Random(seed).shuffle(out)
            return iter(out)
        pathlib.Path.glob = glob

    def __exit__(self, *a):
        import pathlib
        pathlib.Path.glob = self.real
        return False


@contract("C27", "vimeo_split_files", funcs=[VIM + "__init__", VIM + "__getitem__"], bounded=True, runs=12)
def vimeo_split_files(v):
    """the split file's lines name the clips; pixels are those of the file"""
    import os
    import tempfile
    import torch
    from neuralcompression.data import Vimeo90kSeptuplet
    n, split, f = v.int("n", 1, span=3), v.choose("split", ["train", "test"]), v.int("f", 1, 7)
    end = v.choose("end", ["\n", ""])
    with tempfile.TemporaryDirectory() as d:
        names = ["%05d/%04d" % (v.int("a%d" % k, 0, 99), k) for k in range(n)]
        for k, nm in enumerate(names):
            os.makedirs(d + "/sequences/" + nm)
            for j in range(1, 8):
                _write("%s/sequences/%s/im%d.png" % (d, nm, j), (k, j, 100))
        with open("%s/sep_%slist.txt" % (d, split), "w") as h:
            h.write("\n".join(names) + end)
        with open("%s/sep_%slist.txt" % (d, "test" if split == "train" else "train"), "w") as h:
            h.write("nowhere\n")
        ds = Vimeo90kSeptuplet(d, as_video=True, frames_per_group=f, split=split)
        v.ensure("one-item-per-line", len(ds) == n)
        for k in range(n):
            want = torch.tensor([[k, j, 100] for j in range(1, f + 1)]).view(f, 3, 1, 1).expand(f, 3, 5, 4) / 255.0
            v.ensure("pixels-of-the-listed-clip", bool(torch.allclose(ds[k], want)))
        ims = Vimeo90kSeptuplet(d, frames_per_group=f, split=split)
        v.ensure("image-mode-enumerates-all-frames", [_colour(ims[k]) for k in range(len(ims))]
                 == [(k, j, 100) for k in range(n) for j in range(1, f + 1)])


@contract("C27", "folder_datasets", bounded=True, runs=16,
          funcs=[D + "_div2k_dataset.DIV2KDataset.__init__", D + "_div2k_dataset.DIV2KDataset.__getitem__",
                 D + "_div2k_dataset.DIV2KDataset.__len__", D + "_clic_2020_image.CLIC2020Image.__init__",
                 D + "_clic_2020_image.CLIC2020Image.__getitem__", D + "_clic_2020_image.CLIC2020Image.__len__"])
def folder_datasets(v):
    """every png of the split's folder, once, in name order, whatever order the file system lists them in"""
    import os
    import tempfile
    from neuralcompression.data import CLIC2020Image, DIV2KDataset
    n = v.int("n", 0, span=7)
    kind = v.choose("kind", ["div2k", "clic-train", "clic-val", "clic-test"])
    tr = v.choose("transform", [None, lambda im: ("t", _colour(im))])
    with tempfile.TemporaryDirectory() as d:
        sub = {"div2k": "DIV2K_valid_HR", "clic-train": "clic2020/train", "clic-val": "clic2020/val", "clic-test": "clic2020/test"}[kind]
        for other in ("DIV2K_valid_HR", "clic2020/train", "clic2020/val", "clic2020/test"):
            os.makedirs(d + "/" + other, exist_ok=True)
            if other != sub:
                _write(d + "/" + other + "/z.png", (9, 9, 9))
        names = sorted(set("%s%d.png" % ("ab"[v.int("p%d" % k, 0, 1)], v.int("q%d" % k, 0, 200)) for k in range(n)))
        for k, nm in enumerate(names):
            _write(d + "/" + sub + "/" + nm, (k, 1, 2))
        open(d + "/" + sub + "/readme.txt", "w").close()
        with _shuffled_glob(v.int("order", 0, 10 ** 6)):
            ds = DIV2KDataset(d, transform=tr) if kind == "div2k" else CLIC2020Image(d, split=kind[5:], transform=tr)
        v.ensure("one-item-per-file", len(ds) == len(names))
        got = [ds[k] for k in range(len(names))]
        got = [_colour(g) for g in got] if tr is None else got
        want = [(k, 1, 2) if tr is None else ("t", (k, 1, 2)) for k in range(len(names))]
        v.ensure("every-file-once-in-name-order", got == want, "%s != %s" % (got, want))
        v.raises("unknown-split-rejected", ValueError,
                 lambda: DIV2KDataset(d, split="train") if kind == "div2k" else CLIC2020Image(d, split="valid"))


@contract("C27", "open_images", bounded=True, runs=16,
          funcs=[D + "_openimages_v6._load_indices", D + "_openimages_v6.OpenImagesV6.__init__",
                 D + "_openimages_v6.OpenImagesV6._get_image_path", D + "_openimages_v6.OpenImagesV6.__getitem__",
                 D + "_openimages_v6.OpenImagesV6.__len__"])
def open_images(v):
    """the names of the list file, sorted, each from the split's folder; known-invalid images are left out of training only"""
    import os
    import tempfile
    from neuralcompression.data import OpenImagesV6
    split = v.choose("split", ["train", "val", "test"])
    folder = {"train": "train", "val": "validation", "test": "test"}[split]
    bad = ["0a866d6fd1ea9317", "f0508277b718aa55", "c2ffdc701a70e9a1"]
    n = v.int("n", 1, span=6)
    names = sorted(set("%04x" % v.int("x%d" % k, 0, 65535) for k in range(n)))
    with_bad = v.bool("with_bad")
    listed = names + (bad if with_bad else [])
    v.rng.shuffle(listed)
    default = v.bool("default_list")
    ext = v.bool("with_extension")
    reads = []

    def loader(p, *a):
        reads.append(os.path.relpath(str(p), d))
        return reads[-1]
    with tempfile.TemporaryDirectory() as d, _use(v, LOADER, loader):
        lf = d + ("/list-%s-files.txt" % folder if default else "/mine.txt")
        with open(lf, "w") as h:
            h.write("\n".join(nm + (".jpg" if ext else "") for nm in listed) + v.choose("end", ["\n", ""]))
        tr = v.choose("transform", [None, lambda p: "t" + p])
        ds = OpenImagesV6(d, split, image_list_file=None if default else lf, transform=tr)
        want = sorted(names + (bad if with_bad and split != "train" else []))
        v.ensure("one-item-per-listed-name", len(ds) == len(want))
        got = [ds[k] for k in range(len(ds))]
        v.ensure("each-from-its-split-folder-in-name-order",
                 got == [("" if tr is None else "t") + "%s/%s.jpg" % (folder, nm) for nm in want], str(got))
        v.raises("unknown-split-rejected", ValueError, lambda: OpenImagesV6(d, "validation", image_list_file=lf))


@contract("C27", "kodak_items", funcs=[D + "_kodak.Kodak.__init__", D + "_kodak.Kodak.__len__", D + "_kodak.Kodak.__getitem__"], runs=30)
def kodak_items(v):
    """item i is kodim(i+1), all 24"""
    import tempfile
    from neuralcompression.data import Kodak
    i = v.choose("i", list(range(24)))
    tr = v.choose("transform", [None, lambda p: "t" + p])
    with tempfile.TemporaryDirectory() as d, _use(v, LOADER, _path_loader):
        ds = Kodak(d, check_hash=False, transform=tr)
        v.ensure("24-images", len(ds) == 24)
        v.ensure("image-i", ds[i] == ("" if tr is None else "t") + "%s/kodim%02d.png" % (d, i + 1))
        v.raises("missing-directory-reported", FileNotFoundError, lambda: Kodak(d + "/missing", check_hash=False))


@contract("C27", "kodak_download_and_hash", bounded=True, runs=8,
          funcs=[D + "_kodak.Kodak._download", D + "_kodak.Kodak._check_integrity", D + "_kodak.Kodak.__init__"])
def kodak_download(v):
    """download writes each image's bytes under its name (over an existing directory only when forced); a damaged file is refused"""
    import hashlib
    import io
    import os
    import tempfile
    import urllib.request
    from unittest import mock
    import neuralcompression.data._kodak as K
    if not hasattr(K, "SHA_HASH"):
        v.need(D + "_kodak.SHA_HASH")
    size = v.int("size", 1, 3000)
    blob = {"kodim%02d.png" % k: bytes(v.rng.randrange(256) for _ in range(size)) for k in range(1, 25)}
    asked = []

    def urlopen(url, *a, **k):
        url = url if isinstance(url, str) else url.full_url
        asked.append(url)
        v.ensure("asks-the-given-server", url.startswith("http://mirror/k/"))
        return io.BytesIO(blob[url.rsplit("/", 1)[1]])
    good = hashlib.sha1(b"".join(blob["kodim%02d.png" % k] for k in range(1, 25))).hexdigest()
    with tempfile.TemporaryDirectory() as d, mock.patch.object(urllib.request, "urlopen", urlopen), mock.patch.object(K, "SHA_HASH", good), \
            mock.patch.object(K, "tqdm", lambda x, **k: x):
        root = d + "/kodak"
        state = v.choose("state", ["fresh", "existing", "forced"])
        if state != "fresh":
            os.mkdir(root)
            with open(root + "/kodim05.png", "wb") as h:
                h.write(b"old contents" * size)
        if state == "existing":
            v.raises("an-existing-directory-is-not-overwritten", RuntimeError,
                     lambda: K.Kodak(root, download=True, kodak_url="http://mirror/k/"))
            v.ensure("nothing-touched", open(root + "/kodim05.png", "rb").read() == b"old contents" * size and os.listdir(root) == ["kodim05.png"])
            return
        K.Kodak(root, download=True, force_download=state == "forced", kodak_url="http://mirror/k/")
        v.ensure("all-files-as-served", {f: open(root + "/" + f, "rb").read() for f in os.listdir(root)} == blob)
        v.ensure("each-fetched-once", sorted(asked) == sorted("http://mirror/k/" + f for f in blob))
        victim = root + "/kodim%02d.png" % v.int("victim", 1, 24)
        data = bytearray(open(victim, "rb").read())
        data[v.int("at", 0, size - 1)] ^= 1 << v.int("bit", 0, 7)
        open(victim, "wb").write(bytes(data))
        v.raises("a-damaged-file-is-refused", RuntimeError, lambda: K.Kodak(root))
        K.Kodak(root, check_hash=False)


class _Frames:
    """contract of pytorchvideo's FrameVideo as the dataset uses it"""
    log = []

    def __init__(self, paths):
        self.paths, self.duration = [str(p) for p in paths], len(paths) / 30.0

    @classmethod
    def from_frame_paths(cls, paths, fps=30.0, multithreaded_io=False):
        return cls(list(paths))

    def get_clip(self, a, b, frame_filter=None):
        return {"video": (self, a, b, frame_filter), "audio": None}


@contract("C27", "clip_iteration", funcs=[CV + "__init__", CV + "__getitem__", CV + "__next__", CV + "__iter__", CV + "__len__"],
          runs=40, budget=200, notes="histories of up to 5 clips over 2 videos and a second epoch; clip times and clip boundaries arbitrary")
def clip_iteration(v):
    """each epoch goes through every video once, all clips of one video before the next, frames in order"""
    import os
    import tempfile
    from collections import namedtuple
    from neuralcompression.data import CLIC2020Video
    Info = namedtuple("Info", "clip_start_sec clip_end_sec clip_index aug_index is_last_clip")
    steps = []
    st = {"fresh": True, "k": 0}

    def sampler(last_end, duration, annotation):
        k = st["k"] = st["k"] + 1
        last = v.bool("last%d" % k)
        aug = 0 if st["fresh"] or k not in (2, 3) else v.choose("aug%d" % k, [0, 1])
        i = Info(v.real("start%d" % k, 0), v.real("end%d" % k, 0), k, aug, last)
        steps.append((last_end, duration, i, st["fresh"]))
        st["fresh"] = bool(last)
        return i
    order = v.choose("order", [[0, 1], [1, 0]])
    tr = v.choose("transform", [None, lambda s: dict(s, extra=1)])
    with tempfile.TemporaryDirectory() as d, _use(v, "pytorchvideo.data.frame_video.FrameVideo", _Frames), _shuffled_glob(7):
        for name in ("va", "vb"):
            os.makedirs("%s/%s" % (d, name))
            for k in range(4):
                for plane in "yuv":
                    open("%s/%s/%05d_%s.png" % (d, name, k, plane), "w").close()
        ds = CLIC2020Video(d, sampler, video_sampler=lambda paths: list(order), transform=tr)
        names = []
        v.ensure("one-item-per-video", ds.__len__() == 2)
        for epoch in (0, 1):
            it = iter(ds)
            done = 0  # videos finished in this epoch
            end, clip = 0.0, None
            for _ in range(5 if epoch == 0 else 2):
                n0 = len(steps)
                if done == 2:
                    try:
                        next(it)
                        v.fail("ends-after-the-last-clip-of-the-last-video", "another sample")
                    except StopIteration:
                        v.ensure("ends-after-the-last-clip-of-the-last-video", True)
                    break
                try:
                    s = next(it)
                except StopIteration:
                    v.fail("goes-through-every-video-and-clip", "stopped after %d videos of epoch %d" % (done, epoch))
                    return
                v.ensure("one-clip-sampled-per-item", len(steps) == n0 + 1)
                last_end, duration, i, _f = steps[-1]
                v.ensure_close("clips-continue-where-the-last-ended", last_end, end)
                v.ensure("every-video-once-per-epoch", s["video_index"] == order[done])
                if i.aug_index == 0:
                    vid, a, b, _flt = s["video"]
                    v.ensure("the-clip-sampled", v.And(a == i.clip_start_sec, b == i.clip_end_sec))
                    v.ensure("the-luma-frames-of-that-video-in-order",
                             vid.paths == ["%s/%s/%05d_y.png" % (d, s["video_name"], k) for k in range(4)], str(vid.paths))
                    v.ensure("duration-of-that-video", duration == vid.duration)
                    clip = s["video"]
                else:
                    v.ensure("augmentations-reuse-the-clip", s["video"] is clip)
                v.ensure("indices-reported", s["clip_index"] == i.clip_index and s["aug_index"] == i.aug_index)
                v.ensure("transform-applied", ("extra" in s) == (tr is not None))
                if epoch == 0 and s["video_name"] not in names:
                    names.append(s["video_name"])
                if i.is_last_clip:
                    done, end = done + 1, 0.0
                else:
                    end = i.clip_end_sec
            if done != 2:
                return
        v.ensure("both-videos-seen", sorted(names) == ["va", "vb"])


@contract("C27", "frame_subsampling", funcs=[CV + "_sample_frames"], runs=60)
def frame_subsampling(v):
    """k frames spread evenly from the first to the last, in order"""
    from neuralcompression.data import CLIC2020Video
    n, base, step = v.int("n", 1, span=40), v.int("base", 0, span=50), v.int("step", 1, span=3)
    k = v.choose("k", [1, 2, 3, 4, 5, 8])

    class Frames:
        def _sym_len(self):
            return n

        def __len__(self):
            return n

        def __getitem__(self, i):
            v.ensure("position-in-range", v.And(i >= 0, i < n))
            return base + step * i
    got = v.need(CV + "_sample_frames")(Frames(), frames_per_clip=k)
    v.ensure("k-frames", len(got) == k)
    v.ensure("starts-at-the-first", got[0] == base)
    if k > 1:
        v.ensure("ends-at-the-last", got[-1] == base + step * (n - 1))
        for j in range(k - 1):
            v.ensure("in-order", got[j] <= got[j + 1])
        for j in range(k):
            d = (got[j] - base) * (k - 1) - step * j * (n - 1)
            v.ensure("evenly-spread", v.And(d <= 0, d > -step * (k - 1) if v.sym else d >= -step * (k - 1)))
