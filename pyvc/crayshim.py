"""Stand-in for the pip package craystack (absent here), for contracts on projects/bits_back_diffusion.

Concrete runs: a small numpy rANS with craystack's interface.  Proofs: the assumed contract of that interface - a message is an abstract
stack; popping with the codec that pushed last returns what was pushed and the message before, pushing back what was just popped with the
same codec restores the message; `same codec` (equal kind and parameters) is an obligation, not an assumption."""
import sys
import types
from collections import namedtuple

import numpy as np
from scipy.stats import norm

Codec = namedtuple("Codec", ["push", "pop"])
L = 1 << 31
HOOK = {"v": None}  # the symbolic run, when one is active


# --------------------------------------------------------------------------- concrete rANS
class Tail:
    """persistent stack of 32-bit words"""
    __slots__ = ("words", "rest", "n")

    def __init__(self, words, rest):
        self.words, self.rest, self.n = words, rest, len(words) + (rest.n if rest is not None else 0)


class Empty(Exception):
    pass


def _tail_push(tail, words):
    return Tail(np.asarray(words, dtype=np.uint32), tail) if len(words) else tail


def _tail_pop(tail, n):
    out = []
    while n:
        if tail is None:
            raise Empty("the message is exhausted")
        k = min(n, len(tail.words))
        out.append(tail.words[:k])
        w = tail.words[k:]
        tail = Tail(w, tail.rest) if len(w) else tail.rest
        n -= k
    return tail, (np.concatenate(out) if out else np.zeros(0, np.uint32))


def _push(message, start, freq, prec):
    head, tail = message
    start, freq = np.broadcast_to(start, head.shape).astype(np.uint64), np.broadcast_to(freq, head.shape).astype(np.uint64)
    assert (freq > 0).all() and (start + freq <= (1 << prec)).all(), "interval outside the coding range"
    over = head >= (np.uint64((L >> prec) << 32) * freq)
    head = head.copy()
    tail = _tail_push(tail, (head[over] & np.uint64(0xFFFFFFFF)).astype(np.uint32))
    head[over] >>= np.uint64(32)
    q, r = np.divmod(head, freq)
    return (q << np.uint64(prec)) + r + start, tail


def _peek(message, prec):
    return message[0] & np.uint64((1 << prec) - 1)


def _drop(message, start, freq, prec):
    head, tail = message
    start, freq = np.broadcast_to(start, head.shape).astype(np.uint64), np.broadcast_to(freq, head.shape).astype(np.uint64)
    cf = head & np.uint64((1 << prec) - 1)
    head = freq * (head >> np.uint64(prec)) + cf - start
    low = head < L
    tail, words = _tail_pop(tail, int(low.sum()))
    head = head.copy()
    head[low] = (head[low] << np.uint64(32)) | words.astype(np.uint64)
    return head, tail


def NonUniform(enc_statfun, dec_statfun, prec):
    def push(message, symbol):
        start, freq = enc_statfun(np.asarray(symbol))
        return _push(message, start, freq, prec),

    def pop(message):
        cf = _peek(message, prec)
        symbol = dec_statfun(cf)
        start, freq = enc_statfun(symbol)
        assert (start <= cf).all() and (cf < start + freq).all(), "decoded symbol does not own its code point"
        return _drop(message, start, freq, prec), symbol
    return Codec(push, pop)


def _nearest_uint(x):
    return np.uint64(np.ceil(np.asarray(x, dtype=float) - 0.5))


def _cumulative_buckets_from_probs(probs, prec):
    p = np.rint(np.asarray(probs, dtype=float) * (1 << prec)).astype(np.int64)
    p[p == 0] = 1
    am = np.argmax(p, axis=-1)[..., np.newaxis]
    diff = (1 << prec) - p.sum(axis=-1, keepdims=True)
    mx = np.take_along_axis(p, am, axis=-1)
    assert not np.any(mx + diff <= 0), "cannot rebalance buckets"
    np.put_along_axis(p, am, mx + diff, axis=-1)
    return np.concatenate([np.zeros(p.shape[:-1] + (1,), np.int64), np.cumsum(p, axis=-1)], axis=-1).astype(np.uint64)


def _cdf_from_cumulative_buckets(c):
    return lambda s: np.take_along_axis(c, np.asarray(s, dtype=np.int64)[..., np.newaxis], axis=-1)[..., 0]


def _cdf_to_enc_statfun(cdf):
    def f(s):
        lo = cdf(s)
        return lo, cdf(np.asarray(s) + 1) - lo
    return f


def _ppf_from_cumulative_buckets(c):
    n = c.shape[-1]

    def f(cf):
        return (np.asarray(c <= np.asarray(cf, dtype=np.uint64)[..., np.newaxis]).sum(axis=-1) - 1).astype(np.int64).clip(0, n - 2)
    return f


def _uniform(prec):
    return NonUniform(lambda s: (np.asarray(s, dtype=np.uint64), np.uint64(1)), lambda cf: cf.astype(np.int64), prec)


def _std_gaussian_buckets(prec):
    return norm.ppf(np.linspace(0, 1, (1 << prec) + 1))


def _centres(prec):
    return norm.ppf((np.arange(1 << prec) + 0.5) / (1 << prec))


def _gaussian_bins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    edges = _std_gaussian_buckets(bin_prec)
    x = np.asarray(bin_mean)[..., np.newaxis] + edges * np.asarray(bin_stdd)[..., np.newaxis]
    cdfs = norm.cdf(x, np.asarray(mean)[..., np.newaxis], np.asarray(stdd)[..., np.newaxis])
    cdfs[..., 0], cdfs[..., -1] = 0, 1
    c = _cumulative_buckets_from_probs(np.diff(cdfs, axis=-1), coding_prec)
    return NonUniform(_cdf_to_enc_statfun(_cdf_from_cumulative_buckets(c)), _ppf_from_cumulative_buckets(c), coding_prec)


# --------------------------------------------------------------------------- the abstract message
class Arr:
    """array of a fixed shape with symbolic elements"""
    __array_ufunc__ = None

    def __init__(self, v, shape, els):
        self.v, self.shape, self.els = v, tuple(shape), list(els)

    @property
    def size(self):
        return len(self.els)

    @property
    def ndim(self):
        return len(self.shape)

    def _map(self, f):
        return Arr(self.v, self.shape, [f(e) for e in self.els])

    def _bin(self, o, f):
        return Arr(self.v, self.shape, [f(a, b) for a, b in zip(self.els, elements(o, len(self.els)))])

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return self._map(lambda a: -a)

    def astype(self, dt, **k):
        d = np.dtype(dt)
        return self._map(self.v.to_real) if d.kind == "f" else self._map(lambda a: self.v.trunc(a) if _is_real(a) else a)

    def round(self, decimals=0):
        return self._map(lambda a: self.v.round(a))

    def clip(self, min=None, max=None):
        r = self
        if min is not None:
            r = r._map(lambda a: self.v.max(a, min))
        if max is not None:
            r = r._map(lambda a: self.v.min(a, max))
        return r

    def min(self):
        r = self.els[0]
        for e in self.els[1:]:
            r = self.v.min(r, e)
        return r

    def max(self):
        r = self.els[0]
        for e in self.els[1:]:
            r = self.v.max(r, e)
        return r

    def copy(self):
        return self


def _is_real(a):
    from .core import SymReal
    return isinstance(a, (SymReal, float))


def elements(x, n):
    if isinstance(x, Arr):
        return x.els
    a = np.asarray(x)
    if a.dtype == object:
        return [x] * n
    return [float(q) for q in np.broadcast_to(a, (n,) if a.ndim == 0 else a.shape).ravel()] if a.ndim else [x] * n


class Msg:
    def __init__(self, kind, prim, prev, sym, nbytes):
        self.kind, self.prim, self.prev, self.sym, self.nbytes = kind, prim, prev, sym, nbytes


class Prim:
    """an elementary codec: its kind, parameters, and shape and number of symbols"""

    def __init__(self, kind, params, shape, nsym):
        self.kind, self.params, self.shape, self.nsym = kind, params, shape, nsym

    def codec(self):
        return Codec(self.push, self.pop)

    def same(self, v, other, name):
        for i, (a, b) in enumerate(zip(self.params, other.params)):
            n = max(len(x.els) if isinstance(x, Arr) else int(np.asarray(x).size) if not hasattr(x, "e") else 1 for x in (a, b))
            for p, q in zip(elements(a, n), elements(b, n)):
                v.ensure(name, p == q, "%s parameter %d" % (self.kind, i))

    def push(self, message, data):
        v = HOOK["v"]
        els = elements(data, 0)
        for e in els:
            v.ensure("coded-symbols-in-range", v.And(e >= 0, e < self.nsym))
        if message.kind == "pop" and message.prim.kind == self.kind:
            self.same(v, message.prim, "pushed-back-with-the-codec-it-was-popped-with")
            for a, b in zip(els, message.sym.els):
                v.ensure("what-was-popped-is-pushed-back", a == b)
            return message.prev,
        k = fresh_int(v, 0)
        return Msg("push", self, message, data, message.nbytes + k),

    def pop(self, message):
        v = HOOK["v"]
        if message.kind == "push" and message.prim.kind == self.kind:
            self.same(v, message.prim, "popped-with-the-codec-it-was-pushed-with")
            return message.prev, message.sym
        k = fresh_int(v, 0)
        n = int(np.prod(self.shape))
        sym = Arr(v, self.shape, [fresh_int(v, 0, self.nsym - 1) for _ in range(n)])
        if HOOK.get("pops") is not None and self.kind == "gaussian-bins":
            HOOK["pops"].append((self.params[2], self.params[3], sym))
        nb = message.nbytes - k
        v.require(nb >= 0)
        return Msg("pop", self, message, sym, nb), sym


def fresh_int(v, lo, hi=None):
    from .core import CTX, wrap
    e = CTX.new("c")
    CTX.path.append(e >= lo)
    if hi is not None:
        CTX.path.append(e <= hi)
    return wrap(e)


# --------------------------------------------------------------------------- the package
def Uniform(prec):
    v = HOOK["v"]
    return _uniform(prec) if v is None else Prim("uniform", [prec], HOOK["shape"], 1 << prec).codec()


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    v = HOOK["v"]
    if v is None:
        c = _gaussian_bins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec)
        if HOOK.get("pops") is None:
            return c

        def pop(message):
            message, inds = c.pop(message)
            HOOK["pops"].append((bin_mean, bin_stdd, inds))
            return message, inds
        return Codec(c.push, pop)
    return Prim("gaussian-bins", [mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec], HOOK["shape"], 1 << bin_prec).codec()


class _SymCentres:
    def __init__(self, v, prec):
        self.v, self.prec = v, prec

    def __getitem__(self, inds):
        from .core import wrap, z3, zi
        f = z3.Function("centre%d" % self.prec, z3.IntSort(), z3.RealSort())
        return inds._map(lambda i: wrap(f(zi(i))))


def std_gaussian_centres(prec):
    v = HOOK["v"]
    return _centres(prec) if v is None else _SymCentres(v, prec)


def random_message(flat_len, shape, seed=None):
    v = HOOK["v"]
    if v is not None:
        n = fresh_int(v, 0)
        return Msg("base", None, None, None, n)
    rng = np.random.RandomState(seed if seed is not None else HOOK.get("seed", 0))
    head = rng.randint(L, 1 << 32, size=shape, dtype=np.uint64) << rng.randint(0, 30, size=shape).astype(np.uint64)
    n = max(0, int(flat_len) - 2 * int(np.prod(shape)))
    return head, _tail_push(None, rng.randint(1 << 32, size=n, dtype=np.uint32))


class _Flat:
    def __init__(self, msg):
        self.msg, self.nbytes = msg, msg.nbytes


def flatten(message):
    if isinstance(message, Msg):
        return _Flat(message)
    head, tail = message
    out = [np.ravel(head) >> np.uint64(32), np.ravel(head) & np.uint64(0xFFFFFFFF)]
    while tail is not None:
        out.append(tail.words)
        tail = tail.rest
    return np.concatenate([np.asarray(o).astype(np.uint32) for o in out])


def unflatten(arr, shape):
    if isinstance(arr, _Flat):
        return arr.msg
    n = int(np.prod(shape))
    head = (arr[:n].astype(np.uint64) << np.uint64(32)) | arr[n:2 * n].astype(np.uint64)
    return head.reshape(shape), _tail_push(None, arr[2 * n:])


def substack(codec, view):
    v = HOOK["v"]
    if v is not None:
        n = int(np.prod(HOOK["shape"]))
        w = np.asarray(view(np.arange(n)))
        v.ensure("the-codec-sees-every-lane-once", w.shape == tuple(HOOK["shape"]) and sorted(w.ravel().tolist()) == list(range(n)))
        return codec

    def lanes(head):
        ix = view(np.arange(head.size).reshape(head.shape))
        return ix, head.ravel()[ix]

    def back(head, ix, sub):
        h = head.ravel().copy()
        h[ix] = sub
        return h.reshape(head.shape)

    def push(message, data):
        head, tail = message
        ix, sub = lanes(head)
        ((sub, tail),) = codec.push((sub, tail), data)
        return (back(head, ix, sub), tail),

    def pop(message):
        head, tail = message
        ix, sub = lanes(head)
        (sub, tail), data = codec.pop((sub, tail))
        return (back(head, ix, sub), tail), data
    return Codec(push, pop)


def BBANS(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        (message,) = likelihood(latent).push(message, data)
        (message,) = prior.push(message, latent)
        return message,

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data
    return Codec(push, pop)


def message_equal(a, b):
    fa, fb = flatten(a), flatten(b)
    return fa.shape == fb.shape and bool((fa == fb).all())


def install():
    cs, co, bb = (types.ModuleType(n) for n in ("craystack", "craystack.codecs", "craystack.bb_ans"))
    for k in ("Codec", "Uniform", "DiagGaussian_GaussianBins", "std_gaussian_centres", "random_message", "flatten", "unflatten", "substack",
              "NonUniform"):
        setattr(cs, k, globals()[k])
        setattr(co, k, globals()[k])
    for k in ("norm", "_cumulative_buckets_from_probs", "_cdf_from_cumulative_buckets", "_cdf_to_enc_statfun",
              "_ppf_from_cumulative_buckets", "_nearest_uint"):
        setattr(co, k, globals()[k])
    bb.BBANS = cs.BBANS = BBANS
    cs.codecs, cs.bb_ans, cs.__path__ = co, bb, []
    sys.modules.update({"craystack": cs, "craystack.codecs": co, "craystack.bb_ans": bb})
    im, gd = types.ModuleType("improved_diffusion"), types.ModuleType("improved_diffusion.gaussian_diffusion")
    gd.GaussianDiffusion = type("GaussianDiffusion", (), {})
    im.gaussian_diffusion, im.__path__ = gd, []
    sys.modules.update({"improved_diffusion": im, "improved_diffusion.gaussian_diffusion": gd})
