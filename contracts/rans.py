"""C24: the rANS coder (projects/jax_entropy_coders/craystack) is lossless.  jax is absent here; the coder's own source runs against
pyvc.jaxshim (numpy for concrete runs, symbolic arrays over any number of interleaved lanes for the proofs)."""
import sys

from pyvc import REPO
from pyvc import jaxshim as J
from pyvc.api import contract

J.install()
JEC = REPO + "/projects/jax_entropy_coders"
if JEC not in sys.path:
    sys.path.insert(0, JEC)
PRELOAD = ["craystack"]
B = "craystack._backend."
C = "craystack.codecs."
D = "craystack.coder."
MIN, TOP = 1 << 24, 1 << 32


class _State:
    """an arbitrary coder state: heads in [2^24, 2^32), tail pointer with room for every lane's three bytes"""

    def __init__(self, v, N, tag=""):
        import craystack._backend as b
        from pyvc.core import wrap, zi
        self.N = N
        self.cap = v.int("capacity" + tag, 1)
        self.limit = v.int("limit" + tag, 0)
        v.require(self.limit >= 3 * N)
        v.require(self.limit <= self.cap)
        self.head = J.fresh("head" + tag, N, MIN, TOP, "uint32")
        self.data = J.fresh("tail" + tag, self.cap, 0, 256, "uint8")
        self.msg = b.CrayCompressedMessage(self.head, b.CrayTail(J.array([self.limit]), self.data))


def _same(v, name, got, st, lane, k):
    """got is the state st: heads, pointer and every byte above the pointer"""
    from pyvc.core import wrap
    head, (lim, data) = got
    v.ensure(name + "-head", wrap(head.at(lane)) == wrap(st.head.at(lane)))
    v.ensure(name + "-pointer", wrap(lim.at(0)) == st.limit)
    v.ensure(name + "-bytes", v.Implies(v.And(k >= st.limit, k < st.cap), wrap(data.at(k)) == wrap(st.data.at(k))))


def _symonly(v):
    if not v.sym:
        from pyvc.api import Reject
        raise Reject()


def _interval(v, N, p, tag=""):
    """arbitrary per-lane CDF intervals inside [0, 2^p)"""
    from pyvc.core import CTX, z3
    lo = J.fresh("low" + tag, N, 0, 1 << p, "uint32")
    hf = z3.Function("high" + tag, z3.IntSort(), z3.IntSort())

    def hi(j):
        l = lo.fn(j)
        e = hf(j)
        CTX.fact(z3.Implies(z3.And(j >= 0, j < N.e if hasattr(N, "e") else j < N), z3.And(e > l, e <= (1 << p))))
        return e
    return lo, J.SA((N,), hi, "uint32")


def _lim(v, t):
    from pyvc.core import wrap
    return wrap(t[0].at(0))


@contract("C24", "popping_a_pushed_byte_restores_the_tail", funcs=[B + "tail_push", B + "tail_pop"], runs=0, thorough_runs=0, budget=120,
          notes="for every number of lanes, choice of lanes, bytes and buffer; the sort of the lane mask enters by the contract of a stable sort")
def tail_pair(v):
    _symonly(v)
    import craystack._backend as b
    from pyvc.core import wrap, CTX
    N = v.int("lanes", 1)
    cap, limit = v.int("capacity", 1), v.int("limit", 0)
    v.require(limit <= cap)
    lane, k = v.index("lane", N), v.int("position", 0)
    v.require(k < cap)
    data = J.fresh("tail", cap, 0, 256, "uint8")
    mask = J.freshbool("mask", N)
    byts = J.fresh("bytes", N, 0, 256, "uint8")
    tail = b.CrayTail(J.array([limit]), data)
    if v.choose("order", ["push-pop", "pop-push"]) == "push-pop":
        v.require(limit >= N)
        t1 = b.tail_push(tail, mask, byts)
        v.ensure("pointer-moves-by-the-number-of-bytes", v.And(_lim(v, t1) <= limit, _lim(v, t1) >= limit - N, _lim(v, t1) == limit - J.jsum(mask)))
        v.ensure("bytes-above-are-kept", v.Implies(k >= limit, wrap(t1[1].at(k)) == wrap(data.at(k))))
        t2, out = b.tail_pop(t1, mask)
        v.ensure("popped-is-pushed", v.Implies(wrap(mask.at(lane)), wrap(out.at(lane)) == wrap(byts.at(lane))))
        v.ensure("pointer-restored", _lim(v, t2) == limit)
        v.ensure("bytes-above-restored", v.Implies(k >= limit, wrap(t2[1].at(k)) == wrap(data.at(k))))
        return
    n = J.jsum(mask)
    v.require(cap >= 2 * N)
    v.require(limit >= N)
    allow = v.choose("allow_empty_pop", [False, True])
    if not allow:
        v.require(limit + n <= cap)
    short = limit + n - cap
    if not short > 0:
        short = 0
    t1, out = b.tail_pop(tail, mask, allow)
    v.ensure("pop-moves-the-pointer", _lim(v, t1) == limit + n - short)
    t2 = b.tail_push(t1, mask, out)
    v.ensure("pointer-put-back", _lim(v, t2) == limit - short)
    v.ensure("bytes-put-back", v.Implies(k >= limit, wrap(t2[1].at(k - short)) == wrap(data.at(k))))


class _Ghost:
    """the tail by its contract (popping_a_pushed_byte_restores_the_tail): a stack of (lanes, bytes)"""

    def __init__(self, v, N, lane):
        import craystack._backend as b
        self.v, self.N, self.lane, self.stack, self.b, self.n = v, N, lane, [], b, 0
        self.undo = []
        self.tail = b.CrayTail(J.array([v.int("limit", 0)]), J.fresh("tail", v.int("capacity", 1), 0, 256, "uint8"))

    def push(self, tail, mask, byts):
        from pyvc.core import wrap
        v = self.v
        if self.undo:
            m, d = self.undo.pop()
            v.ensure("same-lanes-pushed-back", wrap(mask.at(self.lane)) == wrap(m.at(self.lane)))
            v.ensure("same-bytes-pushed-back", v.Implies(wrap(m.at(self.lane)), wrap(byts.at(self.lane)) == wrap(d.at(self.lane))))
        else:
            self.stack.append((mask, byts))
        return tail

    def pop(self, tail, mask, allow_empty_pop=False):
        from pyvc.core import wrap
        v = self.v
        self.n += 1
        d = J.fresh("popped%d" % self.n, self.N, 0, 256, "uint8")
        if self.stack:
            m, byts = self.stack.pop()
            v.ensure("same-lanes-popped", wrap(mask.at(self.lane)) == wrap(m.at(self.lane)))
            d = J.where(m, byts, d)
            d.dtype = "uint8"
        else:
            self.undo.append((mask, d))
        return tail, d


PREC = {"1-8": range(1, 9), "9-16": range(9, 17), "17-20": range(17, 21), "21-24": range(21, 25)}


def _steps(v, precisions):
    import craystack._backend as b
    import craystack.coder as coder
    from craystack.codecs import default_rans_codec
    from pyvc.core import wrap
    p = v.choose("precision", precisions)
    order = v.choose("order", ["encode-decode", "decode-encode"])
    N = v.int("lanes", 1)
    L = v.int("length", 1)
    i = v.index("iteration", L)
    lane = v.index("lane", N)
    g = _Ghost(v, N, lane)
    from pyvc.core import CTX
    CTX.cache["jaxpowers"] = sorted({k for k in (0, p, 8 - p, 16 - p, 24 - p, 32 - p) if k >= 0})
    head = J.fresh("head", N, MIN, TOP, "uint32")
    msg = b.CrayCompressedMessage(head, g.tail)
    lo, hi = _interval(v, N, p)
    message = J.fresh("message", (L, N), 0, 1 << 31, "int64")
    symbols = message[L - 1 - i]
    seen = {}

    def cdf_fun(symbols, state):
        seen["pushed"] = symbols
        return lo, hi, state

    def inverse(value, state):
        e = wrap(value.at(lane))
        inside = v.And(e >= wrap(lo.at(lane)), e < wrap(hi.at(lane)))
        if order == "encode-decode":
            v.ensure("peeked-value-lies-in-the-symbol's-interval", inside)
        else:
            v.require(inside)
        return lo, hi, symbols, state
    codec = default_rans_codec(cdf_fun, inverse, (), p)
    out = {}

    def enc_loop(a, z, body, init):
        v.ensure("encodes-every-symbol", v.And(a == 0, z == L))
        out["S"], _ = body(i, (out.get("S", msg), ()))
        return out["S"], ()

    def dec_loop(a, z, body, init):
        v.ensure("decodes-every-symbol", v.And(a == 0, z == L))
        out["S"], out["m"], _ = body(L - 1 - i, (out.get("S", msg), init[1], ()))
        return out["S"], out["m"], ()

    def normalised():
        h = wrap(out["S"][0].at(lane))
        v.ensure("head-stays-normalised", v.And(h >= MIN, h < TOP))

    def enc():
        J.HOOKS["fori_loop"] = enc_loop
        coder._jax_encode(message, msg, codec, ())
        normalised()
        v.ensure("the-symbol-is-that-of-the-position", wrap(seen["pushed"].at(lane)) == wrap(message.at(L - 1 - i, lane)))

    def dec():
        J.HOOKS["fori_loop"] = dec_loop
        arr = J.fresh("buffer", 4 * N + v.int("tailsize", 0), 0, 256, "uint8")
        coder._jax_decode(arr, 0, L, (N,), codec, ())
        normalised()
        row = v.index("row", L)
        v.ensure("message-gets-the-symbol", v.Implies(row == L - 1 - i, wrap(out["m"].at(row, lane)) == wrap(message.at(row, lane))))
    try:
        with v.stub(B + "tail_push", g.push), v.stub(B + "tail_pop", g.pop):
            if order == "encode-decode":
                enc()
                n = len(g.stack)
                v.ensure("at-most-three-bytes-per-lane", n <= 3)
                dec()
                v.ensure("everything-popped", not g.stack and not g.undo)
            else:
                dec()
                enc()
                v.ensure("everything-pushed-back", not g.stack and not g.undo)
    finally:
        J.HOOKS["fori_loop"] = None
    v.ensure("head-restored", wrap(out["S"][0].at(lane)) == wrap(head.at(lane)))


for _name, _r in PREC.items():
    def _mk(rng):
        def f(v):
            _symonly(v)
            _steps(v, list(rng))
        return f
    contract("C24", "coding_steps_invert_each_other_precision_" + _name,
             funcs=[B + "push_symbols", B + "pop_symbols", B + "peek", C + "default_rans_codec", D + "_jax_encode", D + "_jax_decode"],
             runs=0, thorough_runs=0, budget=400,
             notes="the loop bodies of encode and decode in both orders, for every number of lanes, state and symbol intervals; tail_push and tail_pop by their contract")(_mk(_r))


@contract("C24", "framing_keeps_the_coder_state", funcs=[D + "encode", D + "decode", D + "_jax_encode", D + "_jax_decode", B + "craymessage_to_array", B + "array_to_craymessage", B + "insert_zeros", B + "convert_to_embedded", B + "empty_message", B + "empty_stack"],
          runs=0, thorough_runs=0, budget=240, notes="what decode starts from is what encode ended with, and what decode returns is what encode started from; the coding loops by their contract (coding_steps_invert_each_other)")
def framing(v):
    _symonly(v)
    import craystack._backend as b
    import craystack.coder as coder
    from craystack.codecs import CrayCodec
    from pyvc.core import wrap
    nb = v.choose("batch", [1, 2])
    start = v.choose("buffers", ["new", "given"])
    N, L = v.int("lanes", 1), v.int("length", 1)
    lane, k = v.index("lane", N), v.int("from_the_end", 1)
    cap, cap2 = v.int("capacity", 1), v.int("capacity_decode", 1)
    codec = CrayCodec(None, None, J.zeros((nb, 1)), "int64")
    messages = J.fresh("message", (nb, L, N), 0, 1 << 31, "int64")
    A, m = [], []
    for j in range(nb):
        m.append(0 if start == "new" else v.int("rest%d" % j, 0))
        v.require(m[j] + 2 <= cap)
        v.require(m[j] + 2 <= cap2)
        A.append(J.fresh("given%d" % j, 4 * N + m[j], 0, 256, "uint8") if start == "given" else None)
    S, init_e, init_d, D_ = [], [], [], []

    def word(a, i):
        return ((wrap(a.at(i)) * 256 + wrap(a.at(N + i))) * 256 + wrap(a.at(2 * N + i))) * 256 + wrap(a.at(3 * N + i))

    def enc_loop(a, z, body, init):
        j = len(S)
        init_e.append(init[0])
        lim = v.int("pushed_to%d" % j, 1)
        v.require(lim <= cap)
        v.require(cap - lim + 1 <= cap2)
        s = b.CrayCompressedMessage(J.fresh("head_after%d" % j, N, MIN, TOP, "uint32"), b.CrayTail(J.array([lim]), J.fresh("tail_after%d" % j, cap, 0, 256, "uint8")))
        S.append((s, lim))
        return s, init[1]

    def dec_loop(a, z, body, init):
        j = len(init_d)
        init_d.append(init[0])
        # by the contract of the loops: the state encode began with, its bytes counted from the end of this buffer
        h0, (l0, d0) = init_e[j]
        data = J.fresh("tail_back%d" % j, cap2, 0, 256, "uint8")
        lim = v.int("popped_to%d" % j, 0)
        v.require(cap2 - lim == cap - wrap(l0.at(0)))
        back = J.SA((cap2,), lambda i: _back(i, data, d0, lim), "uint8")
        return b.CrayCompressedMessage(h0, b.CrayTail(J.array([lim]), back)), init[1], init[2]

    def _back(i, data, d0, lim):
        from pyvc.core import zi, z3
        return z3.If(i >= zi(lim), d0.fn(i - zi(cap2) + zi(cap)), data.fn(i))
    try:
        J.HOOKS["fori_loop"] = enc_loop
        O, _ = coder.encode(messages, codec, tail_capacity=cap, start_buffers=A if start == "given" else None)
        for j in range(nb):
            h, (l, d) = init_e[j]
            if start == "new":
                v.ensure("a-new-buffer-is-empty", v.And(wrap(h.at(lane)) == MIN, wrap(l.at(0)) == cap))
            else:
                v.ensure("heads-of-the-given-buffer", wrap(h.at(lane)) == word(A[j], lane))
                v.ensure("pointer-below-all-given-bytes", wrap(l.at(0)) == cap - m[j])
                v.ensure("given-bytes-kept", v.Implies(k <= m[j], wrap(d.at(cap - k)) == wrap(A[j].at(4 * N + m[j] - k))))
            v.ensure("length-of-the-output", O[j].shape[0] == 4 * N + (cap - S[j][1]) + 1)
        J.HOOKS["fori_loop"] = dec_loop
        got, rest, _ = coder.decode(O, L, (N,), codec, tail_capacity=cap2)
    finally:
        J.HOOKS["fori_loop"] = None
    for j in range(nb):
        (h, (_, d)), lim = S[j]
        h1, (l1, d1) = init_d[j]
        v.ensure("decode-starts-from-encode's-heads", wrap(h1.at(lane)) == wrap(h.at(lane)))
        v.ensure("decode-starts-from-encode's-bytes", v.And(wrap(l1.at(0)) == cap2 - (cap - lim), v.Implies(k <= cap - lim, wrap(d1.at(cap2 - k)) == wrap(d.at(cap - k)))))
        if start == "new":
            v.ensure("nothing-left", rest[j].shape[0] == 4 * N)
            v.ensure("heads-are-the-initial-ones", word(rest[j], lane) == MIN)
        else:
            v.ensure("the-given-buffer-comes-back-length", rest[j].shape[0] == 4 * N + m[j])
            r = v.index("byte", 4 * N + m[j])
            v.ensure("the-given-buffer-comes-back", wrap(rest[j].at(r)) == wrap(A[j].at(r)))


@contract("C24", "table_codec_inverts_its_table", funcs=[C + "fixed_array_cdf_codec", C + "default_rans_codec"], runs=0, thorough_runs=0, budget=120,
          notes="any table per lane, any alphabet size, any symbol of positive frequency; push_symbols, pop_symbols and peek record what they are given")
def table(v):
    _symonly(v)
    from craystack.codecs import fixed_array_cdf_codec
    from pyvc.core import wrap, CTX, z3, zi
    p = v.choose("precision", [1, 12, 16, 24])
    N, M = v.int("lanes", 1), v.int("alphabet", 1)
    lane = v.index("lane", N)
    sym = J.SA((N,), lambda j: _rng(j), "int64")
    sf = z3.Function("symbol", z3.IntSort(), z3.IntSort())
    cf = z3.Function("cdf", z3.IntSort(), z3.IntSort(), z3.IntSort())

    def _rng(j):
        e = sf(j)
        CTX.fact(z3.And(e >= 0, e < zi(M)))
        return e

    def cdf_fn(j, i):
        # non-decreasing from 0 to 2^p, instantiated at the symbol and its successor
        e, s = cf(j, i), _rng(j)
        CTX.fact(z3.Implies(z3.And(i >= 0, i <= s), z3.And(cf(j, i) <= cf(j, s))))
        CTX.fact(z3.Implies(z3.And(i > s, i <= zi(M)), cf(j, i) >= cf(j, s + 1)))
        CTX.fact(z3.And(cf(j, z3.IntVal(0)) == 0, cf(j, zi(M)) == (1 << p), e >= 0, e <= (1 << p)))
        return e
    table = J.SA((N, M + 1), cdf_fn, "uint32")
    value = J.fresh("value", N, 0, 1 << p, "uint32")
    codec = fixed_array_cdf_codec(table, p)
    CTX.cache["jaxprobes"] = [lambda j: _rng(j) + 1, lambda j: _rng(j)]
    rec = {}

    def push(m, lo, hi, precision):
        rec["push"] = (lo, hi)
        v.ensure("precision-when-pushing", precision == p)
        return m

    def pop(m, cfs, lo, hi, precision, allow_empty_pops=False):
        rec["pop"] = (lo, hi, cfs)
        v.ensure("precision-when-popping", precision == p)
        return m
    with v.stub(B + "push_symbols", push), v.stub(B + "pop_symbols", pop), v.stub(B + "peek", lambda m, precision: value):
        codec.push(sym, "state", codec.cdf_state)
        lo, hi = (wrap(x.at(lane)) for x in rec["push"])
        s = wrap(sym.at(lane))
        v.ensure("interval-is-the-table's", v.And(lo == wrap(cdf_fn(zi(lane), zi(s))), hi == wrap(cdf_fn(zi(lane), zi(s) + 1))))
        v.require(wrap(value.at(lane)) >= lo)
        v.require(wrap(value.at(lane)) < hi)
        L = v.int("length", 1)
        i = v.index("iteration", L)
        _, msg, _ = codec.pop(i, "state", J.fresh("message", (L, N), 0, 1 << 31, "int64"), codec.cdf_state)
    v.ensure("symbol-found", wrap(msg.at(i, lane)) == s)
    lo1, hi1, c1 = (wrap(x.at(lane)) for x in rec["pop"])
    v.ensure("same-interval-popped", v.And(lo1 == lo, hi1 == hi, c1 == wrap(value.at(lane))))


class _Codec:
    """an arbitrary invertible codec: pop undoes push and push undoes pop, for equal codecs"""

    def __init__(self, ident, dtype="int64", allow=False):
        self.ident, self.message_dtype, self.allow_empty_pops = ident, dtype, allow
        self.cdf_state = ("cdf state of", ident)

    def push(self, symbols, state, cdf_state):
        assert cdf_state == self.cdf_state, "another codec's state"
        if state[0] == "popped" and state[1] == self.ident and symbols == ("symbol", self.ident, state[2]):
            return state[2], cdf_state
        return ("pushed", self.ident, symbols, state), cdf_state

    def pop(self, index, state, message, cdf_state, allow_empty_pops=False):
        assert cdf_state == self.cdf_state, "another codec's state"
        if state[0] == "pushed" and state[1] == self.ident:
            s, st = state[2], state[3]
        else:
            s, st = ("symbol", self.ident, state), ("popped", self.ident, state)
        return st, message.put(index, s), cdf_state


class _Msg:
    def __init__(self, rows=(), latent=False):
        self.rows, self.latent = dict(rows), latent

    def put(self, i, s):
        if self.latent:
            return s  # a message of one entry: the update replaces it
        r = dict(self.rows)
        r[i] = s
        return _Msg(r)

    def __getitem__(self, i):
        return self.rows[i]


@contract("C24", "bits_back_gives_the_bits_back", funcs=[C + "bitsback_ans_codec"], runs=3, thorough_runs=3, budget=60,
          notes="for arbitrary invertible prior, posterior and likelihood codecs (free terms) and any coder state")
def bitsback(v):
    from craystack.codecs import bitsback_ans_codec
    from unittest import mock
    import craystack.codecs as m
    prior = _Codec("prior")
    dts = []

    def zeros(shape, dtype=None):
        dts.append(shape)
        return _Msg(latent=True)
    codec = bitsback_ans_codec(prior, lambda x: _Codec(("posterior", x), allow=True), lambda z: _Codec(("obs", z)), (7,), "int64")
    with mock.patch.object(m.jnp, "zeros", zeros):
        states = [("initial",)]
        n = v.choose("messages", [1, 2, 3])
        for i in range(n):
            s, _ = codec.push(("x", i), states[-1], None)
            states.append(s)
        v.ensure("latent-shape", all(tuple(s) == (7,) for s in dts))
        v.ensure("uses-the-three-codecs", states[1][:2] == ("pushed", "prior") and states[1][3][:2] == ("pushed", ("obs", states[1][2])))
        v.ensure("posterior-of-the-symbols", states[1][3][3][:2] == ("popped", ("posterior", ("x", 0))))
        for i in reversed(range(n)):
            s, msg, _ = codec.pop(i, states[i + 1], _Msg(), None)
            v.ensure("symbols-back", msg[i] == ("x", i))
            v.ensure("state-back", s == states[i])


def _cdf(v, rng, p, rows, M):
    import numpy as np
    out = np.zeros((rows, M + 1), "uint32")
    for r in range(rows):
        if (1 << p) < M:
            raise ValueError
        kind = v.choose("kind%d" % (r % 3), ["flat", "skew", "any"])
        if kind == "skew":
            cuts = sorted(rng.sample(range(1, min(1 << p, 4 * M + 2)), M - 1)) if M > 1 else []
        elif kind == "flat":
            cuts = [((k + 1) << p) // M for k in range(M - 1)]
        else:
            cuts = sorted(rng.sample(range(1, 1 << p), M - 1)) if M > 1 else []
        out[r, 1:M] = cuts
        out[r, M] = 1 << p
    return out


@contract("C24", "steps_at_the_renormalisation_bounds", funcs=[B + "push_symbols", B + "pop_symbols", B + "peek"], bounded=True, runs=150, thorough_runs=1500,
          notes="single steps on numpy with heads at and next to the renormalisation bounds of the symbol's frequency, up to 4 lanes")
def edges(v):
    import numpy as np
    import craystack._backend as b
    p, N = v.int("precision", 1, 24), v.int("lanes", 1, 4)
    head, lo, hi = [], [], []
    for i in range(N):
        top = 1 << p
        f = v.rng.choice([1, 2, top - 1, top, v.rng.randint(1, top), 1 << v.rng.randrange(p + 1)])
        f = max(1, min(f, top))
        s = v.rng.choice([0, top - f, v.rng.randint(0, top - f)])
        h = (f << (32 - p + 8 * v.rng.randrange(3))) + v.rng.choice([-1, 0, 1, -256, 255, v.rng.randrange(1 << 16)])
        if not MIN <= h < TOP or v.rng.random() < 0.2:
            h = v.rng.choice([MIN, TOP - 1, MIN + 1, v.rng.randrange(MIN, TOP)])
        head.append(h), lo.append(s), hi.append(s + f)
    head, lo, hi = (np.array(x, "uint32") for x in (head, lo, hi))
    data = np.array([v.rng.randrange(256) for _ in range(64)], "uint8")
    lim = 12 + v.rng.randrange(40)
    m = b.CrayCompressedMessage(head, b.CrayTail(np.array([lim]), data))
    m2 = b.push_symbols(m, lo, hi, p)
    v.ensure("heads-stay-normalised", bool((np.asarray(m2.head) >= MIN).all()))
    c = np.asarray(b.peek(m2, p))
    v.ensure("peek-shows-the-interval", bool(((c >= lo) & (c < hi)).all()))
    m3 = b.pop_symbols(m2, c, lo, hi, p)
    v.ensure("pop-undoes-push", np.asarray(m3.head).tolist() == head.tolist() and int(m3.tail[0][0]) == lim
             and np.asarray(m3.tail[1])[lim:].tolist() == data[lim:].tolist())
    # and the other order
    c = np.asarray(b.peek(m, p))
    l2, h2 = np.zeros(N, "uint32"), np.zeros(N, "uint32")
    for i in range(N):
        l2[i] = v.rng.randint(max(0, int(c[i]) - v.rng.choice([0, 3, 1 << 20])), int(c[i]))
        h2[i] = v.rng.randint(int(c[i]) + 1, min(1 << p, int(c[i]) + v.rng.choice([1, 4, 1 << 20])))
    m4 = b.pop_symbols(m, c, l2, h2, p)
    m5 = b.push_symbols(m4, l2, h2, p)
    v.ensure("push-undoes-pop", np.asarray(m5.head).tolist() == head.tolist() and int(m5.tail[0][0]) == lim)


@contract("C24", "messages_round_trip", funcs=[D + "encode", D + "decode", B + "push_symbols", B + "pop_symbols", B + "tail_push", B + "tail_pop", C + "fixed_array_cdf_codec"],
          bounded=True, runs=60, thorough_runs=400, notes="whole messages on numpy: up to 40 symbols, 5 lanes, batch 3, alphabet 12, chains of up to 3 messages on one buffer")
def whole(v):
    import numpy as np
    import craystack
    p = v.choose("precision", [4, 8, 12, 16, 20, 24])
    nb, N, L = v.int("batch", 1, 3), v.int("lanes", 1, 5), v.int("length", 1, 40)
    M = v.int("alphabet", 1, 12)
    chain = v.int("chain", 1, 3)
    cap = (3 * L * N + N + 8) * chain + 4
    buf, done = None, []
    for c in range(chain):
        tabs = np.stack([_cdf(v, v.rng, p, N, M) for _ in range(nb)])
        codec = craystack.fixed_array_cdf_codec(tabs, p, v.choose("dtype", ["int64", "uint8"]))
        msg = np.array([[[v.rng.randrange(M) for _ in range(N)] for _ in range(L)] for _ in range(nb)])
        before = buf
        buf, _ = craystack.encode(msg, codec, tail_capacity=cap, start_buffers=buf)
        done.append((msg, codec, before, buf))
    for msg, codec, before, after in reversed(done):
        got, rest, _ = craystack.decode(after, L, (N,), codec, tail_capacity=cap)
        v.ensure("symbols-back", bool((np.asarray(got) == msg).all()))
        if before is not None:
            v.ensure("buffer-back", all(len(a) == len(b) and bool((np.asarray(a) == np.asarray(b)).all()) for a, b in zip(rest, before)))
        else:
            v.ensure("buffer-empty-again", all(len(a) == 4 * N for a in rest))
            v.ensure("heads-initial-again", all(bytes(np.asarray(a, "uint8")) == b"\x01" * N + b"\x00" * (3 * N) for a in rest))
    short = v.choose("short", [False, True])
    if short and chain == 1 and max(len(b) for b in buf) - 4 * N - 1 > 1:
        # more bytes pushed than the tail holds
        need = max(len(b) for b in buf) - 4 * N - 1
        small = v.rng.choice([need - 1, v.rng.randrange(1, need)])
        if small >= N:
            v.raises("message-that-does-not-fit-is-refused", RuntimeError, lambda: craystack.encode(msg, codec, tail_capacity=small))
    if short:
        need = len(buf[0]) - 4 * N
        try:
            craystack.decode(buf, L, (N,), done[-1][1], tail_capacity=need - 1)
            v.ensure("buffer-that-does-not-fit-is-refused", False)
        except ValueError:
            pass


@contract("C24", "bits_back_round_trip", funcs=[C + "bitsback_ans_codec", D + "encode", D + "decode"], bounded=True, runs=40, thorough_runs=300,
          notes="bits-back coding of messages on a primed buffer (decoding gives the symbols and the priming buffer) and on an empty one (the symbols)")
def bitsback_whole(v):
    import numpy as np
    import craystack
    p = 16
    N, L, M, Z = v.int("lanes", 1, 4), v.int("length", 1, 12), v.int("alphabet", 1, 6), v.int("latents", 1, 20)
    cap = 4000
    primed = v.choose("primed", [True, False])
    prime = np.array([[[v.rng.randrange(4) for _ in range(N)] for _ in range(L * 6 + 20)]])
    pc = craystack.fixed_array_cdf_codec(np.stack([_cdf(v, v.rng, p, N, 4)]), p)
    buf0, _ = craystack.encode(prime, pc, tail_capacity=cap)
    prior = craystack.fixed_array_cdf_codec(_cdf(v, v.rng, p, N, Z), p)
    q, o = _cdf(v, v.rng, p, M, Z), _cdf(v, v.rng, p, Z, M)
    codec = craystack.bitsback_ans_codec(prior, lambda x: craystack.fixed_array_cdf_codec(q[np.asarray(x, int)], p, allow_empty_pops=True),
                                         lambda z: craystack.fixed_array_cdf_codec(o[np.asarray(z, int)], p), (N,), "int64")
    msg = np.array([[[v.rng.randrange(M) for _ in range(N)] for _ in range(L)]])
    buf, _ = craystack.encode(msg, codec, tail_capacity=cap, start_buffers=buf0 if primed else None)
    got, rest, _ = craystack.decode(buf, L, (N,), codec, tail_capacity=cap)
    v.ensure("symbols-back", bool((np.asarray(got) == msg).all()))
    if primed:
        v.ensure("buffer-back", all(len(a) == len(b) and bool((np.asarray(a) == np.asarray(b)).all()) for a, b in zip(rest, buf0)))
