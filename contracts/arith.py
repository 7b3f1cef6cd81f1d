"""C30: the arithmetic coder (projects/jax_entropy_coders/jax_arithmetic_coder.py) is lossless.  jax is absent here; the coder's own source runs
against pyvc.jaxscalar, with Python integers in the bounded contracts and symbolic ones in the proofs."""
import sys

from pyvc import REPO
from pyvc import jaxshim as J
from pyvc import jaxscalar as S
from pyvc.api import contract, Inconclusive

J.install()
JEC = REPO + "/projects/jax_entropy_coders"
if JEC not in sys.path:
    sys.path.insert(0, JEC)
PRELOAD = ["jax_arithmetic_coder"]
A = "jax_arithmetic_coder."
Q, H, T, TOP = 1 << 30, 1 << 31, 3 << 30, 1 << 32
P = 16


def _symonly(v):
    if not v.sym:
        from pyvc.api import Reject
        raise Reject()


def _mod():
    import jax_arithmetic_coder as m
    return m


def _tables(v, M, kind):
    """counts of M symbols adding up to 2^16, each at least one"""
    top = 1 << P
    if M == 1:
        return [0, top]
    if kind == "flat":
        c = [((k + 1) * top) // M for k in range(M - 1)]
    elif kind == "skew":
        c = [k + 1 for k in range(M - 1)]
    elif kind == "skew-high":
        c = [top - M + 1 + k for k in range(M - 1)]
    elif kind == "straddle":  # one narrow symbol across the middle: underflow bits pile up
        k = (M - 1) // 2
        c = list(range(1, k)) + ([top // 2 - 1] if k else []) + [top // 2 + 1] + [top - (M - 2 - k) + j for j in range(M - 2 - k)]
        c = c[:M - 1]
    elif kind == "middle":
        c = sorted({top // 2 + k - M // 2 for k in range(M - 1)})
    else:
        c = sorted(v.rng.sample(range(1, top), M - 1))
    return [0] + c + [top]


def _rotate(t, k):
    """the same counts in another order: CDFs that depend on what was coded before"""
    f = [b - a for a, b in zip(t, t[1:])]
    f = f[k % len(f):] + f[:k % len(f)]
    out = [0]
    for x in f:
        out.append(out[-1] + x)
    return out


@contract("C30", "messages_round_trip", funcs=[A + "encode", A + "decode", A + "_jax_encode", A + "_jax_decode", A + "_enqueue", A + "_dequeue", A + "_append_bit_and_pending", A + "_retrieve_bit"],
          bounded=True, runs=120, thorough_runs=1200, notes="whole messages on integers: up to 60 symbols, batch 3, alphabet 256, static and adaptive CDFs, buffers from too small to ample")
def whole(v):
    m = _mod()
    nb, L, M = v.int("batch", 1, 3), v.int("length", 1, 60), v.choose("alphabet", [1, 2, 3, 5, 17, 256])
    kind = v.choose("kind", ["flat", "skew", "skew-high", "middle", "straddle", "any"])
    adaptive = v.choose("adaptive", [False, True])
    size = v.choose("buffer", ["ample", "exact", "any"])
    tabs = [_tables(v, M, kind) for _ in range(nb)]
    style = v.choose("symbols", ["any", "rare", "common", "last"])
    msgs = []
    for t in tabs:
        f = [b - a for a, b in zip(t, t[1:])]
        rare = f.index(min(f)) if kind != "straddle" else max(k for k in range(M) if t[k] <= 1 << 15)
        common = f.index(max(f))
        w = v.choose("first", [0, M - 1])
        row = [{"any": v.rng.randrange(M), "rare": rare, "common": common, "last": w}[style] if v.rng.random() < 0.95 else v.rng.randrange(M) for _ in range(L)]
        msgs.append(row)
    states = (S.Batch([tuple(_State(t, 0) for t in tabs)][0]),)

    def cdf(s, st):
        t = st[0].table(adaptive)
        s = int(s)
        return S.W(t[s], "uint32"), S.W(t[s + 1], "uint32"), (st[0].next(s),)

    def inverse(x, st):
        t = st[0].table(adaptive)
        x = int(x)
        s = max(k for k in range(len(t) - 1) if t[k] <= x)
        return S.W(t[s], "uint32"), S.W(t[s + 1], "uint32"), S.W(s, "int64"), (st[0].next(s),)

    def enc(over):
        try:
            return m.encode(S.Batch(S.Arr.of(r, "uint8") for r in msgs), cdf, states, buffer_oversize=over)
        except RuntimeError:
            return None
    with S.using(m):
        ample = (4.0 * L + 8) / L
        full = enc(ample)
        v.ensure("an-ample-buffer-is-enough", full is not None)
        out = full
        if size != "ample":
            n = max(len(b) for b in full)
            k = n - 1 + v.rng.randrange(-2, 3) if size == "exact" else v.rng.randrange(1, n + 3)
            k = max(1, k)
            got = enc((k + 0.5) / L)
            if got is None:
                v.ensure("a-buffer-with-room-is-not-refused", k < n)
            else:
                out = got
        lens = [L] * nb
        if v.choose("lens", ["same", "own"]) == "own":
            lens = [v.rng.randint(1, L) for _ in range(nb)]
        back = m.decode(out, S.Arr.of(lens, "int64"), inverse, states)
        got = [[int(x) for x in r] for r in back]
    v.ensure("message-comes-back", got == [r[:n] for r, n in zip(msgs, lens)])


class _State:
    """CDF state: a table and how many symbols went by"""

    def __init__(self, t, k):
        self.t, self.k = t, k

    def table(self, adaptive):
        return _rotate(self.t, self.k) if adaptive else self.t

    def next(self, s):
        return _State(self.t, (self.k + s + 1) % 7)


# ------------------------------------------------------------------ proofs
def _array(v, name, n, dt="uint8"):
    from pyvc.core import CTX, wrap, z3, zi
    f = z3.Function(name, z3.IntSort(), z3.IntSort())

    def fn(i):
        e = f(zi(i))
        CTX.fact(z3.And(e >= 0, e < (1 << S.BITS[dt])))
        return wrap(e)
    return S.Arr(n, fn, dt)


def _w(v, name, lo, hi, dt):
    return S.W(v.int(name, lo, hi), dt)


def _bit_at(arr, byte, idx, bi, jb, jr):
    """bit jr of byte jb of the stream: complete bytes in the array, the last ones in byte"""
    whole = (arr.get(jb) // (1 << (7 - jr))) % 2
    if jr >= bi:
        return whole
    return S._ite(jb == idx, (byte // (1 << (bi - 1 - jr))) % 2, whole)


@contract("C30", "bits_are_stored_in_order", funcs=[A + "_append_bit", A + "_retrieve_bit"], runs=0, thorough_runs=0, budget=240,
          notes="any buffer, position and content: appending keeps all earlier bits and stores the new one, retrieving reads the bit at the position; both advance by one")
def bits(v):
    _symonly(v)
    m = _mod()
    n, idx = v.int("buffer", 1), v.int("byte_position", 0)
    bi = v.choose("bit_position", list(range(8)))
    arr = _array(v, "stream", n)
    byte = v.int("byte", 0, (1 << bi) - 1)
    bit = v.bool("bit")
    with S.using(m):
        if v.choose("what", ["append", "retrieve"]) == "retrieve":
            b, i2, b2 = m._retrieve_bit(S.W(idx, "int32"), S.W(bi, "int32"), arr)
            v.ensure("reads-the-bit", v.Implies(idx < n, v.Iff(b.val, (arr.get(idx) // (1 << (7 - bi))) % 2 == 1)))
            v.ensure("moves-by-one-bit", v.And(8 * i2.val + b2.val == 8 * idx + bi + 1, b2.val >= 0, b2.val < 8))
            return
        a2, y2, i2, b2 = m._append_bit(S.W(bit, "bool"), arr, S.W(byte, "uint8"), S.W(idx, "int32"), S.W(bi, "int32"))
    from pyvc.core import is_sym
    if is_sym(b2.val):
        b2 = S.W(int(b2.val), "int32")
    v.ensure("moves-by-one-bit", v.And(8 * i2.val + b2.val == 8 * idx + bi + 1, b2.val >= 0, b2.val < 8))
    v.ensure("byte-holds-only-the-open-bits", v.And(y2.val >= 0, y2.val < (1 << b2.val)))
    v.ensure("same-buffer", a2.n == n)
    jr, jb = v.choose("earlier_bit", list(range(8))), v.int("earlier_byte", 0)
    v.require(8 * jb + jr <= 8 * idx + bi)
    v.require(jb < n)
    got = _bit_at(a2, y2.val, i2.val, b2.val, jb, jr)
    new = 8 * jb + jr == 8 * idx + bi
    v.ensure("stores-the-bit", v.Implies(new, v.Iff(bit, got == 1)))
    v.ensure("keeps-earlier-bits", v.Or(new, got == _bit_at(arr, byte, idx, bi, jb, jr)))


class Sink:
    """the stream by its contract (bits_are_stored_in_order): what was appended to it"""
    n = 1

    def __init__(self, log=()):
        self.log = tuple(log)


def _tokens(v, state, tag):
    """a fresh value of each leaf's kind"""
    out = []
    for k, x in enumerate(state):
        if isinstance(x, S.W):
            out.append(S.W(v.int("%s%d" % (tag, k), 0, (1 << 31) - 1), x.dtype) if x.dtype != "bool" else S.W(v.bool("%s%d" % (tag, k)), "bool"))
        elif isinstance(x, Sink):
            out.append(Sink())
        elif isinstance(x, S.Arr):
            out.append(_array(v, "%s%d" % (tag, k), x.n, x.dtype))
        else:
            out.append(x)
    return tuple(out)


def _role(state, x, what):
    """where in the loop state a value of the function's interface lives"""
    ks = [k for k, y in enumerate(state) if y is x]
    if len(ks) != 1:
        raise Inconclusive("loop state holds no " + what)
    return ks[0]


def _put(state, **kw):
    s = list(state)
    for k, x in kw.items():
        s[int(k[1:])] = x
    return tuple(s)


def _truth(x):
    return x.val if isinstance(x, S.W) else x


@contract("C30", "a_bit_is_followed_by_its_pending_opposites", funcs=[A + "_append_bit_and_pending"], runs=0, thorough_runs=0, budget=60,
          notes="any number of pending bits: one bit, then exactly that many of the opposite; the stream by its contract")
def pending(v):
    _symonly(v)
    m = _mod()
    p = v.int("pending", 0)
    bit = v.choose("bit", [False, True])
    pw, y, i, b = S.W(p, "int32"), S.W(v.int("byte", 0, 127), "uint8"), S.W(v.int("idx", 0), "int32"), S.W(v.choose("bit_idx", [0, 5]), "int32")
    sink = Sink()
    count = [0]

    def append(bt, arr, byte, idx, bit_idx):
        if not isinstance(arr, Sink):
            raise Inconclusive("stream")
        count[0] += 1
        return Sink(arr.log + (_truth(bt),)), S.W(v.int("byte_%d" % count[0], 0, 255), "uint8"), S.W(v.int("idx_%d" % count[0], 0), "int32"), S.W(v.int("bit_%d" % count[0], 0, 7), "int32")

    def same(what, s, bits_):
        v.ensure(what, len(s.log) == len(bits_))
        for x, want in zip(s.log, bits_):
            v.ensure(what, v.Iff(x, want))
    final = []

    def finish(state, k):
        s = list(_tokens(v, state, "end"))
        s[k] = Sink(("end",))
        final.append((s, k))
        return tuple(s)

    def sinkpos(state):
        ks = [k for k, x in enumerate(state) if isinstance(x, Sink)]
        if len(ks) != 1:
            raise Inconclusive("stream in the loop state")
        return ks[0]

    def while_(c, body, state):
        k = sinkpos(state)
        same("the-bit-comes-first", state[k], [bit])
        pk = [j for j, x in enumerate(state) if isinstance(x, S.W) and x.dtype == "int32" and v.And(x.val == p) is not False and x is pw]
        if len(pk) != 1:
            raise Inconclusive("pending count in the loop state")
        left = v.int("left", 0)
        s = _put(state, **{"k%d" % pk[0]: S.W(left, "int32"), "k%d" % k: Sink()})
        more = _truth(c(s))
        v.ensure("goes-on-while-bits-are-pending", v.Iff(more, left > 0))
        if more:
            s2 = body(s)
            same("each-pending-bit-is-the-opposite", s2[k], [not bit])
            v.ensure("one-pending-bit-less", s2[pk[0]].val == left - 1)
            v.ensure("keeps-the-bit", all(v.And(_truth(b2) == _truth(b1)) for b1, b2 in zip(s, s2) if isinstance(b1, (bool, S.W)) and (isinstance(b1, bool) or b1.dtype == "bool")))
        return finish(state, k)

    def fori(lo, hi, body, state):
        k = sinkpos(state)
        same("the-bit-comes-first", state[k], [bit])
        v.ensure("goes-on-while-bits-are-pending", S._plain(hi) - S._plain(lo) == p)
        s2 = body(S.W(v.int("step", 0), "int32"), _put(state, **{"k%d" % k: Sink()}))
        same("each-pending-bit-is-the-opposite", s2[k], [not bit])
        return finish(state, k)
    with S.using(m, while_, fori), v.stub(A + "_append_bit", append):
        out = m._append_bit_and_pending(bit, pw, sink, y, i, b)
    if not final:
        raise Inconclusive("no loop over the pending bits")
    v.ensure("returns-the-stream", out[0] is final[0][0][final[0][1]])
    v.ensure("returns-the-position", all(any(x is y for y in final[0][0]) for x in out[1:]))


def _post(v, lo, hi):
    """between symbols: the range straddles the middle and is wider than a quarter"""
    return v.And(lo >= 0, lo < H, hi >= H, hi < TOP, v.Or(lo < Q, hi >= T))


@contract("C30", "encoder_and_decoder_stay_in_step", funcs=[A + "_enqueue", A + "_dequeue"], runs=0, thorough_runs=0, budget=400,
          notes="one symbol and one renormalisation step from any range, interval, pending count and value: same ranges on both sides, decoder's value inside, and the exact place of the range in the code; bit input and output by their contracts")
def step(v):
    _symonly(v)
    m = _mod()
    from pyvc.core import CTX, z3, zi
    part = v.choose("part", ["narrow", "renormalise"])
    low0, high0 = v.int("low", 0, TOP - 1), v.int("high", 0, TOP - 1)
    v.require(_post(v, low0, high0))
    rl, rh = v.int("cdf_low", 0, (1 << P) - 1), v.int("cdf_high", 1, 1 << P)
    v.require(rl < rh)
    p0 = v.int("pending", 0)
    sym, st0, st1 = S.W(v.int("symbol", 0, 255), "uint8"), ("state", 0), ("state", 1)
    # loop states and bodies of the two sides
    enc, dec = {}, {}

    def capture(d):
        def while_(c, body, state):
            if d:
                raise Inconclusive("two loops")
            d.update(cond=c, body=body, init=state, end=_tokens(v, state, "end_%d_" % id_[0]))
            id_[0] += 1
            return d["end"]
        return while_
    id_ = [0]

    def cdf(s, st):
        v.ensure("cdf-of-the-symbol-in-its-state", s is sym and st is st0)
        return S.W(rl, "uint32"), S.W(rh, "uint32"), st1
    sink = Sink()
    pw = S.W(p0, "int32")
    args = (S.W(v.int("byte", 0, 127), "uint8"), S.W(v.int("idx", 0), "int32"), S.W(v.int("bit_idx", 0, 7), "int32"))
    with S.using(m, capture(enc)):
        r = m._enqueue(sym, sink, *args, pw, S.W(high0, "uint32"), S.W(low0, "uint32"), cdf, st0, S.W(P, "uint32"))
    if not enc:
        raise Inconclusive("no renormalisation loop")
    v.ensure("cdf-state-advances", r[7] is st1)
    eh, el, ep, es = _role(enc["end"], r[5], "high"), _role(enc["end"], r[6], "low"), _role(enc["end"], r[4], "pending bits"), _role(enc["end"], r[0], "stream")
    h1, l1 = enc["init"][eh].val, enc["init"][el].val
    if part == "narrow":
        span = high0 - low0 + 1
        # span > 2^30 and rh > rl: instances of monotonicity of multiplication
        z = lambda x: zi(x)
        CTX.fact(z3.And(z(span) * z(rh) >= z(span) * z(rl) + z(span), z(span) * z(rh) <= z(span) * (1 << P), z(span) * z(rl) >= 0))
        v.ensure("symbol's-range-lies-in-the-range", v.And(l1 >= low0, h1 <= high0))
        v.ensure("symbol's-range-is-not-empty", l1 <= h1)
        v.ensure("nothing-written-or-pending-yet", v.And(enc["init"][ep].val == p0, enc["init"][es] is sink))
    value = v.int("value", 0, TOP - 1)
    n = v.int("buffer", 1)
    arr = _array(v, "stream", n)
    if part == "narrow":
        v.require(value >= l1)
        v.require(value <= h1)

    def inverse(x, st):
        x = x.val
        if part == "narrow":
            CTX.fact(z3.And(z3.Implies(z(x) + 1 <= z(rl), (z(x) + 1) * z(span) <= z(rl) * z(span)),
                            z3.Implies(z(x) >= z(rh), z(x) * z(span) >= z(rh) * z(span))))
            v.ensure("value-falls-in-the-encoded-symbol's-interval", v.And(x >= rl, x < rh))
            v.ensure("inverse-cdf-in-its-state", st is st0)
        return S.W(rl, "uint32"), S.W(rh, "uint32"), sym, st1

    def frac(a, b):
        if part == "narrow":
            v.ensure("float-division-is-exact-to-the-floor", v.And(a >= 0, a < (1 << 50), b >= 1, b <= TOP))
    didx, dbit = S.W(v.int("didx", 0), "int32"), S.W(v.int("dbit_idx", 0, 7), "int32")
    with S.using(m, capture(dec), frac=frac):
        r = m._dequeue(S.W(value, "uint32"), arr, didx, dbit, S.W(high0, "uint32"), S.W(low0, "uint32"), inverse, st0, S.W(P, "uint32"))
    v.ensure("decoded-symbol-and-state", r[1] is sym and r[6] is st1)
    dh, dl, dv = _role(dec["end"], r[4], "high"), _role(dec["end"], r[5], "low"), _role(dec["end"], r[0], "value")
    di, db = _role(dec["end"], r[2], "position"), _role(dec["end"], r[3], "bit position")
    if part == "narrow":
        v.ensure("both-sides-narrow-alike", v.And(dec["init"][dh].val == h1, dec["init"][dl].val == l1))
        v.ensure("nothing-read-yet", v.And(dec["init"][dv].val == value, dec["init"][di].val == didx.val, dec["init"][db].val == dbit.val))
        return
    # one turn of both loops from any state
    lo, hi, val, p = v.int("lo", 0, TOP - 1), v.int("hi", 0, TOP - 1), v.int("val", 0, TOP - 1), v.int("p", 0)
    v.require(v.And(lo <= val, val <= hi))
    K, QK, TP = v.int("K", 0), v.int("QK", 0), v.int("TP", 1)  # emitted bits as a number, K * 2^p, 2^p

    def emit(bit, pend, arr_, byte, idx, bit_idx):
        if not isinstance(arr_, Sink):
            raise Inconclusive("stream")
        return Sink(arr_.log + ((_truth(bit), S._plain(pend)),)), byte, idx, bit_idx
    W32 = lambda x: S.W(x, "uint32")
    es_, ds_ = list(enc["end"]), list(dec["end"])
    es_[eh], es_[el], es_[ep], es_[es] = W32(hi), W32(lo), S.W(p, "int32"), Sink()
    i0, b0 = v.int("i0", 0), v.int("b0", 0, 7)
    ds_[dh], ds_[dl], ds_[dv], ds_[di], ds_[db] = W32(hi), W32(lo), W32(val), S.W(i0, "int32"), S.W(b0, "int32")
    for k, x in enumerate(dec["init"]):
        if x is arr:
            ds_[k] = arr
    i1, b1, bit = v.int("i1", 0), v.int("b1", 0, 7), v.bool("read")
    reads = []

    def retrieve(idx, bit_idx, a):
        v.ensure("reads-at-its-position", v.And(idx.val == i0, bit_idx.val == b0))
        v.ensure("reads-its-stream", a is arr)
        reads.append(1)
        return S.W(bit, "bool"), S.W(i1, "int32"), S.W(b1, "int32")
    with S.using(m), v.stub(A + "_append_bit_and_pending", emit), v.stub(A + "_retrieve_bit", retrieve):
        more = _truth(enc["cond"](tuple(es_)))
        v.ensure("both-sides-go-on-together", v.Iff(more, _truth(dec["cond"](tuple(ds_)))))
        if not more:
            v.ensure("range-is-wide-when-done", _post(v, lo, hi))
            return
        e2, d2 = enc["body"](tuple(es_)), dec["body"](tuple(ds_))
    lo2, hi2, p2, out = e2[el].val, e2[eh].val, e2[ep].val, e2[es].log
    v.ensure("both-sides-renormalise-alike", v.And(d2[dl].val == lo2, d2[dh].val == hi2))
    v.ensure("range-doubles", v.And(lo2 >= 0, hi2 < TOP, hi2 - lo2 + 1 == 2 * (hi - lo + 1)))
    v.ensure("one-bit-read", len(reads) == 1 and v.And(d2[di].val == i1, d2[db].val == b1))
    got = d2[dv].val - lo2 - 2 * (val - lo)
    v.ensure("value-takes-the-bit", v.And(v.Or(got == 0, got == 1), v.Implies(i1 < n, v.Iff(bit, got == 1))))
    v.ensure("value-stays-in-the-range", v.And(d2[dv].val >= lo2, d2[dv].val <= hi2))
    v.ensure("writes-at-most-once", len(out) <= 1)
    # place of the range in the code: (2^(p+1) K + 2^p - 1) * 2^31 + [lo, hi]
    D = 2 * QK + TP - 1
    if out:
        b, pp = out[0]
        v.ensure("writes-all-pending-bits", v.And(pp == p, p2 == 0))
        D2 = 2 * S._ite(b, 2 * QK + TP, 2 * QK + TP - 1)  # K' = (2K+b) 2^p + (b ? 0 : 2^p - 1), p' = 0
    else:
        v.ensure("one-more-bit-pending", p2 == p + 1)
        D2 = 2 * (2 * QK) + 2 * TP - 1
    v.ensure("code-of-the-range-is-kept", D2 * H + lo2 == 2 * (D * H + lo))


@contract("C30", "encoding_ends_inside_the_last_range", funcs=[A + "_jax_encode"], runs=0, thorough_runs=0, budget=200,
          notes="any message length, last range, pending count and stream position: every symbol is coded once in order from the empty state, the final bits select a point of the last range whatever follows them, the open byte is written out")
def ending(v):
    _symonly(v)
    m = _mod()
    L = v.int("length", 1)
    msg = _array(v, "message", L)
    st = ("state", 0)
    bi = v.choose("bit_idx", list(range(8)))
    cdf_fn = lambda s, c: None
    lo, hi, p = v.int("low", 0, TOP - 1), v.int("high", 0, TOP - 1), v.int("pending", 0)
    v.require(_post(v, lo, hi))
    QK, TP = v.int("QK", 0), v.int("TP", 1)
    seen, emitted, loops = [], [], []

    def enqueue(*a, **kw):
        import inspect
        if kw or len(a) != 11:
            b = inspect.signature(real).bind(*a, **kw)
            a = tuple(b.arguments.values())
        symbol, arr, byte, idx, bit_idx, pend, high, low, fn, state, prec = a
        k = len(seen)
        out = (_array(v, "stream_%d" % k, arr.n), S.W(v.int("y%d" % k, 0, 127), "uint8"), S.W(v.int("x%d" % k, 0), "int32"), S.W(v.int("b%d" % k, 0, 7), "int32"),
               S.W(v.int("q%d" % k, 0), "int32"), S.W(v.int("h%d" % k, 0, TOP - 1), "uint32"), S.W(v.int("l%d" % k, 0, TOP - 1), "uint32"), ("state", k + 1))
        seen.append((a, out))
        return out
    real = m._enqueue

    def fori(a, z, body, init):
        if loops:
            raise Inconclusive("two loops")
        v.ensure("codes-every-symbol", v.And(S._plain(a) == 0, S._plain(z) == L))
        i = v.index("position", L)
        body(S.W(i, "int64"), init)
        if len(seen) != 1:
            raise Inconclusive("one call of _enqueue")
        (sym, arr, byte, idx, bit_idx, pend, high, low, fn, state, prec), out = seen[0]
        v.ensure("starts-from-the-whole-range", v.And(low.val == 0, high.val == TOP - 1, pend.val == 0))
        v.ensure("starts-from-an-empty-stream", v.And(idx.val == 0, bit_idx.val == 0, byte.val == 0))
        v.ensure("starts-from-the-given-cdf-state", state is st)
        s1 = body(S.W(i, "int64"), init)
        out = seen[1][1]
        roles = [_role(s1, x, "coder state") for x in out]
        i2 = v.index("position2", L)
        s2 = body(S.W(i2, "int64"), s1)
        a2 = seen[2][0]
        v.ensure("the-symbol-of-the-position", a2[0].val == msg.get(i2))
        v.ensure("state-goes-on", all(x is y for x, y in zip((a2[1], a2[2], a2[3], a2[4], a2[5], a2[6], a2[7], a2[9]), out)))
        v.ensure("precision-and-cdf", a2[10].val == P and a2[8] is cdf_fn)
        fin = list(s2)
        fin[roles[4]], fin[roles[5]], fin[roles[6]] = S.W(p, "int32"), S.W(hi, "uint32"), S.W(lo, "uint32")
        loops.append([fin[k] for k in roles])
        return tuple(fin)

    def emit(bit, pend, arr, byte, idx, bit_idx):
        v.ensure("final-bits-go-to-the-stream", arr is loops[0][0] and byte is loops[0][1] and idx is loops[0][2] and bit_idx is loops[0][3])
        out = (_array(v, "stream_end", arr.n), S.W(v.int("y_end", 0, (1 << bi) - 1), "uint8"), S.W(v.int("x_end", 0), "int32"), S.W(bi, "int32"))
        emitted.append((_truth(bit), pend.val, out))
        return out
    with S.using(m, fori=fori), v.stub(A + "_enqueue", enqueue), v.stub(A + "_append_bit_and_pending", emit):
        arr, idx = m._jax_encode(msg, cdf_fn, st, 1.5)
    if not loops:
        raise Inconclusive("no loop over the message")
    v.ensure("final-bits-once", len(emitted) == 1)
    b, pp, out = emitted[0]
    v.ensure("final-bits-settle-the-pending-ones", pp == p + 1)
    # K' = (2K + b) 2^(p+1) + (b ? 0 : 2^(p+1) - 1); two bits more than the range's place (2K 2^p + 2^p - 1) * 2^31 needs
    K2 = S._ite(b, 4 * QK + 2 * TP, 4 * QK + 2 * TP - 1)
    v0 = K2 * Q - (2 * QK + TP - 1) * H
    v.ensure("any-continuation-lies-in-the-last-range", v.And(v0 >= lo, v0 + Q - 1 <= hi))
    v.ensure("returns-the-position", idx.val == out[2].val)
    k = v.int("byte_at", 0)
    v.require(k < arr.n)
    v.ensure("buffer-size", arr.n == out[0].n)
    v.ensure("open-byte-is-written", v.Implies(k == idx.val, arr.get(k) == (out[1].val * (1 << (8 - bi)) if bi else 0)))
    v.ensure("other-bytes-are-kept", v.Or(k == idx.val, arr.get(k) == out[0].get(k)))


@contract("C30", "decoding_reads_from_the_start", funcs=[A + "_jax_decode"], runs=0, thorough_runs=0, budget=120,
          notes="any message length and stream: the value starts as the first 32 bits, every symbol is decoded once in order and stored at its position")
def reading(v):
    _symonly(v)
    m = _mod()
    L, n = v.int("length", 1), v.int("bytes", 1)
    arr = _array(v, "stream", n)
    st = ("state", 0)
    inv = lambda x, s: None
    first, seen, got = [], [], []

    def retrieve(idx, bit_idx, a):
        v.ensure("reads-the-stream", a is arr)
        k = len(got)
        out = (S.W(v.bool("bit%d" % k), "bool"), S.W(v.int("i%d" % k, 0), "int32"), S.W(v.int("b%d" % k, 0, 7), "int32"))
        got.append(((idx, bit_idx), out))
        return out

    def dequeue(*a, **kw):
        import inspect
        if kw or len(a) != 9:
            a = tuple(inspect.signature(real).bind(*a, **kw).arguments.values())
        k = len(seen)
        out = (S.W(v.int("v%d" % k, 0, TOP - 1), "uint32"), S.W(v.int("s%d" % k, 0, 255), "int64"), S.W(v.int("x%d" % k, 0), "int32"), S.W(v.int("y%d" % k, 0, 7), "int32"),
               S.W(v.int("h%d" % k, 0, TOP - 1), "uint32"), S.W(v.int("l%d" % k, 0, TOP - 1), "uint32"), ("state", k + 1))
        seen.append((a, out))
        return out
    real = m._dequeue
    stored = []

    def fori(a, z, body, init):
        from pyvc.core import is_sym
        a, z = S._plain(a), S._plain(z)
        if not first:
            v.ensure("reads-32-bits", z - a == 32)
            s1 = body(S.W(0, "int64"), init)
            (i0, b0), (bit, i1, b1) = got[0]
            v.ensure("reads-from-the-first-bit", v.And(i0.val == 0, b0.val == 0))
            ki, kb = _role(s1, i1, "position"), _role(s1, b1, "bit position")
            ks = [k for k, x in enumerate(s1) if isinstance(x, S.W) and x.dtype == "uint32"]
            if len(ks) != 1:
                raise Inconclusive("value in the loop state")
            kv = ks[0]
            v.ensure("value-starts-at-nothing", s1[kv].val == S._ite(bit.val, 1, 0))
            x = v.int("value", 0, H - 1)
            s2 = body(S.W(v.int("nth", 1, 31), "int64"), _put(s1, **{"k%d" % kv: S.W(x, "uint32")}))
            (i2, b2), (bit2, i3, b3) = got[1]
            v.ensure("reads-on", i2 is i1 and b2 is b1 and s2[ki] is i3 and s2[kb] is b3)
            v.ensure("value-takes-the-bit", s2[kv].val == 2 * x + S._ite(bit2.val, 1, 0))
            end = _put(s2, **{"k%d" % kv: S.W(v.int("first_value", 0, TOP - 1), "uint32")})
            first.append((end[kv], i3, b3))
            return end
        v.ensure("decodes-every-symbol", v.And(a == 0, z == L))
        i = v.index("position", L)
        s1 = body(S.W(i, "int64"), init)
        args, out = seen[0]
        v.ensure("decoder-starts-from-the-value-read", args[0] is first[0][0] and args[2] is first[0][1] and args[3] is first[0][2])
        v.ensure("decoder-starts-from-the-whole-range", v.And(args[4].val == TOP - 1, args[5].val == 0))
        v.ensure("decoder-starts-from-the-given-state", args[7] is st)
        i2, j = v.index("position2", L), v.index("any_position", L)
        s2 = body(S.W(i2, "int64"), s1)
        args2, out2 = seen[1]
        v.ensure("state-goes-on", args2[0] is out[0] and args2[2] is out[2] and args2[3] is out[3] and args2[4] is out[4] and args2[5] is out[5] and args2[7] is out[6])
        v.ensure("stream-inverse-precision", args2[1] is arr and args2[6] is inv and v.And(args2[8].val == P))
        ms = [(x, y) for x, y in zip(s1, s2) if isinstance(x, S.Arr) and x is not arr]
        if len(ms) != 1:
            raise Inconclusive("message in the loop state")
        v.ensure("symbol-is-stored-at-its-position", v.Implies(j == i2, ms[0][1].get(j) == out2[1].val))
        v.ensure("other-symbols-are-kept", v.Or(j == i2, ms[0][1].get(j) == ms[0][0].get(j)))
        v.ensure("message-length", ms[0][1].n == L)
        stored.append(ms[0][1])
        return s2
    with S.using(m, fori=fori), v.stub(A + "_retrieve_bit", retrieve), v.stub(A + "_dequeue", dequeue):
        out = m._jax_decode(S.W(L, "int64"), arr, inv, st)
    if not stored:
        raise Inconclusive("no loop over the message")
    v.ensure("returns-the-message", out is stored[0])
