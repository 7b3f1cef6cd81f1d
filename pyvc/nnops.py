"""Contracts for neural-network primitives.

Exact contracts: pad, avg_pool2d, 1x1 / small convolution with symbolic
weights, linear, pixel_(un)shuffle, unfold, interpolate(nearest).
Opaque contracts: everything else - output shape is exact, contents are an
uninterpreted deterministic function of (weights, input): two applications to
provably equal inputs are equal, nothing more is known.
"""
import math
import torch
from .core import z3, CTX, SymBool, SymInt, SymReal, Unsupported, conc, idiv, rdiv, rv, to_real, wrap, zi, zr
from .tensor import (OPS, SymTensor, SymSize, _extreme, _shape_args, bcast, cast, const_tensor, deq, dprod, dsimp,
                     dwrap, dz, ew, flat_groups, from_fn, group_slices, prove_range, has_sym, kind_of, lift, lt_max, make_sum,
                     match_groups, ndim_norm, op, zmax, zmin, zmul, _to, _flat_dim)


# ------------------------------------------------------------- opaque calls
def _key_of(x):
    if isinstance(x, SymTensor):
        return ("S",)
    if isinstance(x, torch.Tensor) and x.numel() == 1:
        return ("V", x.item(), tuple(x.shape), str(x.dtype))
    if isinstance(x, torch.Tensor):
        return ("T", x.data_ptr(), x._version, tuple(x.shape), str(x.dtype), id(x) if x.numel() == 0 else 0)
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return ("Z", x.e.get_id())
    if isinstance(x, (list, tuple)):
        return ("L",) + tuple(_key_of(y) for y in x)
    if isinstance(x, dict):
        return ("D",) + tuple((k, _key_of(v)) for k, v in sorted(x.items()))
    if isinstance(x, (int, float, str, bool, type(None), torch.dtype)):
        return x
    return ("O", id(x))


def _syms(x, out):
    if isinstance(x, SymTensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _syms(y, out)
    elif isinstance(x, dict):
        for k in sorted(x):
            _syms(x[k], out)
    return out


def same_contents(a, b):
    """provably equal shapes and elements"""
    if a is b:
        return True
    if a.ndim != b.ndim:
        return False
    if not all(deq(x, y) for x, y in zip(a.dims(), b.dims())):
        return False
    m = match_groups(b, a._groups)
    if m is None:
        return False
    ks = [CTX.new("k") for _ in a.phys]
    ea, eb = a._fn(ks), m._fn(ks)
    if ea.eq(eb):
        return True
    rng = [z3.And(k >= 0, k < dz(d)) for k, d in zip(ks, a.phys)]
    from .solve import prove
    return prove(CTX, z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), ea == eb), depth=1, timeout=5000)[0] == "discharged"


def frozen(t):
    return SymTensor(t._groups, t.snap(), t._dt)


def opaque(name, args, shape, dtype=torch.float32, lo=None, hi=None, post=None):
    """deterministic uninterpreted tensor function of args"""
    CTX.opaque_used = True
    key = (name, _key_of(args), str(dtype))
    syms = [frozen(s) for s in _syms(args, [])]
    from .tensor import fresh_tensor
    dims = [dsimp(s) for s in shape]
    for old, res in CTX.opaque.setdefault(key, []):
        if len(old) == len(syms) and all(same_contents(a, b) for a, b in zip(old, syms)):
            r = frozen(res)
            r.__dict__["_opaque"] = res.__dict__["_opaque"]
            return r
    CTX.fresh += 1
    nm = "%s!%d" % (name, CTX.fresh)
    res = fresh_tensor(nm, dims, dtype, lo, hi)
    res.__dict__["_opaque"] = nm
    CTX.opaque[key].append((syms, res))
    CTX.cache.setdefault("keepalive", []).append(args)
    return frozen(res)


# ------------------------------------------------------------- padding
def reflect_index(i, n):
    """F.pad reflect: valid for -(n) < i < 2n-1"""
    return z3.If(i < 0, -i, z3.If(i >= n, 2 * n - 2 - i, i))


@op("pad")
def _pad(x, pad, mode="constant", value=None):
    x = flat_groups(lift(x))
    pad = list(pad)
    if len(pad) % 2:
        raise RuntimeError("Padding length must be divisible by 2")
    nd = x.ndim
    np_ = len(pad) // 2
    if np_ > nd:
        raise RuntimeError("Padding length too large")
    dims = x.dims()
    lo = [z3.IntVal(0)] * nd
    hi = [z3.IntVal(0)] * nd
    for j in range(np_):
        d = nd - 1 - j
        lo[d], hi[d] = zi(pad[2 * j]), zi(pad[2 * j + 1])
    shape = []
    for d in range(nd):
        s = dsimp(dz(dims[d]) + lo[d] + hi[d])
        shape.append(s)
    if mode != "constant":
        if not (nd in (2, 3) and np_ == 1 or nd in (3, 4) and np_ == 2 or nd in (4, 5) and np_ == 3):
            raise NotImplementedError("Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now")
        for d in range(nd - np_, nd):
            n = dz(dims[d])
            for p in (lo[d], hi[d]):
                if mode == "reflect":
                    if not CTX.branch(p < n):
                        raise RuntimeError("Argument #4: Padding size should be less than the corresponding input dimension")
                if mode == "circular":
                    if not CTX.branch(p <= n):
                        raise AssertionError("Padding value causes wrapping around more than once.")
    for d in range(nd):
        s = shape[d]
        if not isinstance(s, int) and not CTX.valid(s >= 0):
            if CTX.branch(s < 0):
                raise RuntimeError("negative output size")
        if mode != "constant" and d >= nd - np_:
            if not CTX.valid(dz(s) >= 1) and CTX.branch(dz(s) < 1):
                raise RuntimeError("pad: output size would be < 1")

    def f(*idx):
        src, inside = [], []
        for d in range(nd):
            if d < nd - np_:
                src.append(idx[d])
                continue
            i = z3.simplify(idx[d] - lo[d])
            n = dz(dims[d])
            if mode == "constant":
                inside.append(z3.And(i >= 0, i < n))
                src.append(i)
            elif mode == "reflect":
                src.append(reflect_index(i, n))
            elif mode == "replicate":
                src.append(z3.If(i < 0, z3.IntVal(0), z3.If(i >= n, n - 1, i)))
            elif mode == "circular":
                src.append(i % n)
            else:
                raise Unsupported("pad mode %r" % mode)
        e = x.el(*src)
        if mode == "constant":
            v = cast(zr(0 if value is None else value), x._kind)
            return z3.If(z3.And(*inside), e, v) if inside else e
        return e
    return from_fn(shape, f, x._dt)


# ------------------------------------------------------------- pooling / resampling
def _pair(v):
    return list(v) if isinstance(v, (list, tuple)) else [v, v]


@op("avg_pool2d")
def _avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    x = flat_groups(lift(x))
    k = _pair(kernel_size)
    s = k if stride is None or (isinstance(stride, (list, tuple)) and not stride) else _pair(stride)
    p = _pair(padding)
    if any(q != 0 for q in p) or ceil_mode or divisor_override:
        raise Unsupported("avg_pool2d options")
    dims = x.dims()
    nd = x.ndim
    shape = list(dims)
    for a, d in enumerate((nd - 2, nd - 1)):
        shape[d] = dsimp((dz(dims[d]) - zi(k[a])) / zi(s[a]) + 1)
        if not CTX.valid(dz(shape[d]) >= 1) and CTX.branch(dz(shape[d]) < 1):
            raise RuntimeError("avg_pool2d: Output size is too small")

    def f(*idx):
        def body(a, b):
            return x.el(*(list(idx[:-2]) + [idx[-2] * zi(s[0]) + a, idx[-1] * zi(s[1]) + b]))
        return rdiv(make_sum("sum", [k[0], k[1]], body, "r"), zr(wrap(zi(k[0]) * zi(k[1]))))
    return from_fn(shape, f, x._dt)


@op("max_pool2d")
def _max_pool2d(x, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
    x = lift(x)
    k, p = _pair(kernel_size), _pair(padding)
    s = k if stride is None or (isinstance(stride, (list, tuple)) and not stride) else _pair(stride)
    dims = x.dims()
    shape = list(dims)
    for a, d in enumerate((x.ndim - 2, x.ndim - 1)):
        shape[d] = dsimp((dz(dims[d]) + 2 * zi(p[a]) - zi(k[a])) / zi(s[a]) + 1)
    return opaque("max_pool2d", (x, k, s, p, ceil_mode), shape, x._dt)


@op("interpolate", "upsample")
def _interpolate(x, size=None, scale_factor=None, mode="nearest", align_corners=None, recompute_scale_factor=None, antialias=False):
    x = flat_groups(lift(x))
    dims = x.dims()
    ns = x.ndim - 2
    if size is not None:
        size = list(size) if isinstance(size, (list, tuple)) else [size] * ns
        out = [dsimp(s) for s in size]
    else:
        sf = list(scale_factor) if isinstance(scale_factor, (list, tuple)) else [scale_factor] * ns
        out = []
        for d, f in zip(dims[2:], sf):
            out.append(dsimp(z3.ToInt(to_real(dz(d)) * rv(f))) if float(f) != int(f) else dsimp(dz(d) * int(f)))
    if mode == "nearest" and size is None and all(float(f) == int(f) for f in sf):
        return from_fn(dims[:2] + out, lambda *i: x.el(*(list(i[:2]) + [j / int(f) for j, f in zip(i[2:], sf)])), x._dt)
    if mode in ("nearest", "bilinear", "bicubic", "linear") and not antialias and all(deq(a, b) for a, b in zip(dims[2:], out)):
        return x + 0  # resampling to the same grid is the identity
    return opaque("interpolate_" + mode, (x, [wrap(dz(o)) if not isinstance(o, int) else o for o in out], align_corners, antialias), dims[:2] + out, x._dt)


@op("pixel_shuffle")
def _pixel_shuffle(x, r):
    x = flat_groups(lift(x))
    B, C, H, W = x.dims()
    c = dsimp(dz(C) / (r * r))
    return from_fn([B, c, dprod([H, r]), dprod([W, r])],
                   lambda b, k, i, j: x.el(b, k * r * r + (i % r) * r + (j % r), i / r, j / r), x._dt)


@op("adaptive_avg_pool2d")
def _aap(x, output_size):
    x = lift(x)
    o = _pair(output_size)
    if list(o) == [1, 1]:
        return OPS["mean"](x, (-2, -1), True)
    return opaque("adaptive_avg_pool2d", (x, o), list(x.dims()[:-2]) + list(o), x._dt)


# ------------------------------------------------------------- convolution
def conv_out(n, k, s, p, d, name="conv"):
    num = dz(n) + 2 * zi(p) - zi(d) * (zi(k) - 1) - 1
    o = dsimp((idiv(num, s) if isinstance(s, int) else num / zi(s)) + 1)
    if not CTX.valid(dz(o) >= 1):
        if CTX.branch(dz(o) < 1):
            raise RuntimeError("Calculated padded input size per channel is smaller than kernel size")
    return o


def _conv(nd):
    def f(x, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        x = flat_groups(lift(x))
        wt = lift(weight) if not isinstance(weight, SymTensor) else weight
        wd = wt.dims()
        tup = lambda v: list(v) if isinstance(v, (list, tuple)) else [v] * nd
        if isinstance(padding, str):
            if padding == "valid":
                padding = 0
            else:
                raise Unsupported("padding='same'")
        s, p, dl = tup(stride), tup(padding), tup(dilation)
        s = s * nd if len(s) == 1 else s
        p = p * nd if len(p) == 1 else p
        dl = dl * nd if len(dl) == 1 else dl
        dims = x.dims()
        if x.ndim != nd + 2:
            raise Unsupported("unbatched conv")
        if not deq(dsimp(dz(dims[1])), dprod([wd[1], groups]), fork=True):
            raise RuntimeError("expected input to have %s channels, but got %s" % (wd[1], dims[1]))
        out = [conv_out(dims[2 + a], wd[2 + a], s[a], p[a], dl[a]) for a in range(nd)]
        shape = [dims[0], wd[0]] + out
        exact = groups == 1 and isinstance(wd[1], int) and all(isinstance(k, int) for k in wd) and (
            math.prod([k for k in wd[1:]]) <= (130 if isinstance(weight, SymTensor) else 16)) and (isinstance(weight, SymTensor) or wt.numel() <= 300)
        if not exact:
            return opaque("conv%dd" % nd, (x, weight, bias, s, p, dl, groups), shape, x._dt)
        bt = lift(bias) if bias is not None else None
        wt = flat_groups(wt)

        def g(*idx):
            def body(c, *ks):
                pos, inside = [], []
                for a in range(nd):
                    q = z3.simplify(idx[2 + a] * zi(s[a]) + ks[a] * zi(dl[a]) - zi(p[a]))
                    pos.append(q)
                    if not (isinstance(p[a], int) and p[a] == 0):
                        inside.append(z3.And(q >= 0, q < dz(dims[2 + a])))
                e = zmul(x.el(idx[0], c, *pos), wt.el(idx[1], c, *ks))
                return z3.If(z3.And(*inside), e, rv(0)) if inside else e
            r = make_sum("sum", [wd[1]] + list(wd[2:]), body, "r", unroll=130)
            return r + bt.el(idx[1]) if bt is not None else r
        return from_fn(shape, g, x._dt)
    return f


OPS["conv1d"], OPS["conv2d"], OPS["conv3d"] = _conv(1), _conv(2), _conv(3)


def _convt(nd):
    def f(x, weight, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
        x = lift(x)
        wd = lift(weight).dims()
        tup = lambda v: list(v) * (nd if len(v) == 1 else 1) if isinstance(v, (list, tuple)) else [v] * nd
        s, p, op_, dl = tup(stride), tup(padding), tup(output_padding), tup(dilation)
        dims = x.dims()
        if not deq(dims[1], wd[0], fork=True):
            raise RuntimeError("expected input to have %s channels" % wd[0])
        out = [dsimp((dz(dims[2 + a]) - 1) * zi(s[a]) - 2 * zi(p[a]) + zi(dl[a]) * (zi(wd[2 + a]) - 1) + zi(op_[a]) + 1) for a in range(nd)]
        return opaque("convT%dd" % nd, (x, weight, bias, s, p, op_, dl, groups), [dims[0], dprod([wd[1], groups])] + out, x._dt)
    return f


OPS["conv_transpose1d"], OPS["conv_transpose2d"], OPS["conv_transpose3d"] = _convt(1), _convt(2), _convt(3)


@op("linear")
def _linear(x, weight, bias=None):
    x = lift(x)
    wd = [int(d) for d in lift(weight).dims()] if all(isinstance(d, int) for d in lift(weight).dims()) else lift(weight).dims()
    if not deq(x.dims()[-1], wd[-1], fork=True):
        raise RuntimeError("mat1 and mat2 shapes cannot be multiplied (%s vs %s)" % (x.dims()[-1], wd[-1]))
    if isinstance(weight, SymTensor):
        r = OPS["matmul"](x, OPS["transpose"](weight, 0, 1))
        return r + bias if bias is not None else r
    # opaque per token: an uninterpreted function of the last-dim vector; keep leading structure
    return pointwise_opaque("linear", (weight, bias), x, -1, wd[0])


def pointwise_opaque(name, params, x, dim, out_size):
    """Opaque map applied independently to every vector along `dim`.

    For a small concrete vector length the result is an uninterpreted function of the vector's
    components, so independence of positions is part of the contract."""
    x = _flat_dim(lift(x), ndim_norm(dim, x.ndim))
    dim = ndim_norm(dim, x.ndim)
    n = x.dims()[dim]
    CTX.opaque_used = True
    if not isinstance(n, int) or n > 16:
        shape = list(x.dims())
        shape[dim] = out_size
        return opaque(name, (params, x, dim), shape, x._dt)
    key = ("pw", name, _key_of(params))
    if key not in CTX.cache:
        CTX.fresh += 1
        CTX.cache[key] = z3.Function("%s!%d" % (name, CTX.fresh), *([z3.RealSort()] * n + [z3.IntSort(), z3.RealSort()]))
        CTX.cache.setdefault("keepalive", []).append(params)
    uf = CTX.cache[key]
    sl = group_slices(x._groups)
    a, b = sl[dim]
    groups = list(x._groups)
    groups[dim] = (out_size,) if not (isinstance(out_size, int) and out_size == 1) else ()
    oa, ob = group_slices(groups)[dim]
    fn = x.snap()

    def f(*p):
        pre, post = list(p[:oa]), list(p[ob:])
        vec = [to_real(fn(*(pre + ([z3.IntVal(c)] if b > a else []) + post))) for c in range(n)]
        return uf(*(vec + [p[oa] if ob > oa else z3.IntVal(0)]))
    return SymTensor(groups, f, x._dt)


def _opaque_same(name):
    def f(x, *a, **k):
        x = lift(x)
        return opaque(name, (x, list(a), dict(k)), x.dims(), x._dt)
    return f


@op("layer_norm")
def _layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    x = lift(x)
    if len(normalized_shape) == 1 and isinstance(x.dims()[-1], int):
        return pointwise_opaque("layer_norm", (weight, bias, eps), x, -1, x.dims()[-1])
    return opaque("layer_norm", (x, list(normalized_shape), weight, bias, eps), x.dims(), x._dt)


@op("batch_norm")
def _batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    x = lift(x)
    return opaque("batch_norm", (x, running_mean, running_var, weight, bias, training, eps), x.dims(), x._dt)


for _n in ("group_norm", "instance_norm", "local_response_norm"):
    OPS[_n] = _opaque_same(_n)


def _pw_uf(name):
    fn = z3.Function(name, z3.RealSort(), z3.RealSort())

    def f(x, *a, **k):
        return ew(fn, x, in_kind="r")
    return f


OPS["gelu"] = _pw_uf("gelu")
OPS["elu"] = _pw_uf("elu")
OPS["silu"] = _pw_uf("silu")
OPS["lgamma"] = _pw_uf("lgamma")
OPS["prelu"] = lambda x, w: opaque("prelu", (lift(x), w), lift(x).dims(), lift(x)._dt)


@op("grid_sample")
def _grid_sample(x, grid, mode="bilinear", padding_mode="zeros", align_corners=None):
    """opaque in the image, pointwise in the grid: out[b,c,i,j] = S(image b,c; grid[b,i,j,0], grid[b,i,j,1])"""
    x, grid = lift(x), flat_groups(lift(grid))
    if x.ndim != 4 or grid.ndim != 4:
        raise RuntimeError("grid_sampler(): expected 4-D input and grid")
    if not deq(x.dims()[0], grid.dims()[0], fork=True):
        raise RuntimeError("grid_sampler(): expected grid and input to have same batch size")
    CTX.opaque_used = True
    key = ("grid_sample", mode, padding_mode, bool(align_corners))
    lst = CTX.cache.setdefault(key, [])
    for old, uf in lst:
        if same_contents(old, x):
            break
    else:
        CTX.fresh += 1
        uf = z3.Function("grid_sample_%s_%s_%s!%d" % (mode, padding_mode, bool(align_corners), CTX.fresh),
                         z3.IntSort(), z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.RealSort())
        lst.append((frozen(x), uf))
    B, C = x.dims()[:2]
    _, h, w, _two = grid.dims()
    return from_fn([B, C, h, w], lambda b, c, i, j: uf(b, c, grid.el(b, i, j, 0), grid.el(b, i, j, 1)), x._dt)


# ------------------------------------------------------------- unfold / fold
@op("unfold")
def _unfold(x, *a, **k):
    x = flat_groups(lift(x))
    if "kernel_size" in k or (a and isinstance(a[0], (tuple, list))) or (a and x.ndim in (3, 4) and len(a) + len(k) != 3):
        return _F_unfold(x, *a, **k)
    if len(a) + len(k) == 3:   # Tensor.unfold(dim, size, step)
        dim, size, step = (list(a) + [k[n] for n in ("dimension", "size", "step") if n in k])
        dim = ndim_norm(dim, x.ndim)
        n = x.dims()[dim]
        cnt = dsimp((dz(n) - zi(size)) / zi(step) + 1)
        if not CTX.valid(dz(n) >= zi(size)) and CTX.branch(dz(n) < zi(size)):
            raise RuntimeError("maximum size for tensor at dimension %d is %s but size is %s" % (dim, n, size))
        shape = list(x.dims())
        shape[dim] = cnt
        shape.append(dsimp(size))

        def f(*idx):
            src = list(idx[:-1])
            src[dim] = idx[dim] * zi(step) + idx[-1]
            return x.el(*src)
        return from_fn(shape, f, x._dt)
    return _F_unfold(x, *a, **k)


def _F_unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    k, d, p, s = _pair(kernel_size), _pair(dilation), _pair(padding), _pair(stride)
    B, C, H, W = x.dims()
    L = [dsimp((dz(n) + 2 * zi(p[a]) - zi(d[a]) * (zi(k[a]) - 1) - 1) / zi(s[a]) + 1) for a, n in enumerate((H, W))]
    for a in range(2):
        if not CTX.valid(dz(L[a]) >= 1) and CTX.branch(dz(L[a]) < 1):
            raise RuntimeError("Given input of spatial size, kernel_size: calculated shape of the array of sliding blocks is too small")
    if not all(isinstance(q, int) and q == 0 for q in p):
        raise Unsupported("unfold padding")
    groups = [(B,), (C, dsimp(k[0]), dsimp(k[1])), (L[0], L[1])]

    live = [d_ for g in groups for d_ in g]

    def f(*ph):
        # ph only has non-unit factors
        it = iter(ph)
        v = [next(it) if not (isinstance(d_, int) and d_ == 1) else z3.IntVal(0) for d_ in live]
        b, c, i, j, li, lj = v
        return x.el(b, c, li * zi(s[0]) + i * zi(d[0]), lj * zi(s[1]) + j * zi(d[1]))
    return SymTensor(groups, f, x._dt)


@op("fold")
def _fold(x, output_size, kernel_size, dilation=1, padding=0, stride=1):
    """non-overlapping fold only (stride == kernel)"""
    x = lift(x)
    k, s = _pair(kernel_size), _pair(stride)
    o = _pair(output_size)
    if k != s or any(q != 0 for q in _pair(padding)) or any(q != 1 for q in _pair(dilation)):
        raise Unsupported("overlapping fold")
    B, CK, L = x.dims()
    c = dsimp(dz(CK) / (zi(k[0]) * zi(k[1])))
    lh, lw = dsimp(zi(o[0]) / zi(k[0])), dsimp(zi(o[1]) / zi(k[1]))
    if not deq(dprod([lh, lw]), L, fork=True):
        raise RuntimeError("fold: expected size of input's dimension 2 to match the calculated number of sliding blocks")
    v = OPS["reshape"](x, wrap(dz(B)), wrap(dz(c)), k[0], k[1], wrap(dz(lh)), wrap(dz(lw)))

    def f(b, ch, i, j):
        inside = z3.And(i < dz(lh) * zi(k[0]), j < dz(lw) * zi(k[1]))
        return z3.If(inside, v.el(b, ch, i % zi(k[0]), j % zi(k[1]), i / zi(k[0]), j / zi(k[1])), rv(0))
    return from_fn([B, c, dsimp(zi(o[0])), dsimp(zi(o[1]))], f, x._dt)


# ------------------------------------------------------------- losses / misc
@op("mse_loss")
def _mse_loss(a, b, size_average=None, reduce=None, reduction="mean", weight=None):
    d = OPS["square"](lift(a) - b)
    return {"mean": OPS["mean"], "sum": OPS["sum"], "none": lambda x: x}[reduction](d)


@op("l1_loss")
def _l1_loss(a, b, size_average=None, reduce=None, reduction="mean", weight=None):
    d = OPS["abs"](lift(a) - b)
    return {"mean": OPS["mean"], "sum": OPS["sum"], "none": lambda x: x}[reduction](d)


@op("binary_cross_entropy_with_logits")
def _bcel(x, y, weight=None, size_average=None, reduce=None, reduction="mean", pos_weight=None):
    if weight is not None or pos_weight is not None:
        raise Unsupported("weighted bce")
    x = lift(x)
    d = (1 - y) * x + OPS["log"](1 + OPS["exp"](-x))
    return {"mean": OPS["mean"], "sum": OPS["sum"], "none": lambda v: v}[reduction](d)


@op("cross_entropy")
def _ce(x, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean", label_smoothing=0.0):
    if weight is not None or label_smoothing:
        raise Unsupported("weighted cross entropy")
    x, target = lift(x), lift(target)
    K = x.dims()[1] if x.ndim > 1 else None
    if isinstance(K, int) and K <= 16 and not target._dt.is_floating_point:
        # a class index outside 0..K-1 is an error in torch
        prove_range(target, K)
        lab = x.select(1, 0)
        for c in range(1, K):
            lab = OPS["where"](OPS["eq"](target, c), x.select(1, c), lab)
        per = OPS["logsumexp"](x, 1) - lab
        return {"mean": OPS["mean"], "sum": OPS["sum"], "none": lambda q: q}[reduction](per)
    x, target = flat_groups(x), flat_groups(target)
    if target._dt.is_floating_point:
        ls = OPS["log_softmax"](x, 1)
        per = -OPS["sum"](ls * target, 1)
        if reduction == "mean":
            return OPS["sum"](per) / per.numel() if x.ndim == 1 else OPS["sum"](per) / (per.numel())
    else:
        ls = flat_groups(OPS["log_softmax"](x, 1))
        shape = target.dims()

        def f(*idx):
            return -ls.el(idx[0], target.el(*idx), *idx[1:])
        per = from_fn(shape, f, x._dt)
        if reduction == "mean":
            return OPS["mean"](per)
    return OPS["sum"](per) if reduction == "sum" else per


@op("one_hot")
def _one_hot(t, num_classes=-1):
    t = lift(t)
    if num_classes == -1:
        raise Unsupported("one_hot without num_classes")
    tt = OPS["unsqueeze"](t, -1)
    return _to(OPS["eq"](tt, torch.arange(num_classes) if isinstance(num_classes, int) else OPS["arange"](num_classes)), torch.int64)


@op("embedding")
def _embedding(idx, weight, *a, **k):
    return lift(weight)[idx]


@op("histc")
def _histc(*a, **k):
    raise Unsupported("histc")
