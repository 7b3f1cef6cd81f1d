"""C01 padding"""
from pyvc.api import contract

PRELOAD = ["neuralcompression.functional"]


@contract("C01", "pad_image_to_factor", funcs=["neuralcompression.functional.pad_image_to_factor"])
def pad_image(v):
    from neuralcompression.functional import pad_image_to_factor
    B, C, H, W = v.int("B", 1), v.int("C", 1), v.int("H", 1), v.int("W", 1)
    f = v.int("factor", 1)
    mode = v.choose("mode", ["reflect", "replicate", "constant", "circular"])
    if mode in ("reflect", "circular"):
        # torch's reflect/circular contract: padding smaller than the dimension
        v.require(v.And(H >= f, W >= f))
    x = v.tensor("image", (B, C, H, W))
    out, hw = pad_image_to_factor(x, f, mode)
    oh, ow = out.shape[2], out.shape[3]
    v.ensure("returns-original-size", v.And(hw[0] == H, hw[1] == W))
    v.ensure("batch-channels-kept", v.And(out.shape[0] == B, out.shape[1] == C))
    v.ensure("divisible", v.And(oh % f == 0, ow % f == 0))
    v.ensure("minimal", v.And(oh >= H, oh < H + f, ow >= W, ow < W + f))

    def spec(b, c, i, j):
        def at(i, j):
            return v.at(x, b, c, i, j)
        if mode == "reflect":
            return at(v.If(i < H, i, 2 * H - 2 - i), v.If(j < W, j, 2 * W - 2 - j))
        if mode == "circular":
            return at(v.If(i < H, i, i - H), v.If(j < W, j, j - W))
        if mode == "replicate":
            return at(v.If(i < H, i, H - 1), v.If(j < W, j, W - 1))
        return v.If(v.And(i < H, j < W), lambda: at(i, j), 0.0)
    v.ensure_elems("contents", out, spec)
