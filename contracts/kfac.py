"""Contracts of the input and output-gradient processing (C12, C13)."""

import torch

from contracts import layers
from singd.optim.utils import (
    _extract_averaged_patches,
    _extract_patches,
    process_grad_output,
    process_input,
)
from vcgen.env import scenario

APPROX = ("expand", "reduce")
AVERAGE = (None, "batch", "batch+sequence")


def shared(env, n):
    return tuple(env.int(f"t{i}", 1) for i in range(n))


def tensor_kind(env):
    """Any data type and any device."""
    dtype = env.choice("dtype", [torch.float32, torch.float64, torch.bfloat16])
    return dtype, env.device() if dtype == torch.float64 else "cpu"


def mean(env, x, idx_of, sizes):
    """Average of x over all positions in a box."""

    def rec(pos, rest):
        if not rest:
            return env.at(x, *idx_of(pos))
        return env.sum(0, rest[0], lambda v: rec(pos + (v,), rest[1:]))

    return rec((), sizes)


# ------------------------------------------------------------------ C12 linear
@scenario(
    "C12",
    params=[dict(approx=a, n=n, bias=b) for a in APPROX for n in (0, 1, 2, 3) for b in (True, False)],
    funcs=["process_input", "linear_process_input"],
)
def linear_input(env, approx, n, bias):
    B, din, dout = env.int("B", 1), env.int("din", 1), env.int("dout", 1)
    ts = shared(env, n)
    kind = tensor_kind(env)
    layer = layers.linear(env, "l", din, dout, bias, *kind)
    x = env.tensor("x", (B, *ts, din), *kind)
    snap = env.snapshot(x, layer.weight)
    R = process_input(x, layer, approx)
    cols = din + 1 if bias else din
    N = env.prod((B, *ts)) if approx == "expand" else B
    S = env.prod(ts)

    if approx == "expand":
        def row(r):
            return r if isinstance(r, tuple) else (r,)

        def entry(r, j):
            v = env.ite(j < din, lambda: env.at(x, *row(r), j), 1)
            return v / env.sqrt(N)

        ref = env.build(((B, *ts) if n else B, cols), entry)
    else:
        def entry(b, j):
            v = env.ite(j < din, lambda: mean(env, x, lambda p: (b, *p, j), ts) / env.num(S), 1)
            return v / env.sqrt(N)

        ref = env.build((B, cols), entry)
    env.eq("processed input", R, ref, dtype=x.dtype, device=x.device)
    env.unchanged("layer input", snap)


# ------------------------------------------------------------------ C12 convolution
def conv_reference(env, x, geo, approx, bias):
    B = x.shape[0]
    g, C, (k1, k2) = geo["g"], geo["C"], geo["k"]
    (O1, O2), (I1, I2) = geo["O"], geo["I"]
    N = B * O1 * O2 if approx == "expand" else B

    def patch(b, o1, o2, c, a1, a2):
        u = o1 * geo["s"][0] + a1 * geo["d"][0] - geo["left"][0]
        v = o2 * geo["s"][1] + a2 * geo["d"][1] - geo["left"][1]
        inside = env.all(0 <= u, u < I1, 0 <= v, v < I2)
        return env.ite(
            inside, lambda: env.sum(0, g, lambda q: env.at(x, b, (q, c), u, v)) / env.num(g), 0
        )

    def average(b, c, a1, a2):
        return env.sum(
            0, O1, lambda o1: env.sum(0, O2, lambda o2: patch(b, o1, o2, c, a1, a2))
        ) / env.num(O1) / env.num(O2)

    return N, patch, average


@scenario(
    "C12",
    params=[
        dict(approx=a, padding=p, bias=b)
        for a in APPROX
        for p in ("int", "valid", "same")
        for b in (True, False)
    ],
    funcs=["process_input", "conv2d_process_input", "_extract_patches", "_extract_averaged_patches"],
    n_conc=6,
)
def conv_input(env, approx, padding, bias):
    B = env.int("B", 1)
    geo = layers.geometry(env, "", padding)
    if padding == "same" and approx == "expand":
        # unequal padding is documented as not supported
        env.assume(env.all(geo["tot"][0] % 2 == 0, geo["tot"][1] % 2 == 0))
    kind = tensor_kind(env)
    layer = layers.conv(env, "l", geo, bias, *kind)
    x = env.tensor("x", (B, (geo["g"], geo["C"]), *geo["I"]), *kind)
    snap = env.snapshot(x, layer.weight)
    R = process_input(x, layer, approx)
    N, patch, average = conv_reference(env, x, geo, approx, bias)
    C, (k1, k2), (O1, O2) = geo["C"], geo["k"], geo["O"]
    rows = (B, O1, O2) if approx == "expand" else B
    feats = (C, k1, k2)

    def feature(r, f):
        return patch(*r, *f) if approx == "expand" else average(r, *f)

    body = env.build((rows, feats), lambda r, f: feature(r, f) / env.sqrt(N))
    D = C * k1 * k2
    env.check("rank", len(R.shape) == 2)
    env.check("columns", R.shape[1] == (D + 1 if bias else D))
    env.eq("unfolded input", R[:, :D], body, dtype=x.dtype, device=x.device)
    if bias:
        env.eq("bias column", R[:, D:], env.build((rows, 1), lambda r, j: env.num(1) / env.sqrt(N)))
    env.unchanged("layer input", snap)


# ------------------------------------------------------------------ C13
def terms(env, average, B, S):
    if average is None:
        return 1
    return B if average == "batch" else B * S


@scenario(
    "C13",
    params=[dict(approx=a, average=l, n=n) for a in APPROX for l in AVERAGE for n in (0, 1, 2, 3)],
    funcs=["process_grad_output", "linear_process_grad_output"],
)
def linear_grad(env, approx, average, n):
    B, dout = env.int("B", 1), env.int("dout", 1)
    ts = shared(env, n)
    kind = tensor_kind(env)
    layer = layers.linear(env, "l", env.int("din", 1), dout, env.choice("bias", [True, False]), *kind)
    g = env.tensor("g", (B, *ts, dout), *kind)
    snap = env.snapshot(g, layer.weight)
    R = process_grad_output(g, layer, average, approx)
    scale = env.sqrt(terms(env, average, B, env.prod(ts)))
    if approx == "expand":
        ref = env.build(
            ((B, *ts) if n else B, dout),
            lambda r, j: env.at(g, *(r if isinstance(r, tuple) else (r,)), j) * scale,
        )
    else:
        ref = env.build((B, dout), lambda b, j: mean(env, g, lambda p: (b, *p, j), ts) * scale)
    env.eq("processed gradient", R, ref, dtype=g.dtype, device=g.device)
    env.unchanged("gradient", snap)


@scenario(
    "C13",
    params=[dict(approx=a, average=l) for a in APPROX for l in AVERAGE],
    funcs=["process_grad_output", "conv2d_process_grad_output"],
)
def conv_grad(env, approx, average):
    B, out, O1, O2 = (env.int(k, 1) for k in ("B", "out", "O1", "O2"))
    geo = dict(g=1, C=1, out=out, k=(1, 1), s=(1, 1), p=(0, 0), d=(1, 1))
    kind = tensor_kind(env)
    layer = layers.conv(env, "l", geo, env.choice("bias", [True, False]), *kind)
    g = env.tensor("g", (B, out, O1, O2), *kind)
    snap = env.snapshot(g, layer.weight)
    R = process_grad_output(g, layer, average, approx)
    scale = env.sqrt(terms(env, average, B, O1 * O2))
    if approx == "expand":
        ref = env.build(((B, O1, O2), out), lambda r, c: env.at(g, r[0], c, r[1], r[2]) * scale)
    else:
        ref = env.build((B, out), lambda b, c: mean(env, g, lambda p: (b, c, *p), (O1, O2)) * scale)
    env.eq("processed gradient", R, ref, dtype=g.dtype, device=g.device)
    env.unchanged("gradient", snap)
