"""Real torch layers with arbitrary sizes and parameters, for both interpretations."""

import torch
from torch.nn import Conv2d, Linear, Module


def _bare(cls, **attrs):
    m = cls.__new__(cls)
    Module.__init__(m)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


def _params(env, m, name, wshape, dout, bias, dtype, device, grad=True):
    m.weight = env.tensor(name + ".weight", wshape, dtype, device, grad=grad, param=True)
    if bias:
        m.bias = env.tensor(name + ".bias", (dout,), dtype, device, grad=grad, param=True)
    else:
        m.register_parameter("bias", None)
    return m


def linear(env, name, din, dout, bias, dtype=torch.float32, device="cpu", grad=True):
    m = _bare(Linear, in_features=din, out_features=dout)
    return _params(env, m, name, (dout, din), dout, bias, dtype, device, grad)


def conv(env, name, geo, bias, dtype=torch.float32, device="cpu", grad=True):
    """geo: dict(C, out, g, k, s, p, d): channels per group, outputs, groups, pairs."""
    p = geo["p"]
    m = _bare(
        Conv2d,
        in_channels=geo["C"] * geo["g"],
        out_channels=geo["out"],
        kernel_size=geo["k"],
        stride=geo["s"],
        padding=p,
        dilation=geo["d"],
        transposed=False,
        output_padding=(0, 0),
        groups=geo["g"],
        padding_mode="zeros",
        _reversed_padding_repeated_twice=[0] * 4,
    )
    if not env.symbolic and isinstance(p, str):
        c = Conv2d(1, 1, geo["k"], geo["s"], p, geo["d"])
        m._reversed_padding_repeated_twice = c._reversed_padding_repeated_twice
    w = (geo["out"], geo["C"], geo["k"][0], geo["k"][1])
    return _params(env, m, name, w, geo["out"], bias, dtype, device, grad)


def geometry(env, name, padding="int", same_k=None):
    """Arbitrary convolution hyper-parameters and an input size they fit on."""
    i = lambda k, lo: env.int(name + k, lo)  # noqa: E731
    g = i("groups", 1)
    C = i("C", 1)
    out = g * i("outg", 1)
    k = (i("k1", 1), i("k2", 1))
    d = (i("d1", 1), i("d2", 1))
    s = (1, 1) if padding == "same" else (i("s1", 1), i("s2", 1))
    if padding == "int":
        p = (i("p1", 0), i("p2", 0))
        tot = (2 * p[0], 2 * p[1])
        left = p
    elif padding == "valid":
        p, tot, left = "valid", (0, 0), (0, 0)
    else:
        p = "same"
        tot = tuple(d[a] * (k[a] - 1) for a in (0, 1))
        left = tuple(t // 2 for t in tot)
    I = [i("I1", 1), i("I2", 1)]
    O = []
    for a in (0, 1):
        if not env.symbolic and not env.hints:
            # make it fit
            I[a] += max(0, d[a] * (k[a] - 1) + 1 - tot[a] - I[a])
        span = I[a] + tot[a] - d[a] * (k[a] - 1) - 1
        env.assume(span >= 0)
        O.append(span // s[a] + 1)
    return dict(g=g, C=C, out=out, k=k, d=d, s=s, p=p, left=left, tot=tot, I=tuple(I), O=tuple(O))
