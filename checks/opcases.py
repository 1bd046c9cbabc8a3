"""Uses of the library operations the engine has contracts for, on symbolic sizes.

Every call made here is compared with the real operation by vcgen/validate.py.
"""
import math

import einconv
import einconv.utils
import einops
import torch
import torch.nn.functional as F
from einconv import index_pattern
from einconv.utils import get_conv_paddings
from einops import einsum as eeinsum
from einops import rearrange, reduce

CASES = []


def case(f):
    CASES.append(f)
    return f


def mats(env, names="AB", dtype=torch.float32):
    n, m = env.int("n", 1), env.int("m", 1)
    return [env.tensor(k, (n, m), dtype=dtype) for k in names]


def each(*fns):
    """One case per function of two equally shaped matrices."""
    for k, f in enumerate(fns):

        def run(env, f=f):
            A, B = mats(env)
            f(A, B)

        run.__name__ = f"each{len(CASES)}"
        CASES.append(run)


each(
    lambda A, B: A + B,
    lambda A, B: A - B,
    lambda A, B: A * B,
    lambda A, B: A / 2.0,
    lambda A, B: 2.0 / B,
    lambda A, B: 3 - A,
    lambda A, B: 3 + A,
    lambda A, B: 0.5 * A,
    lambda A, B: A**2,
    lambda A, B: A.pow(3),
    lambda A, B: -A,
    lambda A, B: A.neg(),
    lambda A, B: A.abs(),
    lambda A, B: abs(A),
    lambda A, B: A.square(),
    lambda A, B: A.square().sqrt(),
    lambda A, B: (A * A + 1).rsqrt(),
    lambda A, B: A.reciprocal(),
    lambda A, B: A.T,
    lambda A, B: A.mT,
    lambda A, B: A.t(),
    lambda A, B: A.transpose(0, 1),
    lambda A, B: A.swapaxes(0, -1),
    lambda A, B: A.swapdims(0, 1),
    lambda A, B: A.permute(1, 0),
    lambda A, B: A @ B.T,
    lambda A, B: A.matmul(B.T),

    lambda A, B: torch.chain_matmul(A, B.T, A),
    lambda A, B: torch.linalg.multi_dot([A, B.T, A]),
    lambda A, B: torch.addmm(A @ B.T, A, B.T, beta=0.5, alpha=2.0),
    lambda A, B: torch.add(A, B, alpha=0.5),
    lambda A, B: torch.sub(A, B, alpha=0.5),
    lambda A, B: torch.lerp(A, B, 0.3),
    lambda A, B: torch.addcmul(A, A, B, value=0.5),
    lambda A, B: torch.addcdiv(A, A, B, value=0.5),
    lambda A, B: A.sum(),
    lambda A, B: A.sum(0),
    lambda A, B: A.sum(dim=1, keepdim=True),
    lambda A, B: A.sum((0, 1)),
    lambda A, B: A.mean(),
    lambda A, B: A.mean(-1),
    lambda A, B: A.mean(dim=0, keepdim=True),
    lambda A, B: A.max(),
    lambda A, B: A.amax(),
    lambda A, B: A.trace(),
    lambda A, B: A.flatten(),
    lambda A, B: A.ravel(),
    lambda A, B: A.reshape(-1),
    lambda A, B: A.contiguous().view(-1),
    lambda A, B: A.reshape_as(B),
    lambda A, B: A.flip(0),
    lambda A, B: A.flip((0, 1)),
    lambda A, B: A.flipud(),
    lambda A, B: A.fliplr(),
    lambda A, B: A.unsqueeze(0),
    lambda A, B: A.unsqueeze(-1).squeeze(-1),
    lambda A, B: A.unsqueeze(1).expand(-1, 3, -1),
    lambda A, B: A.expand(2, -1, -1),
    lambda A, B: A.repeat(2, 3),
    lambda A, B: A.repeat(2, 1, 1),
    lambda A, B: A.tile((2, 2)),
    lambda A, B: A.clone(),
    lambda A, B: A.detach(),
    lambda A, B: A.contiguous(),
    lambda A, B: A.to(torch.float16),
    lambda A, B: A.to(B),
    lambda A, B: A.to("cpu"),
    lambda A, B: A.to("cpu", torch.float64),
    lambda A, B: A.double() + B,
    lambda A, B: A.half(),
    lambda A, B: A.bfloat16() * 2,
    lambda A, B: A.float(),
    lambda A, B: A.type_as(B),
    lambda A, B: A.tril(),
    lambda A, B: A.triu(),
    lambda A, B: torch.tril(A),
    lambda A, B: torch.cat([A, B]),
    lambda A, B: torch.cat([A, B, A], dim=1),
    lambda A, B: torch.stack([A, B]),
    lambda A, B: torch.stack([A, B], dim=-1),
    lambda A, B: torch.vstack([A, B]),
    lambda A, B: torch.hstack([A, B]),
    lambda A, B: torch.outer(A[0], B[:, 0]),
    lambda A, B: torch.dot(A[0], B[0]),
    lambda A, B: A.mv(B[0]),
    lambda A, B: A @ B[0],
    lambda A, B: A[0] @ B.T,
    lambda A, B: torch.einsum("ab,cb->ac", A, B),
    lambda A, B: torch.einsum("ab,ab->", A, B),
    lambda A, B: torch.einsum("ab,ab->a", A, B),
    lambda A, B: torch.einsum("ab,b->ab", A, B[0]),
    lambda A, B: torch.einsum("ab->ba", A),
    lambda A, B: torch.tensordot(A, B.T, dims=1),
    lambda A, B: torch.inner(A, B),
    lambda A, B: A[0],
    lambda A, B: A[-1],
    lambda A, B: A[:, 0],
    lambda A, B: A[:, -1:],
    lambda A, B: A[:1],
    lambda A, B: A[..., None],
    lambda A, B: A[None],
    lambda A, B: A[1:, :],
    lambda A, B: A.select(0, 0),
    lambda A, B: A.narrow(1, 0, 1),
    lambda A, B: A.T.flatten(),
    lambda A, B: A.numel(),
    lambda A, B: A.nelement(),
    lambda A, B: A.dim(),
    lambda A, B: A.ndim,
    lambda A, B: A.size(),
    lambda A, B: A.size(1),
    lambda A, B: A.shape,
    lambda A, B: A.dtype,
    lambda A, B: A.is_floating_point(),
    lambda A, B: torch.zeros_like(A),
    lambda A, B: torch.ones_like(A, dtype=torch.float16),
    lambda A, B: torch.full_like(A, 2.5),
    lambda A, B: torch.empty_like(A),
    lambda A, B: A.new_zeros(3),
    lambda A, B: A.new_ones((2, 2)),
    lambda A, B: A.new_full((2,), 0.5),
    lambda A, B: torch.zeros(A.shape),
    lambda A, B: torch.ones(A.shape[0], dtype=torch.float16),
    lambda A, B: torch.eye(A.shape[0]),
    lambda A, B: torch.full((A.shape[0],), 1.5),
    lambda A, B: torch.arange(A.shape[0]),
    lambda A, B: torch.arange(1, A.shape[0] + 3),
    lambda A, B: torch.arange(A.shape[0] - 1, -1, -1),
    lambda A, B: torch.linalg.vector_norm(A),
    lambda A, B: torch.linalg.vector_norm(A, ord=math.inf),
    lambda A, B: torch.linalg.matrix_norm(A),
    lambda A, B: torch.linalg.norm(A),
    lambda A, B: torch.norm(A),
    lambda A, B: A.norm(),
    lambda A, B: F.pad(A, (1, 2)),
    lambda A, B: F.pad(A, (0, 1), value=1.0),
    lambda A, B: F.pad(A, (0, 0, 1, 0)),
    lambda A, B: F.linear(A, B),
    lambda A, B: F.linear(A, B, A.sum(0)[:1].expand(B.shape[0])),
    lambda A, B: A.to(torch.float16) + B.to(torch.bfloat16),
    lambda A, B: A.to(torch.float16) * torch.ones((), dtype=torch.float32),
    lambda A, B: A.to(torch.bfloat16).sum(),
    lambda A, B: A + A[:, :1],
    lambda A, B: A * A.sum(0),
    lambda A, B: A.diag(),
    lambda A, B: A.diagonal(),
    lambda A, B: (A @ B.T).diag(),
    lambda A, B: (A @ B.T).diagonal().sum(),
    lambda A, B: A[0].diag(),
    lambda A, B: torch.block_diag(A, B),
    lambda A, B: torch.block_diag(A, A[0], B.T),
    lambda A, B: A.unflatten(1, (-1, 1)),
    lambda A, B: A.sum().item(),
    lambda A, B: A.sum().expand(3),
    lambda A, B: (A.sum() * 0.5).reshape(1),
    lambda A, B: torch.as_tensor(A),
    lambda A, B: torch.bmm(A.unsqueeze(0), B.T.unsqueeze(0)),
    lambda A, B: A.T.reshape(-1, 1),
    lambda A, B: A.view(A.shape[0], 1, A.shape[1]) if A.is_contiguous() else None,
    # in place
    lambda A, B: A.add_(B),
    lambda A, B: A.add_(B, alpha=-0.5),
    lambda A, B: A.sub_(B),
    lambda A, B: A.sub_(B, alpha=2),
    lambda A, B: A.mul_(0.5),
    lambda A, B: A.mul_(B),
    lambda A, B: A.div_(2.0),
    lambda A, B: A.div_(B),
    lambda A, B: A.neg_(),
    lambda A, B: A.copy_(B),
    lambda A, B: A.zero_(),
    lambda A, B: A.fill_(2.0),
    lambda A, B: A.lerp_(B, 0.5),
    lambda A, B: A.addcmul_(A, B, value=2.0),
    lambda A, B: A.square_(),
    lambda A, B: A.fill_diagonal_(1.0),
    lambda A, B: A[0].add_(B[0]),
    lambda A, B: A[:, 0].copy_(B[:, 0]),
    lambda A, B: A.T.mul_(3.0),
    lambda A, B: A.diagonal().add_(1.0),
    lambda A, B: A.__setitem__(0, B[0]),
    lambda A, B: A.__setitem__((slice(None), 0), 1.0),
    lambda A, B: A.__setitem__((slice(1, None), slice(None)), B[1:]),
    lambda A, B: A.__setitem__((Ellipsis, -1), B[..., 0]),
    lambda A, B: A.add_(B.sum(0)),
    lambda A, B: A.half().mul_(B[0, 0].item()),
)


@case
def square(env):
    n = env.int("n", 1)
    A, B = env.tensor("A", (n, n)), env.tensor("B", (n, n))
    A.diag()
    A.diagonal()
    A.trace()
    A.tril()
    A.triu()
    A @ B @ A.T
    A.add_(torch.eye(n))
    A.diagonal().mul_(2.0)
    A.diag().mean().item()
    torch.addmm(A, B, B)


@case
def triangles(env):
    n = env.int("n", 1)
    A = env.tensor("A", (n, n))
    r, c = torch.tril_indices(n, n)
    v = A[r, c]
    Z = torch.zeros(n, n)
    Z[r, c] = v * 2.0
    Z @ A


@case
def triangles_up(env):
    n = env.int("n", 1)
    A = env.tensor("A", (n, n))
    r, c = torch.triu_indices(n, n)
    Z = torch.zeros(n, n)
    Z[r, c] = A[r, c]
    Z + A


@case
def blocks(env):
    b, n = env.int("b", 1), env.int("n", 1)
    A = env.tensor("A", (b * n, b * n))
    X = env.tensor("X", ((b, n), n))
    X.reshape(b, n, n)
    X.unflatten(0, (b, n))
    rearrange(X, "(b i) j -> b i j", b=b)
    rearrange(X, "(b i) j -> b j i", i=n)
    C = env.tensor("C", (b, n, n))
    rearrange(C, "b i j -> (b i) j")
    rearrange(C, "b i j -> j (b i)")
    C.flatten(0, 1)
    C.flatten()
    C.reshape(b * n, n)
    torch.einsum("bij,bjk->bik", C, C)
    torch.einsum("bij,bkj->bik", C, C)
    torch.einsum("bii->b", C)
    torch.bmm(C, C.transpose(1, 2))
    C @ C
    C.sum(0)
    C.mean((1, 2))
    C.transpose(0, 2)
    C.permute(2, 0, 1)
    C.transpose(-1, -2)
    reduce(C, "b i j -> i j", "sum")
    reduce(C, "b i j -> b", "mean")
    reduce(C, "b i j -> j i", "mean")
    eeinsum(C, C, "b i j, b k j -> i k")
    torch.einsum("...ij,...jk->...ik", C, C)
    rearrange(C, "b ... -> ... b")
    C.sum(-1, keepdim=True)
    C[:, 0]
    C[0, :, -1]
    C[..., :1]
    C.diagonal(dim1=1, dim2=2)
    C.diagonal(dim1=-2, dim2=-1).add_(1.0)


@case
def toeplitz(env):
    n, k = env.int("n", 1), env.int("k", 1)
    d = env.tensor("d", (n,))
    X = env.tensor("X", (n, k))
    F.pad(d, (n - 1, 0))
    torch.arange(n, 2 * n)
    torch.arange(n - 1, -1, -1)
    r = torch.arange(n).unsqueeze(-1).expand(-1, k)
    c = torch.arange(k).unsqueeze(0).expand(n, -1)
    i = (c - r).add_(n - 1).flatten()
    torch.zeros(n + k - 1).scatter_add_(0, i, X.flatten())
    co = env.tensor("co", (2 * n - 1,))
    w = co.unsqueeze(0).unsqueeze(0).expand(k, -1, -1)
    F.conv1d(X.T, w, padding=n - 1, groups=k).T
    x = F.pad(d, (n - 1, 0)).unsqueeze(0)
    F.conv1d(x, d.flip(0).unsqueeze(0).unsqueeze(0)).squeeze(0)
    F.conv1d(X.T.unsqueeze(0), env.tensor("v", (2, k, 1)), padding=1, stride=2)


@case
def unfolded(env):
    B, c, i1, i2 = (env.int(x, 1) for x in ("B", "c", "i1", "i2"))
    k1, k2, p, s, d = env.int("k1", 1), env.int("k2", 1), env.int("p", 0), env.int("s", 1), env.int("d", 1)
    x = env.tensor("x", (B, c, i1, i2))
    u = F.unfold(x, (k1, k2), dilation=(d, 1), padding=(p, 0), stride=(1, s))
    rearrange(u, "b c_in_k1_k2 o1_o2 -> b o1_o2 c_in_k1_k2")


@case
def grouped(env):
    B, g, c = env.int("B", 1), env.int("g", 1), env.int("c", 1)
    x = env.tensor("x", (B, (g, c), 2, 3))
    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=g)
    reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")
    reduce(x, "b g c_in i1 i2 -> b (c_in i1) i2", "sum")


@case
def splits(env):
    n, m = env.int("n", 1), env.int("m", 1)
    A = env.tensor("A", (n + m, n))
    A.split([n, m])
    a, b = torch.split(A, [n, m], dim=0)
    a @ b.T
    torch.cat([b, a])
    A.narrow(0, n, m)
    A[n:]
    A[:n]
    A[n:].add_(b)
    A[:n, :] = a.T


@case
def split_three(env):
    k, n, l = env.int("k", 0), env.int("n", 1), env.int("l", 0)
    A = env.tensor("A", (k + n + l, 2))
    x, y, z = A.split([k, n, l])
    A[k : k + n].mul_(2.0)
    torch.cat([z, y, x], dim=0)
    x.sum(0)


@case
def convolution(env):
    i, k = env.int("i", 1), env.int("k", 1)
    s, p, d = env.int("s", 1), env.int("p", 0), env.int("d", 1)
    get_conv_paddings(k, s, p, d)
    index_pattern(i, k, stride=s, padding=p, dilation=d, dtype=torch.float32)


@case
def convolution_same(env):
    i, k, d = env.int("i", 1), env.int("k", 1), env.int("d", 1)
    get_conv_paddings(k, 1, "same", d)
    index_pattern(i, k, stride=1, padding="same", dilation=d)


@case
def layers(env):
    B, t, n, o = env.int("B", 1), env.int("t", 1), env.int("n", 1), env.int("o", 1)
    x, W, b = env.tensor("x", (B, t, n)), env.tensor("W", (o, n)), env.tensor("b", (o,))
    F.linear(x, W, b)
    F.linear(x, W)
    g = env.tensor("g", (B, t, o))
    rearrange(g, "b ... d -> (b ...) d")
    rearrange(x, "b t n -> (b t) n").T @ rearrange(g, "b t o -> (b t) o")
    torch.einsum("b...i,b...o->io", x, g)
    eeinsum(g, x, "b ... o, b ... i -> o i")
    reduce(x, "b ... d -> b d", "mean")
    reduce(g, "b ... d -> b d", "sum")
    torch.cat([x, x.new_ones(B, t, 1)], dim=-1)
    F.pad(x, (0, 1), value=1.0)
    x.reshape(-1, n)
    x.flatten(0, -2)
    x.mean(dim=1)
    (x * B**0.5).sum()


@case
def mixed(env):
    n = env.int("n", 1)
    for a in (torch.float32, torch.float16, torch.bfloat16):
        for b in (torch.float32, torch.float16, torch.bfloat16):
            A, B = env.tensor("A", (n, n), dtype=a), env.tensor("B", (n,), dtype=b)
            A + B
            A * B
            A.add_(B)
            A.copy_(B)
            A * 2.0
            A / 3
            A @ A
            A + torch.ones((), dtype=b)
            A.to(b)
            A.sum()
            A.mean()
            torch.promote_types(a, b)
            if a != b:
                try:
                    A @ B
                except RuntimeError:
                    pass
                try:
                    torch.einsum("ij,j->i", A, B)
                except RuntimeError:
                    pass


def raising(*fns):
    """One case per call that is wrong for some sizes."""
    for f in fns:

        def run(env, f=f):
            n, m, k = env.int("n", 1), env.int("m", 1), env.int("k", 1)
            f(env.tensor("A", (n, m)), env.tensor("B", (k, m)), k)

        run.__name__ = f"raising{len(CASES)}"
        CASES.append(run)


raising(
    lambda A, B, k: A @ B,
    lambda A, B, k: A + B,
    lambda A, B, k: A.add_(B),
    lambda A, B, k: A.copy_(B),
    lambda A, B, k: torch.cat([A, B], dim=1),
    lambda A, B, k: A[k],
    lambda A, B, k: A.unsqueeze(5),
    lambda A, B, k: A.sum(3),
    lambda A, B, k: torch.einsum("ij,jk->ik", A, B),
    lambda A, B, k: A.split([k, k]),
    lambda A, B, k: A.narrow(0, k, 1),
    lambda A, B, k: A.expand(k, -1),
    lambda A, B, k: rearrange(A, "a b c -> c b a"),
    lambda A, B, k: F.linear(A, B),
    lambda A, B, k: A.__setitem__(0, B[0]),
    lambda A, B, k: A.__setitem__(slice(None), B),
    lambda A, B, k: torch.mm(A[0], B),
    lambda A, B, k: A.to(torch.float16) @ B.T,
    lambda A, B, k: torch.block_diag(A, B.unsqueeze(0)),
    lambda A, B, k: A.T.add_(B),
)


@case
def empty_sizes(env):
    n, k = env.int("n", 0), env.int("k", 0)
    A, B = env.tensor("A", (n, 2)), env.tensor("B", (k, 2))
    torch.cat([A, B])
    A @ B.T
    A.sum()
    A.T @ A
    torch.block_diag(A, B)
    torch.zeros(n, k)
    A[1:]
    A[:-1]
    A.split([n])


@case
def rows(env):
    n = env.int("n", 2)
    A = env.tensor("A", (n, 3))
    A[-1]
    A[-2:]
    A[:-1]
    A[1:-1]
    A[n - 1]
    A[0:n:1]
    A[:, 1:]
    A[:, :-1]
    A[1].outer(A[0])
    A[:-1] = A[1:].clone()


@case
def numbers(env):
    a, b = env.real("a", positive=True), env.real("b")
    x = env.tensor("x", (2,))
    x * a
    x.add_(x, alpha=b)
    x + b
    x / a
    x**2 * a**0.5
    x.mul_(a)
    x.lerp_(x, b)
    torch.full((2,), 1.0) * b
    math.sqrt(2.0)


@case
def integer_valued(env):
    n, m = env.int("n", 1), env.int("m", 1)
    A = env.tensor("A", (n,), dtype=torch.float64)
    r = torch.arange(n, 0, step=-1, dtype=torch.float64)
    (A / r.clamp(max=4))
    (A / torch.arange(n, 0, step=-1).to(torch.float64).clamp_(max=4))
    (A * (r - m).abs())
    torch.maximum(r, torch.full((n,), 2.0, dtype=torch.float64)) * A
    torch.minimum(r, r.flip(0)) * A
    torch.where(r > 2, A, 2 * A)
    (r - m).clamp(0, 3) * A
    A.clamp(max=1.0)
    A.clamp_min(0.25)


@case
def layouts(env):
    n, m, k = env.int("n", 1), env.int("m", 1), env.int("k", 1)
    A, B = env.tensor("A", (n, m), dtype=torch.float64), env.tensor("B", (m, k), dtype=torch.float64)
    C = env.tensor("C", (n, m, k), dtype=torch.float64)
    for x in (A @ B, A @ B + A @ B, (A @ B).abs(), B.T @ A.T, torch.cat([A, A], 1), torch.stack([A, A])):
        x.view(-1)
    try:
        A.view(-1)
    except RuntimeError:
        pass
    try:
        C.view(n, -1)
    except RuntimeError:
        pass
    try:
        (A @ B).T.view(-1)
    except RuntimeError:
        pass
    C.view(n, 1, m, k)
    (A @ B) * env.tensor("s", (), dtype=torch.float64)
    (A @ B) + torch.ones(k, dtype=torch.float64)
