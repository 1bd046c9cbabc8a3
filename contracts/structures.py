"""Contracts of the structured matrix classes (C01-C11)."""

import torch

from contracts.structs import *
from vcgen.env import scenario


def per_class(keys=ALL, **extra):
    return [dict(cls=k, **extra) for k in keys]


def F(*names):
    return [f"{c}.{n}" for c in ("<class>",) for n in names]


# ------------------------------------------------------------------ C01
@scenario("C01", params=per_class(), funcs=["<cls>.__matmul__", "<cls>.to_dense"])
def matmul_tensor(env, cls):
    M, V, comps, ds = make(env, cls, lo=0)
    m = env.int("m", 1)
    X = env.tensor("X", (V.dim, m))
    snap = env.snapshot(X, *comps)
    R = M @ X
    env.check("result is a tensor", isinstance(R, torch.Tensor))
    env.eq("M @ X", R, env.mm(V.dense(), X))
    env.eq("M @ X = M.to_dense() @ X", R, env.mm(M.to_dense(), X))
    env.unchanged("operands", snap)


@scenario("C01", params=per_class(), funcs=["<cls>.rmatmat", "<cls>.to_dense"])
def rmatmat(env, cls):
    M, V, comps, ds = make(env, cls, lo=0)
    m = env.int("m", 1)
    X = env.tensor("X", (V.dim, m))
    snap = env.snapshot(X, *comps)
    R = M.rmatmat(X)
    env.check("result is a tensor", isinstance(R, torch.Tensor))
    T_ = env.build((V.dim, V.dim), lambda i, j: V.at(j, i))
    env.eq("M^T @ X", R, env.mm(T_, X))
    env.eq("M^T @ X = M.to_dense()^T @ X", R, env.mm(M.to_dense().T, X))
    env.unchanged("operands", snap)


def dims2(env, cls):
    """Sizes for contracts with two operands.  The generic algebra of the recursive classes
    re-projects onto the boundary the class prescribes, so these use that boundary."""
    C = CLASSES[cls]
    if kind(C) in ("topright", "bottomleft"):
        return dims_of(env, C, env.int("d", 0))
    return dims(env, C, "M.", lo=0)


def dense_of(env, cls, R, label):
    """to_dense of a result that must be of class cls."""
    C = CLASSES[cls]
    env.check(label + ": class", type(R) is C, f"{type(R).__name__}")
    return R.to_dense()


def tensors(M):
    return [t for _, t in M.named_tensors()]


# ------------------------------------------------------------------ C02
@scenario("C02", params=per_class(), funcs=["<cls>.__matmul__"])
def struct_product(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    N, W, c2, _ = make(env, cls, "N.", ds)
    snap = env.snapshot(*c1, *c2)
    R = M @ N
    prod = env.mm(V.dense(), W.dense())
    env.eq("M @ N", dense_of(env, cls, R, "M @ N"), prod)
    env.unchanged("operands", snap)


@scenario("C02", params=per_class(), funcs=["<cls>.__add__"])
def struct_sum(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    N, W, c2, _ = make(env, cls, "N.", ds)
    snap = env.snapshot(*c1, *c2)
    R = M + N
    env.eq("M + N", dense_of(env, cls, R, "M + N"), env.lin((1, V.dense()), (1, W.dense())))
    env.unchanged("operands", snap)


@scenario("C02", params=per_class(), funcs=["<cls>.__mul__"])
def struct_scale(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    s = env.real("s")
    snap = env.snapshot(*c1)
    R = M * s
    env.eq("M * s", dense_of(env, cls, R, "M * s"), env.lin((s, V.dense())))
    env.unchanged("operand", snap)


@scenario("C02", params=per_class(), funcs=["<cls>.__matmul__", "<cls>.__add__"])
def struct_result_usable(env, cls):
    """Results are ordinary matrices: in-place updates of them are exact as well."""
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    N, W, c2, _ = make(env, cls, "N.", ds)
    s = env.real("s")
    R = M + N
    R.add_(N, alpha=s)
    env.eq(
        "(M + N).add_(N, s)",
        R.to_dense(),
        env.lin((1, V.dense()), (1, W.dense()), (s, W.dense())),
    )


# ------------------------------------------------------------------ C03
@scenario("C03", params=per_class(), funcs=["<cls>.add_"])
def inplace_add(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    N, W, c2, _ = make(env, cls, "N.", ds)
    s = env.real("s")
    old = V.dense()
    snap = env.snapshot(*c2)
    R = M.add_(N, alpha=s)
    env.check("returns the target", R is M)
    new = env.lin((1, old), (s, W.dense()))
    env.eq("M.add_(N, s)", M.to_dense(), new)
    env.unchanged("other", snap)
    R = M.add_(N)
    env.check("returns the target", R is M)
    env.eq("M.add_(N)", M.to_dense(), env.lin((1, new), (1, W.dense())))
    env.unchanged("other", snap)


@scenario("C03", params=per_class(), funcs=["<cls>.add_"])
def inplace_add_self(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    s = env.real("s")
    old = V.dense()
    env.check("returns the target", M.add_(M, alpha=s) is M)
    env.eq("M.add_(M, s)", M.to_dense(), env.lin((1, old), (s, old)))


@scenario("C03", params=per_class(), funcs=["<cls>.mul_"])
def inplace_mul(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    s = env.real("s")
    old = V.dense()
    env.check("returns the target", M.mul_(s) is M)
    env.eq("M.mul_(s)", M.to_dense(), env.lin((s, old)))


@scenario("C03", params=per_class(), funcs=["<cls>.diag_add_"])
def inplace_diag_add(env, cls):
    M, V, c1, ds = make(env, cls, "M.", dims2(env, cls))
    N, W, c2, _ = make(env, cls, "N.", ds)
    v, s = env.real("v"), env.real("s")
    old = V.dense()
    snap = env.snapshot(*c2)
    I = env.build((V.dim, V.dim), lambda i, j: env.ite(i == j, 1, 0))
    env.check("returns the target", M.diag_add_(v) is M)
    now = env.lin((1, old), (v, I))
    env.eq("M.diag_add_(v)", M.to_dense(), now)
    env.check("returns the target", M.diag_add_(s).mul_(v) is M)
    now = env.lin((v, now), (v * s, I))
    env.eq("M.diag_add_(v).diag_add_(s).mul_(v)", M.to_dense(), now)
    M.add_(N, alpha=s)
    env.eq("then M.add_(N, s)", M.to_dense(), env.lin((1, now), (s, W.dense())))
    env.unchanged("other", snap)


# ------------------------------------------------------------------ C04
def symmetric(env, d, tag="S", **kw):
    A = env.tensor(tag, (d, d), **kw)
    S = A + A.T
    return S


@scenario("C04", params=per_class(), funcs=["<cls>.from_dense", "<cls>.to_dense"])
def from_dense(env, cls):
    C = CLASSES[cls]
    d = env.int("d", least(cls))
    S = symmetric(env, d)
    ds = dims_of(env, C, d)
    want = project(env, C, ds, lambda i, j: env.at(S, i, j)).dense()
    snap = env.snapshot(S)
    M = C.from_dense(S)
    env.eq("from_dense(S).to_dense()", dense_of(env, cls, M, "from_dense"), want)
    env.unchanged("input", snap)


@scenario("C04", params=per_class(), funcs=["<cls>.to_dense"])
def to_dense(env, cls):
    M, V, c, ds = make(env, cls, "M.", lo=0)
    snap = env.snapshot(*c)
    env.eq("to_dense", M.to_dense(), V.dense())
    env.unchanged("components", snap)


# ------------------------------------------------------------------ C05
def canonical(env, cls, tag="K.", dim=None):
    C = CLASSES[cls]
    d = env.int("d", least(cls)) if dim is None else dim
    ds = dims_of(env, C, d)
    K, V, comps, _ = make(env, cls, tag, ds)
    return K, V, comps, ds, d


def gram(env, V, X):
    """K^T X X^T K (or K^T K) as a tensor."""
    Kt = env.build((V.dim, V.dim), lambda i, j: V.at(j, i))
    if X is None:
        return env.mm(Kt, V.dense())
    Y = env.mm(Kt, X)
    return env.mm(Y, Y.T)


@scenario("C05", params=per_class(), funcs=["<cls>.from_inner", "<cls>.rmatmat"])
def from_inner_X(env, cls):
    K, V, comps, ds, d = canonical(env, cls)
    m = env.int("m", 1)
    X = env.tensor("X", (d, m))
    snap = env.snapshot(X, *comps)
    R = K.from_inner(X)
    G = gram(env, V, X)
    want = project(env, CLASSES[cls], ds, lambda i, j: env.at(G, i, j)).dense()
    env.eq("K.from_inner(X)", dense_of(env, cls, R, "from_inner"), want)
    env.unchanged("operands", snap)


@scenario("C05", params=per_class(), funcs=["<cls>.from_inner"])
def from_inner_none(env, cls):
    K, V, comps, ds, d = canonical(env, cls)
    snap = env.snapshot(*comps)
    R = K.from_inner()
    G = gram(env, V, None)
    want = project(env, CLASSES[cls], ds, lambda i, j: env.at(G, i, j)).dense()
    env.eq("K.from_inner()", dense_of(env, cls, R, "from_inner"), want)
    env.unchanged("operand", snap)


@scenario("C05", params=per_class(), funcs=["<cls>.from_mat_inner"])
def from_mat_inner(env, cls):
    C = CLASSES[cls]
    d, m = env.int("d", least(cls)), env.int("m", 1)
    ds = dims_of(env, C, d)
    X = env.tensor("X", (d, m))
    snap = env.snapshot(X)
    R = C.from_mat_inner(X)
    G = env.mm(X, X.T)
    want = project(env, C, ds, lambda i, j: env.at(G, i, j)).dense()
    env.eq("from_mat_inner(X)", dense_of(env, cls, R, "from_mat_inner"), want)
    env.unchanged("operand", snap)


@scenario("C05", params=per_class(), funcs=["<cls>.from_inner2"])
def from_inner2(env, cls):
    K, V, comps, ds, d = canonical(env, cls)
    S = symmetric(env, d)
    snap = env.snapshot(S, *comps)
    R = K.from_inner2(S)
    Kt = env.build((d, d), lambda i, j: V.at(j, i))
    G = env.mm(Kt, S, V.dense())
    want = project(env, CLASSES[cls], ds, lambda i, j: env.at(G, i, j)).dense()
    env.eq("K.from_inner2(S)", dense_of(env, cls, R, "from_inner2"), want)
    env.unchanged("operands", snap)


# ------------------------------------------------------------------ C06
@scenario("C06", params=per_class(), funcs=["<cls>.average_trace"])
def average_trace(env, cls):
    M, V, c, ds = make(env, cls)
    t = env.sum(0, V.dim, lambda i: V.at(i, i))
    snap = env.snapshot(*c)
    env.eq("average_trace", M.average_trace(), env.build((), lambda: t / env.num(V.dim)))
    env.unchanged("operand", snap)


@scenario("C06", params=per_class(), funcs=["<cls>.frobenius_norm"])
def frobenius_norm(env, cls):
    M, V, c, ds = make(env, cls, lo=0)
    D = V.dense()
    snap = env.snapshot(*c)
    env.eq("frobenius_norm", M.frobenius_norm(), (D * D).sum().sqrt())
    env.unchanged("operand", snap)


@scenario("C06", params=per_class(), funcs=["<cls>.infinity_vector_norm"])
def infinity_norm(env, cls):
    M, V, c, ds = make(env, cls)
    snap = env.snapshot(*c)
    env.eq("infinity_vector_norm", M.infinity_vector_norm(), V.dense().abs().max())
    env.unchanged("operand", snap)


# ------------------------------------------------------------------ C07
DTYPES = [torch.float32, torch.float16, torch.bfloat16, torch.float64]


@scenario("C07", params=per_class(), funcs=["<cls>.zeros", "<cls>.eye"])
def zeros_eye(env, cls):
    C = CLASSES[cls]
    d = env.int("d", least(cls))
    dt = env.choice("dtype", [None] + DTYPES)
    # the real code runs on the CPU here; devices are in zeros_eye_device
    dev = env.choice("device", [None, torch.device("cpu")])
    want = dt if dt is not None else torch.get_default_dtype()
    for what, one in (("zeros", 0), ("eye", 1)):
        R = getattr(C, what)(d, dtype=dt, device=dev)
        D = dense_of(env, cls, R, what)
        env.eq(what, D, env.build((d, d), lambda i, j: env.ite(i == j, one, 0)), dtype=want)
        for t in tensors(R):
            env.dtype(what + " component dtype", t, want)
            env.on(what + " component device", t, torch.device("cpu"))


@scenario("C07", params=per_class(), funcs=["<cls>.zeros", "<cls>.eye"])
def zeros_eye_device(env, cls):
    C = CLASSES[cls]
    d = env.int("d", least(cls))
    dev = env.device()
    for what, one in (("zeros", 0), ("eye", 1)):
        R = getattr(C, what)(d, dtype=torch.float32, device=dev)
        for t in tensors(R):
            env.on(what + " component device", t, dev)
        env.eq(
            what,
            R.to_dense(),
            env.build((d, d), lambda i, j: env.ite(i == j, one, 0)),
            device=dev,
        )


@scenario("C07", params=per_class(), funcs=["<cls>.zeros", "<cls>.eye"])
def zeros_eye_independent(env, cls):
    C = CLASSES[cls]
    d = env.int("d", least(cls))
    s = env.real("s")
    for what, one in (("zeros", 0), ("eye", 1)):
        P, Q = getattr(C, what)(d), getattr(C, what)(d)
        env.no_alias(what + " share no memory", tensors(P), tensors(Q))
        I = env.build((d, d), lambda i, j: env.ite(i == j, 1, 0))
        P.diag_add_(s).add_(Q, alpha=2.0)
        env.eq(what + " updated in place", P.to_dense(), env.lin((s + 3.0 * one, I)))
        env.eq(what + " other instance", Q.to_dense(), env.lin((1.0 * one, I)))


# ------------------------------------------------------------------ C08
SUPPORTED = [torch.float32, torch.float16, torch.bfloat16]


@scenario("C08", params=per_class(where=None), funcs=["<cls>.*"])
def keeps_dtype(env, cls, where):
    dt = env.choice("dtype", SUPPORTED)
    dtype_device(env, cls, dt, "cpu")


@scenario("C08", params=per_class(where=None), funcs=["<cls>.*"])
def keeps_device(env, cls, where):
    dtype_device(env, cls, torch.float32, env.device())


def dtype_device(env, cls, dt, dev):
    C = CLASSES[cls]
    kw = dict(dtype=dt, device=dev)
    d = env.int("d", 1)  # norms of a matrix without entries are undefined
    ds = dims_of(env, C, d)
    M, V, c, _ = make(env, cls, "M.", ds, **kw)
    N, W, c2, _ = make(env, cls, "N.", ds, **kw)
    m = env.int("m", 1)
    X = env.tensor("X", (d, m), **kw)
    A = env.tensor("S", (d, d), **kw)
    S = A + A.T
    ops = {
        "M @ X": lambda: M @ X,
        "M^T @ X": lambda: M.rmatmat(X),
        "M @ N": lambda: M @ N,
        "M + N": lambda: M + N,
        "M * s": lambda: M * 0.5,
        "from_inner(X)": lambda: M.from_inner(X),
        "from_inner()": lambda: M.from_inner(),
        "from_mat_inner": lambda: C.from_mat_inner(X),
        "from_inner2": lambda: M.from_inner2(S),
        "from_dense": lambda: C.from_dense(S),
        "to_dense": lambda: M.to_dense(),
        "zeros": lambda: C.zeros(d, **kw),
        "eye": lambda: C.eye(d, **kw),
        "average_trace": lambda: M.average_trace(),
        "frobenius_norm": lambda: M.frobenius_norm(),
        "add_": lambda: M.add_(N, alpha=0.5),
        "mul_": lambda: M.mul_(0.5),
        "diag_add_": lambda: M.diag_add_(0.5),
    }
    if env.symbolic or str(dev) != "meta":
        ops["infinity_vector_norm"] = lambda: M.infinity_vector_norm()
    for name, f in ops.items():
        r = env.succeeds(name + " succeeds", f)
        if r is None:
            continue
        ts = [r] if isinstance(r, torch.Tensor) else tensors(r)
        for k, t in enumerate(ts):
            env.dtype(f"{name} dtype[{k}]", t, dt)
            env.on(f"{name} device[{k}]", t, dev)


# ------------------------------------------------------------------ C09
@scenario("C09", params=per_class(), funcs=["<cls>.*"])
def no_aliasing(env, cls):
    C = CLASSES[cls]
    d = env.int("d", least(cls))
    ds = dims_of(env, C, d)
    M, V, c1, _ = make(env, cls, "M.", ds)
    N, W, c2, _ = make(env, cls, "N.", ds)
    m = env.int("m", 1)
    X = env.tensor("X", (d, m))
    S = symmetric(env, d)
    s = env.choice("s", [1.0, 0.5])
    operands = [X, S] + c1 + c2
    snap = env.snapshot(*operands)
    ops = {
        "M @ X": lambda: M @ X,
        "M^T @ X": lambda: M.rmatmat(X),
        "M @ N": lambda: M @ N,
        "M @ M": lambda: M @ M,
        "M + N": lambda: M + N,
        "M * s": lambda: M * s,
        "from_inner(X)": lambda: M.from_inner(X),
        "from_inner()": lambda: M.from_inner(),
        "from_mat_inner": lambda: C.from_mat_inner(X),
        "from_inner2": lambda: M.from_inner2(S),
    }
    for name, f in ops.items():
        r = f()
        ts = [r] if isinstance(r, torch.Tensor) else tensors(r)
        env.no_alias(name + ": shares no memory with operands", ts, operands)
    env.unchanged("operands", snap)


# ------------------------------------------------------------------ C10
OPS = ("AVG", "SUM", None)


@scenario(
    "C10",
    params=[dict(cls=k, sync=s, op=o) for k in ALL for s in (True, False) for o in OPS],
    funcs=["<cls>.all_reduce", "<cls>.named_tensors"],
)
def all_reduce(env, cls, sync, op):
    import torch.distributed as dist

    C = CLASSES[cls]
    ds = dims(env, C, "M.", lo=0)
    op = op and getattr(dist.ReduceOp, op)
    group = env.choice("group", [None, "group"])
    with env.world() as w:
        comps = w.components(C, "M.", ds)
        M = construct(C, comps)
        want = view_of(env, C, ds, w.reduced(comps, op)).dense()
        kw = {} if op is None else {"op": op}
        if group is not None:
            kw["group"] = group
        h = M.all_reduce(async_op=True, **kw) if not sync else M.all_reduce(**kw)
        w.finish(h)
        env.eq("dense form is the reduction", M.to_dense(), want)
        n = len(flat(comps))
        env.check("one reduction per component", len(w.calls) == n, f"{len(w.calls)} for {n}")
        env.check(
            "operation, group and mode",
            all(
                c[0] == (dist.ReduceOp.AVG if op is None else op)
                and c[1] is group
                and bool(c[2]) == (not sync)
                for c in w.calls
            ),
        )
        if sync:
            env.check("returns nothing", h is None)
        else:
            env.check("one handle per reduction", isinstance(h, tuple) and len(h) == n)


# ------------------------------------------------------------------ C11
def _shape_ok(env, shape, want):
    return env.all(*[a == b for a, b in zip(shape, want)])


@scenario(
    "C11",
    params=per_class(["block3", "block30", "block2", "block1"]),
    funcs=["BlockDiagonalMatrixTemplate.__init__"],
)
def malformed_block(env, cls):
    C = CLASSES[cls]
    D = C.BLOCK_DIM
    bad = env.choice("malformed", ["rank", "block size", "last rank", "last size"])
    n, last = env.int("n", 0), env.int("last", 0, D - 1)
    bs, ls = (n, D, D), (last, last)
    if bad == "rank":
        bs = env.choice("r", [(n,), (n, D), (n, D, D, D)])
    elif bad == "block size":
        p, q = env.int("p", 0), env.int("q", 0)
        env.assume(env.not_(env.all(p == D, q == D)))
        bs = (n, p, q)
    elif bad == "last rank":
        ls = env.choice("r", [(last,), (last, last, last)])
    else:
        p, q = env.int("p", 0), env.int("q", 0)
        env.assume(env.any(env.not_(p == q), p >= D))
        ls = (p, q)
    b, l = env.tensor("b", bs), env.tensor("l", ls)
    env.raises("rejects " + bad, ValueError, lambda: C(b, l))


@scenario(
    "C11",
    params=per_class(["hier3_2", "hier15_15", "hier1_4", "hier4_0"]),
    funcs=["HierarchicalMatrixTemplate.__init__"],
)
def malformed_hierarchical(env, cls):
    C = CLASSES[cls]
    a, c, e = env.int("K1", 0, C.MAX_K1), env.int("c", 0), env.int("K2", 0, C.MAX_K2)
    sh = {"A": (a, a), "B": (a, c + e), "C": (c,), "D": (e, c), "E": (e, e)}
    bad = env.choice(
        "malformed",
        ["rank", "A size", "E size", "B size", "D size"],
    )
    if bad == "rank":
        k = env.choice("which", list("ABCDE"))
        sh[k] = sh[k] + (1,) if env.choice("more", [True, False]) else sh[k][:-1]
    else:
        p, q = env.int("p", 0), env.int("q", 0)
        k = bad[0]
        want = sh[k]
        if k in "AE":
            lim = C.MAX_K1 if k == "A" else C.MAX_K2
            env.assume(env.any(env.not_(p == q), p > lim))
            if k == "A":
                sh["B"] = (p, c + e)
            else:
                sh["D"] = (p, c)
                sh["B"] = (a, c + p)
        else:
            env.assume(env.not_(_shape_ok(env, (p, q), want)))
        sh[k] = (p, q)
    t = {k: env.tensor(k, v) for k, v in sh.items()}
    env.raises("rejects " + bad, ValueError, lambda: C(*[t[k] for k in "ABCDE"]))


RECURSIVE = [
    "trilbottomright",
    "triltopleft",
    "triubottomright",
    "triutopleft",
    "rec_topright",
    "rec_bottomleft",
    "rec_nested_topright",
    "rec_nested_bottomleft",
]


@scenario(
    "C11",
    params=per_class(RECURSIVE),
    funcs=["RecursiveTopRightMatrixTemplate.__init__", "RecursiveBottomLeftMatrixTemplate.__init__"],
)
def malformed_recursive(env, cls):
    C = CLASSES[cls]
    bad = env.choice("malformed", ["class of A", "class of C", "B size", "too large"])
    a_max, c_max = C.MAX_DIMS
    lo = 1
    a = env.int("a", lo, None if a_max == INF else a_max)
    c = env.int("c", lo, None if c_max == INF else c_max)
    if bad == "too large":
        if a_max == INF:
            c = env.int("c2", c_max + 1)
        else:
            a = env.int("a2", a_max + 1)
    bs = (a, c) if kind(C) == "topright" else (c, a)
    if bad == "B size":
        p, q = env.int("p", 0), env.int("q", 0)
        env.assume(env.not_(_shape_ok(env, (p, q), bs)))
        bs = (p, q)
    CA, CC = C.CLS_A, C.CLS_C
    other = lambda cls: DiagonalMatrix if cls is DenseMatrix else DenseMatrix
    if bad == "class of A":
        CA = other(CA)
    if bad == "class of C":
        CC = other(CC)
    A = construct(CA, components(env, CA, "A.", dims_of(env, CA, a)))
    Cm = construct(CC, components(env, CC, "C.", dims_of(env, CC, c)))
    B = env.tensor("B", bs)
    env.raises("rejects " + bad, ValueError, lambda: C(A, B, Cm))


@scenario("C11", params=per_class(["block3", "block30", "block2", "block1", "hier3_2",
    "hier15_15", "hier1_4", "hier4_0"] + RECURSIVE), funcs=["<cls>.__init__"])
def wellformed_accepted(env, cls):
    C = CLASSES[cls]
    ds = dims(env, C, "M.", lo=0)
    comps = components(env, C, "M.", ds)
    M = env.succeeds("accepts consistent components", lambda: construct(C, comps))
    if M is not None:
        env.eq("and represents them", M.to_dense(), view_of(env, C, ds, comps).dense())
