"""Contracts of the optimizer (C14-C24)."""

import copy

import torch

from contracts import model as M
from contracts.kfac import conv_reference, mean, terms
from contracts.model import Layer, Net, Structures, dense
from vcgen.env import scenario

UPDATE = ["SINGD._update_preconditioner", "SINGD.step", "SINGD._step"]


# ------------------------------------------------------------------ C14
def update_reference(env, st, l, K, C, HK, HC, mK, mC, u, damping, alpha1, like, norm):
    """New momenta of both factors, from the documentation."""
    c = 0.5 * (1.0 - alpha1) if norm else 0.5
    KK = st.project(0, env.mm(env.tr(K), K))
    CC = st.project(1, env.mm(env.tr(C), C))
    IK, IC = env.identity(l.dim_K), env.identity(l.dim_C)
    if like:
        nK = env.lin((c, HK), (c * damping, KK), (-c, IK))
        nC = env.lin((c * u, HC), (c * damping, CC), (-c, IC))
    else:
        nK = env.lin((c * u * env.avgtr(HC), HK), (c * damping * env.avgtr(CC), KK), (-c, IK))
        nC = env.lin((c * u * env.avgtr(HK), HC), (c * damping * env.avgtr(KK), CC), (-c, IC))
    if mK is not None:
        nK = env.lin((1, nK), (alpha1, mK))
        nC = env.lin((1, nC), (alpha1, mC))
    return nK, nC


@scenario(
    "C14",
    params=[
        dict(kind=k, bias=b, like=like, alpha=a, norm=n)
        for k, b in (("linear", True), ("linear", False), ("conv", True), ("conv", False))
        for like in (False, True)
        for a in (True, False)
        for n in (False, True)
        if not (like and a)
    ],
    funcs=UPDATE,
)
def update(env, kind, bias, like, alpha, norm):
    st = Structures(env)
    l = Layer(env, "first", kind, bias)
    other = Layer(env, "second", "linear", False, n=0)
    damping, T = env.real("damping", nonneg=True), env.int("T", 1)
    alpha1 = env.real("alpha1", positive=True) if alpha else 0.0
    rate = env.real("lr_cov", nonneg=True)
    t = M.due_step(env, T)
    seen = []
    scheduled = env.choice("scheduled", [True, False])

    def schedule(k):
        seen.append(k)
        return rate

    net = Net(env, l, other)
    opt = M.optimizer(
        env,
        st,
        net,
        [
            ([other], dict(T=T + 1)),
            (
                [l],
                dict(
                    damping=damping,
                    alpha1=alpha1,
                    T=T,
                    lr_cov=schedule if scheduled else rate,
                    kfac_like=like,
                    normalize_lr_cov=norm,
                    lr=env.real("lr"),
                    momentum=0.0,
                ),
            ),
        ],
    )
    s_prev, s = env.real("s_prev", positive=True), env.real("s", positive=True)
    M.arbitrary_state(env, opt, [l, other], t, s_prev, momentum=False)
    for x in (l, other):
        x.set_grads()
        M.curvature(env, opt, x)
    K, C = dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name])
    HK, HC = dense(env, opt.H_Ks[l.name]), dense(env, opt.H_Cs[l.name])
    mK = mC = None
    if alpha:
        mK, mC = dense(env, opt.m_Ks[l.name]), dense(env, opt.m_Cs[l.name])
    frame = [
        x
        for d in (opt.Ks, opt.Cs, opt.m_Ks, opt.m_Cs)
        if "second" in d
        for x in M.tensors(d["second"])
    ]
    still = t != 0 and bool(t % (T + 1) != 0)
    snap = env.snapshot(*frame)
    with env.quiet():
        opt.set_current_grad_scale(s)
        opt.step()
    u = s_prev / (s * s)
    nK, nC = update_reference(
        env, st, l, K, C, HK, HC, mK, mC, u, damping, alpha1, like, norm
    )
    if alpha:
        env.eq("momentum of K", opt.m_Ks[l.name].to_dense(), nK)
        env.eq("momentum of C", opt.m_Cs[l.name].to_dense(), nC)
    if scheduled:
        env.check("the schedule sees the step", env.all(*[k == t for k in seen]) if seen else False)
    for label, X, X0, n in (("K", opt.Ks, K, nK), ("C", opt.Cs, C, nC)):
        beta = rate / env.max(1.0, env.maxabs(n)) if norm else rate
        env.eq(f"factor {label}", X[l.name].to_dense(), env.lin((1, X0), (-beta, env.mm(X0, n))))
    if still:
        env.unchanged("another layer's factors", snap)


# ------------------------------------------------------------------ C18, C19
def natural_gradient_reference(env, l, G, K, C, s):
    """C C^T (G / s) K K^T, as parameter-shaped tensors."""
    N = env.mm(C, env.tr(C), G, K, env.tr(K))
    N = env.lin((1 / s, N))
    w = N[:, : l.dim_K - 1] if l.bias else N
    out = [w.reshape(tuple(l.mod.weight.shape))]
    if l.bias:
        out.append(N[:, l.dim_K - 1])
    return out


@scenario(
    "C18",
    params=[
        dict(kind=k, bias=b, update=u)
        for k in ("linear", "conv")
        for b in (True, False)
        for u in (False, True)
    ],
    funcs=["SINGD._compute_natural_gradient", "SINGD._step", "SINGD.step"],
)
def natural_gradient(env, kind, bias, update):
    st = Structures(env)
    l = Layer(env, "first", kind, bias)
    T = 1 if update else env.int("T", 2)
    if update:
        t = env.choice("t is", [0, 3])
    else:
        t = M.step_index(env)
        env.assume(t % T != 0)
    lr, s = env.real("lr", nonneg=True), env.real("s", positive=True)
    net = Net(env, l)
    hyper = dict(T=T, lr=lr, momentum=0.0, weight_decay=0.0, alpha1=0.0)
    if update:
        hyper.update(damping=0.0, kfac_like=True, lr_cov=env.real("lr_cov", nonneg=True))
    opt = M.optimizer(env, st, net, [([l], hyper)])
    M.arbitrary_state(env, opt, [l], t, env.real("s_prev", positive=True), momentum=False)
    if update:
        # the direction uses the updated factors
        M.curvature(env, opt, l)
        dt = torch.float32
        opt.H_Ks[l.name] = type(opt.Ks[l.name]).zeros(l.dim_K, dt)
        opt.H_Cs[l.name] = type(opt.Cs[l.name]).zeros(l.dim_C, dt)
        which = env.choice("curvature of", [0, 1])
        M.havoc(env, (opt.H_Ks, opt.H_Cs)[which][l.name], "H")
    l.set_grads()
    G = env.freeze(l.grad_matrix())
    old = [env.freeze(p) for p in l.params]
    snap = env.snapshot(*[p.grad for p in l.params])
    with env.quiet():
        if env.choice("scale by scaler", [True, False]):
            opt.grad_scale = env.scalar(s)
        else:
            opt.set_current_grad_scale(s)
        opt.step()
    ref = natural_gradient_reference(
        env, l, G, dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name]), s
    )
    for k, (p, p0, n) in enumerate(zip(l.params, old, ref)):
        env.eq(f"parameter {k}", p, env.lin((1, p0), (-lr, n)))
        env.dtype(f"parameter {k}:dtype", p, l.dtype)
    env.unchanged("gradient", snap)


HALF = torch.bfloat16
PRECISIONS = [
    (w, k, c)
    for w in (torch.float32, HALF)
    for k in (None, torch.float32, HALF)
    for c in (None, torch.float32, HALF)
]


@scenario(
    "C18",
    params=[dict(precision=p, bias=b) for p in range(len(PRECISIONS)) for b in (True, False)],
    funcs=["SINGD._compute_natural_gradient"],
)
def natural_gradient_precision(env, precision, bias):
    weight, k, c = PRECISIONS[precision]
    st = Structures(env)
    l = Layer(env, "first", "linear", bias, dtype=weight, n=0)
    lr, s = env.real("lr", nonneg=True), env.real("s", positive=True)
    momentum = env.choice("momentum", [0.0, 0.5])
    net = Net(env, l)
    opt = M.optimizer(
        env, st, net, [([l], dict(T=2, lr=lr, momentum=momentum, preconditioner_dtype=(k, c)))]
    )
    M.arbitrary_state(env, opt, [l], 1, env.real("s_prev", positive=True), momentum=False)
    l.set_grads()
    G = env.wide(l.grad_matrix())
    old = [env.wide(p) for p in l.params]
    snap = env.snapshot(*[p.grad for p in l.params])
    with env.quiet():
        opt.set_current_grad_scale(s)
        opt.step()
    env.relax = 2000.0  # concretely: rounded to half precision several times
    ref = natural_gradient_reference(
        env, l, G, dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name]), s
    )
    for j, (p, p0, n) in enumerate(zip(l.params, old, ref)):
        env.eq(f"parameter {j}", p, env.lin((1, p0), (-lr, n)))
        env.dtype(f"parameter {j}:dtype", p, weight)
        if momentum:
            env.dtype(f"momentum {j}:dtype", opt.state[p]["momentum_buffer"], weight)
    for name, d, want in (("K", opt.Ks, k), ("C", opt.Cs, c)):
        for x in M.tensors(d[l.name]):
            env.dtype(f"factor {name}:dtype", x, want or weight)
    env.unchanged("gradient", snap)


@scenario(
    "C19",
    params=[
        dict(bias=b, wd=w, momentum=m, buffer=u)
        for b in (True, False)
        for w in (True, False)
        for m in (True, False)
        for u in (True, False)
        if m or u
    ],
    funcs=["SINGD._step", "SINGD.step"],
)
def parameter_step(env, bias, wd, momentum, buffer):
    st = Structures(env)
    lays = [Layer(env, "first", "linear", bias, n=0), Layer(env, "second", "linear", True, n=0)]
    net = Net(env, *lays)
    opt = M.optimizer(
        env,
        st,
        net,
        [([lays[1]], dict(T=2)), ([lays[0]], dict(T=3, lr=0.25, weight_decay=0.5, momentum=0.75))],
    )
    M.arbitrary_state(env, opt, lays, 1, 1.0, momentum=False)
    hyper, keeps = [], [momentum, momentum]
    for l, g in ((lays[0], 1), (lays[1], 0)):
        h = dict(
            lr=env.real(f"lr.{l.name}"),
            weight_decay=env.real(f"wd.{l.name}", positive=True) if wd else 0.0,
            momentum=env.real(f"mu.{l.name}", positive=True) if momentum else 0.0,
        )
        opt.param_groups[g].update(h)  # takes effect at the next step
        hyper.append(h)
        l.set_grads()
    if env.choice("swapped setting", [True, False]):
        # only one of the groups decays and keeps momentum
        hyper[1].update(weight_decay=0.0, momentum=0.0)
        opt.param_groups[0].update(hyper[1])
        keeps[1] = False
    before = []
    for l in lays:
        for k, p in enumerate(l.params):
            b = None
            if buffer:
                b = env.tensor(f"buf.{l.name}.{k}", tuple(p.shape), p.dtype)
                opt.state[p]["momentum_buffer"] = b
                b = env.freeze(b)
            before.append((env.freeze(p), b))
    factors = [(dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name])) for l in lays]
    grads = [env.freeze(l.grad_matrix()) for l in lays]
    snap = env.snapshot(*[p.grad for l in lays for p in l.params])
    opt.step()
    i = 0
    for l, h, keep, G, (K, C) in zip(lays, hyper, keeps, grads, factors):
        for k, (p, n) in enumerate(
            zip(l.params, natural_gradient_reference(env, l, G, K, C, 1))
        ):
            p0, b0 = before[i]
            i += 1
            step = env.lin((1, n), (h["weight_decay"], p0))
            if keep:
                if b0 is not None:
                    step = env.lin((h["momentum"], b0), (1, step))
                buf = opt.state[p]["momentum_buffer"]
                env.eq(f"momentum of {l.name}.{k}", buf, step, dtype=p.dtype)
                env.no_alias("momentum buffer", [buf], [p.data, p.grad])
            env.eq(f"{l.name}.{k}", p, env.lin((1, p0), (-h["lr"], step)))
    env.unchanged("gradient", snap)


# ------------------------------------------------------------------ C15
@scenario(
    "C15",
    params=[dict(kinds=k, passes=p) for k, p in (("ll", 1), ("ll", 2), ("lc", 2), ("cl", 1))],
    funcs=[
        "SINGD._register_tensor_hook_on_output_to_accumulate_H_terms",
        "SINGD._accumulate_H_terms",
        "SINGD._update_preconditioner",
        "SINGD._install_hooks",
    ],
)
def collection(env, kinds, passes):
    env.share()
    st = Structures(env)
    lays = [
        Layer(env, n, "linear" if k == "l" else "conv", b, n=0)
        for n, k, b in (("first", kinds[0], False), ("second", kinds[1], True))
    ]
    Ts = [env.int("T0", 1), env.int("T1", 1)]
    t = M.step_index(env)
    net = Net(env, *lays)
    opt = M.optimizer(
        env,
        st,
        net,
        [([l], dict(T=T_, alpha1=0.0, kfac_like=True, momentum=0.0)) for l, T_ in zip(lays, Ts)],
    )
    M.arbitrary_state(env, opt, lays, t, 1.0, momentum=False)
    due = [bool(t % T_ == 0) for T_ in Ts]
    if env.choice("evaluation mode", [True, False]):
        for l in lays:
            l.mod.eval()
    B = env.int("B", 1)

    def collected():
        return {l.name: (l.name in opt.H_Ks, l.name in opt.H_Cs) for l in lays}

    def evaluate(k):
        with torch.no_grad():
            for l in lays:
                l.forward(l.input(B, f"xe{k}"), B, f"oute{k}")

    def train(ks):
        """Passes ks: all forward passes, then all backward passes."""
        outs = [[l.forward(l.input(B, f"x{k}"), B, f"out{k}") for l in lays] for k in ks]
        for k, os in zip(ks, outs):
            for l, o in zip(lays, os):
                l.backward(o, l.grad_output(B, f"g{k}"))

    def take():
        r = {}
        for l in lays:
            if l.name in opt.H_Ks:
                r[l.name] = dense(env, opt.H_Ks.pop(l.name)), dense(env, opt.H_Cs.pop(l.name))
        return r

    # without gradients nothing is collected
    evaluate(0)
    env.check("an evaluation pass collects nothing", not opt.H_Ks and not opt.H_Cs)
    # a training forward pass alone does not contribute either
    for l in lays:
        l.forward(l.input(B, "xu"), B, "outu")
    env.check("a forward pass alone collects nothing", not opt.H_Ks and not opt.H_Cs)
    # the contribution of each pass on its own
    single = []
    for k in range(passes):
        train([k])
        for l, d in zip(lays, due):
            env.check("collected iff due", collected()[l.name] == (d, d), f"{collected()} {due}")
        single.append(take())
    # together
    if passes > 1 and env.choice("passes interleave", [True, False]):
        train(range(passes))
    else:
        for k in range(passes):
            train([k])
            evaluate(k + 1)
    for l, d in zip(lays, due):
        env.check("collected iff due", collected()[l.name] == (d, d), f"{collected()} {due}")
        if d:
            for j, H in enumerate((opt.H_Ks, opt.H_Cs)):
                if env.symbolic and l.kind == "conv":
                    continue  # the values are C16's
                env.eq(
                    f"every pass counts once: H{j} of {l.name}",
                    H[l.name].to_dense(),
                    env.lin(*[(1, s[l.name][j]) for s in single]),
                )
    # the step consumes what was collected
    for l in lays:
        l.set_grads()
        if l.name in opt.H_Ks:
            M.havoc(env, opt.H_Ks[l.name], "HK." + l.name)
            M.havoc(env, opt.H_Cs[l.name], "HC." + l.name)
    old = [
        (dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name]))
        for l in lays
    ]
    opt.step()
    env.check("the step clears what was collected", not opt.H_Ks and not opt.H_Cs)
    env.check("the step counts", opt.steps == t + 1)
    for l, d, (K, C) in zip(lays, due, old):
        if not d:
            env.eq(f"K of {l.name} is kept", opt.Ks[l.name].to_dense(), K)
            env.eq(f"C of {l.name} is kept", opt.Cs[l.name].to_dense(), C)
    # the next step is collected according to its own index
    t = t + 1
    due = [bool(t % T_ == 0) for T_ in Ts]
    train([0])
    for l, d in zip(lays, due):
        env.check("next step: collected iff due", collected()[l.name] == (d, d), f"{due}")


# ------------------------------------------------------------------ C16
def input_matrix(env, l, x, approx):
    """Documented processed input of a layer: rows by features (and a constant)."""
    B = x.shape[0]
    if l.kind == "linear":
        N = env.prod((B, *l.ts)) if approx == "expand" else B
        if approx == "expand":
            rows = (B, *l.ts) if l.ts else B
            body = lambda r, j: env.at(x, *(r if isinstance(r, tuple) else (r,)), j)  # noqa: E731
        else:
            rows = B
            body = lambda b, j: mean(env, x, lambda p: (b, *p, j), l.ts) / env.num(l.S)  # noqa: E731
        feats = l.din
    else:
        N, patch, average = conv_reference(env, x, l.geo, approx, l.bias)
        C, k, O = l.geo["C"], l.geo["k"], l.geo["O"]
        rows, feats = ((B, *O) if approx == "expand" else B), (C, *k)
        if approx == "expand":
            body = lambda r, f: patch(*r, *f)  # noqa: E731
        else:
            body = lambda r, f: average(r, *f)  # noqa: E731
    A = env.build((rows, feats), lambda r, f: body(r, f) / env.sqrt(N))
    if l.bias:
        one = env.build((rows, 1), lambda r, j: env.num(1) / env.sqrt(N))
        A = torch.cat([A, one], 1)
    return A


def gradient_matrix(env, l, g, approx, average):
    """Documented processed output gradient."""
    B = g.shape[0]
    scale = env.sqrt(terms(env, average, B, l.S))
    sh = l.ts if l.kind == "linear" else l.geo["O"]
    at = (
        (lambda b, p, j: env.at(g, b, *p, j))
        if l.kind == "linear"
        else (lambda b, p, j: env.at(g, b, j, *p))
    )
    if approx == "expand":
        if not sh:
            return env.build((B, l.dout), lambda b, j: at(b, (), j) * scale)
        return env.build(((B, *sh), l.dout), lambda r, j: at(r[0], r[1:], j) * scale)

    def total(b, j, pos=(), rest=sh):
        if not rest:
            return at(b, pos, j)
        return env.sum(0, rest[0], lambda v: total(b, j, pos + (v,), rest[1:]))

    return env.build((B, l.dout), lambda b, j: total(b, j) * scale)


def curvature_reference(env, st, l, x, g, approx, average, K, C, s_prev):
    A, G = input_matrix(env, l, x, approx), gradient_matrix(env, l, g, approx, average)
    HK = st.project(0, env.mm(env.tr(K), env.tr(A), A, K))
    HC = st.project(1, env.lin((1 / s_prev, env.mm(env.tr(C), env.tr(G), G, C))))
    return HK, HC


@scenario(
    "C16",
    params=[
        dict(kind=k, n=n, bias=b, approx=a, average=v)
        for k, n in (("linear", 0), ("linear", 1), ("linear", 2), ("conv", 0))
        for b in (True, False)
        for a in ("expand", "reduce")
        for v in (None, "batch", "batch+sequence")
    ],
    funcs=["SINGD._accumulate_H_terms", "process_input", "process_grad_output"],
    n_conc=6,
)
def curvature(env, kind, n, bias, approx, average):
    st = Structures(env)
    l = Layer(env, "first", kind, bias, n=n)
    other = Layer(env, "second", "linear", True, n=0)
    T = env.int("T", 1)
    t = M.due_step(env, T)
    net = Net(env, other, l)
    opt = M.optimizer(
        env,
        st,
        net,
        [
            ([other], dict(T=T, kfac_approx="expand", loss_average="batch")),
            ([l], dict(T=T, kfac_approx=approx, loss_average=average)),
        ],
    )
    s_prev = env.real("s_prev", positive=True)
    M.arbitrary_state(env, opt, [l, other], t, s_prev, momentum=False)
    M.curvature(env, opt, other)
    earlier = env.choice("earlier passes", [True, False])
    if earlier:
        M.curvature(env, opt, l)
        HK0, HC0 = dense(env, opt.H_Ks[l.name]), dense(env, opt.H_Cs[l.name])
    K, C = dense(env, opt.Ks[l.name]), dense(env, opt.Cs[l.name])
    B = env.int("B", 1)
    x, g = l.input(B), l.grad_output(B)
    rest = [opt.Ks, opt.Cs, opt.m_Ks, opt.m_Cs]
    snap = env.snapshot(
        *[y for d in rest for m in d.values() for y in M.tensors(m)],
        *[y for d in (opt.H_Ks, opt.H_Cs) for y in M.tensors(d["second"])],
    )
    l.backward(l.forward(x, B), g)
    HK, HC = curvature_reference(env, st, l, x, g, approx, average, K, C, s_prev)
    if earlier:
        HK, HC = env.lin((1, HK0), (1, HK)), env.lin((1, HC0), (1, HC))
    env.eq("collected H_K", opt.H_Ks[l.name].to_dense(), HK, dtype=torch.float32)
    env.eq("collected H_C", opt.H_Cs[l.name].to_dense(), HC, dtype=torch.float32)
    env.unchanged("factors, momenta and other layers", snap)


# ------------------------------------------------------------------ C17, C21: two optimizers
class Run:
    """One of several optimizers on equal networks."""

    def __init__(self, env, st, lays, hyper, **kw):
        self.env, self.lays = env, lays
        self.net = Net(env, *lays)
        self.opt = M.optimizer(
            env, st, self.net, [([l], dict(h)) for l, h in zip(lays, hyper)], **kw
        )

    def arbitrary(self, t, prev_scale, momentum):
        """The state after t steps; the same for all runs (shared names)."""
        M.arbitrary_state(self.env, self.opt, self.lays, t, prev_scale, momentum)
        for l in self.lays:
            for k, p in enumerate(l.params):
                self.env.havoc(p, f"par.{l.name}.{k}")

    def go(self, tag, B, Ts, s, passes=1, external=False, found_inf=None):
        """A step: passes and gradients of a loss that is multiplied by s."""
        env = self.env
        for l, T in zip(self.lays, Ts):
            for j in range(passes):
                x, g = l.input(B, f"x{tag}{j}"), l.grad_output(B, f"g{tag}{j}")
                l.backward(l.forward(x, B, f"out{tag}{j}"), M.scaled(env, g, s))
            l.set_grads("grad" + tag)
            for p in l.params:
                p.grad = M.scaled(env, p.grad, s)
        with env.quiet():
            if found_inf is not None:
                self.opt.found_inf = env.scalar(1.0 if found_inf else 0.0)
            if s is not None and external:
                self.opt.set_current_grad_scale(s)
            elif s is not None:
                self.opt.grad_scale = env.scalar(s)
            self.opt.step()
        for k in ("grad_scale", "found_inf"):  # as the scaler does
            if k in self.opt.__dict__:
                delattr(self.opt, k)

    def values(self):
        """Everything that makes up the trajectory."""
        out = {}
        for l in self.lays:
            for d, n in ((self.opt.Ks, "K"), (self.opt.Cs, "C"), (self.opt.m_Ks, "m_K"), (self.opt.m_Cs, "m_C")):
                if l.name in d:
                    out[f"{n} of {l.name}"] = d[l.name].to_dense()
            for k, p in enumerate(l.params):
                out[f"parameter {l.name}.{k}"] = p
                b = self.opt.state[p].get("momentum_buffer") if p in self.opt.state else None
                if b is not None:
                    out[f"momentum {l.name}.{k}"] = b
        return out


    def frozen(self):
        return self.opt.steps, {k: self.env.freeze(v) for k, v in self.values().items()}


def compare(env, label, run, want):
    steps, want = want
    got = run.values()
    env.check(label + ": same entries", list(got) == list(want), f"{list(got)} {list(want)}")
    for k in want:
        if k in got:
            env.eq(f"{label}: {k}", got[k], want[k])
    env.check(label + ": steps", run.opt.steps == steps)


def cut(env, runs, tag=""):
    """The runs agree: continue from any state in which they do."""
    for r in runs:
        for l in r.lays:
            for attr in ("Ks", "Cs", "m_Ks", "m_Cs"):
                d = getattr(r.opt, attr)
                if l.name in d:
                    M.havoc(env, d[l.name], f"cut{tag}.{attr}.{l.name}")
            for k, p in enumerate(l.params):
                env.havoc(p, f"cut{tag}.par.{l.name}.{k}")
                if "momentum_buffer" in r.opt.state.get(p, {}):
                    env.havoc(r.opt.state[p]["momentum_buffer"], f"cut{tag}.buf.{l.name}.{k}")


@scenario(
    "C17",
    params=[
        dict(like=i, ext=e, t=t, inf=n, passes=1)
        for i in (False, True)
        for e, n in ((True, False), (False, False), (False, True))
        for t in (0, 1, 2)
    ]
    + [dict(like=True, ext=False, t=2, inf=False, passes=2)],
    funcs=[
        "SINGD.step",
        "SINGD._get_grad_scale",
        "SINGD._remove_used_grad_scales",
        "SINGD.set_current_grad_scale",
        "SINGD._accumulate_H_terms",
        "SINGD._update_preconditioner",
        "SINGD._compute_natural_gradient",
    ],
)
def scaling(env, like, ext, t, inf, passes):
    env.share()
    st = Structures(env)
    l = Layer(env, "first", "linear", True, n=0)
    T, alpha1 = env.int("T", 1), 0.0 if like else 0.5
    t = t if t < 2 else env.int("t", 2)
    hyper = [
        dict(
            T=T,
            alpha1=alpha1,
            kfac_like=like,
            lr_cov=0.25,
            damping=0.5,
            lr=0.5,
            momentum=0.5,
            loss_average=None,
        )
    ]
    init = env.real("init scale", positive=True)
    A = Run(env, st, [l], hyper)
    A_ = Run(env, st, [l.twin()], hyper, init_grad_scale=init)
    if t != 0:
        A.arbitrary(t, 1.0, True)
        A_.arbitrary(t, env.real("s_prev", positive=True), True)
    B = env.int("B", 1)
    scales = [env.real("s0", positive=True), env.real("s1", positive=True)]
    for tag, s in zip("ab", scales):
        # the first step may be skipped in both runs
        skip = (tag == "a") if inf else None
        log = []
        with st.cut_at_use(log, False):
            A.go(tag, B, [T], None, passes, found_inf=skip)
        with st.cut_at_use(log, True):
            A_.go(tag, B, [T], s, passes, external=ext, found_inf=skip)
        compare(env, "step " + tag, A_, A.frozen())
        cut(env, (A, A_))


@scenario(
    "C17",
    params=[dict(kind=k, due=d) for k in ("linear", "conv") for d in (True, False)],
    funcs=["SINGD.step"],
)
def skipped(env, kind, due):
    """A step with infinities: nothing changes but the step count, nothing is left over."""
    st = Structures(env)
    l, other = Layer(env, "first", kind, True, n=0), Layer(env, "second", "linear", False, n=0)
    T = env.int("T", 1)
    if due:
        t = M.due_step(env, T)
    else:
        t = M.step_index(env)
        env.assume(t % T != 0)
    like = env.choice("like", [True, False])
    h = dict(T=T, kfac_like=like, alpha1=0.0 if like else 0.5)
    run = Run(env, st, [l, other], [h, dict(h, T=T + 1)])
    run.arbitrary(t, env.real("s_prev", positive=True), True)
    opt, B, s = run.opt, env.int("B", 1), env.real("s", positive=True)
    if due:
        l.backward(l.forward(l.input(B), B), l.grad_output(B))
        if env.choice("overflow in the collected curvature", [True, False]) and not env.symbolic:
            for x in M.tensors(opt.H_Cs[l.name]):
                x.mul_(float("inf"))
    if bool(t % (T + 1) == 0):
        other.backward(other.forward(other.input(B), B), other.grad_output(B))
    for x in (l, other):
        x.set_grads()
    state = run.values()
    snap = env.snapshot(*state.values(), *[p.grad for x in (l, other) for p in x.params])
    keep = {k: env.freeze(v) for k, v in state.items()}
    opt.grad_scale, opt.found_inf = env.scalar(s), env.scalar(1.0)
    with env.quiet():
        opt.step()
    now = run.values()
    env.check("same entries", list(now) == list(keep))
    for k, v in keep.items():
        env.eq(k, now[k], v)
    env.unchanged("in place", snap)
    env.check("collected curvature is dropped", not opt.H_Ks and not opt.H_Cs)
    env.check("the step counts", opt.steps == t + 1)
    # the next step proceeds as usual
    t = t + 1
    opt.found_inf = env.scalar(0.0)
    for x, T_ in ((l, T), (other, T + 1)):
        x.backward(x.forward(x.input(B, "y"), B, "out2"), x.grad_output(B, "g2"))
        d = bool(t % T_ == 0)
        env.check("collected again iff due", (x.name in opt.H_Ks) == d)
        x.set_grads("grad2")
    with env.quiet():
        opt.step()
    env.check("the next step counts", opt.steps == t + 1)


# ------------------------------------------------------------------ C20
@scenario(
    "C20",
    params=[
        dict(kind=k, registered=r, approx=a)
        for k in ("linear", "conv")
        for r in ("both", "weight", "bias", "default")
        for a in ("expand", "reduce")
    ],
    funcs=[
        "SINGD._install_hooks",
        "SINGD._register_tensor_hook_on_output_to_accumulate_H_terms",
        "SINGD._accumulate_H_terms",
        "SINGD.step",
        "SINGD._step",
        "process_input",
        "process_grad_output",
    ],
)
def frame(env, kind, registered, approx):
    st = Structures(env)
    l = Layer(env, "first", kind, True, n=1)
    off = Layer(env, "second", "linear", True, n=0, grad=registered != "default")
    net = Net(env, l, off)
    T = env.int("T", 1)
    h = dict(T=T, kfac_approx=approx, weight_decay=0.5, momentum=0.5)
    chosen = {"both": l.params, "default": l.params, "weight": l.params[:1], "bias": l.params[1:]}[
        registered
    ]
    with env.quiet():
        groups = None
        if registered != "default":
            groups = [dict(h, params=chosen, structures=st.names)]
        opt = st.optimizer()(net, groups, structures=st.names, **h)
    t = M.step_index(env) if env.symbolic else T * env.int("t/T", 0) + env.int("t%T", 0, T - 1)
    M.arbitrary_state(env, opt, [l], t, env.real("s_prev", positive=True), momentum=False)
    B = env.int("B", 1)
    x, g, y = l.input(B), l.grad_output(B), off.input(B)
    for z in (l, off):
        z.set_grads()
    net.other.scale.grad = env.tensor("other.grad", tuple(net.other.scale.shape))
    everything = [x, g, y] + list(net.parameters()) + list(net.buffers())
    grads = [p.grad for p in net.parameters()]
    snap = env.snapshot(*everything, *grads)
    if not env.symbolic:
        ref, ref_off = l.twin(), off.twin()
        for a, b in ((l, ref), (off, ref_off)):
            b.mod.load_state_dict(a.mod.state_dict())
        want, want_off = ref.mod(x), ref_off.mod(y)
    out, out_off = l.forward(x, B), off.forward(y, B)
    env.check("an unregistered layer is not watched", not out_off._hooks if env.symbolic else True)
    if not env.symbolic:
        env.eq("output", out, want)
        env.eq("output of the other layer", out_off, want_off)
        kept = [p.grad for p in l.params]
        for p in l.params:
            p.grad = None
        want.backward(g)
        l.backward(out, g)
        for p, q in zip(l.params, ref.params):
            env.eq("gradient of the loss", p.grad, q.grad)
        for p, k in zip(l.params, kept):
            p.grad = k
        snap += env.snapshot(out_off)
    else:
        snap += env.snapshot(out, out_off)
        l.backward(out, g)
    env.unchanged("by the passes", snap)
    env.check("gradients stay in place", all(a is p.grad for a, p in zip(grads, net.parameters())))
    env.check("only watched layers are collected", set(opt.H_Ks) <= {"first"})
    with env.quiet():
        opt.set_current_grad_scale(env.real("s", positive=True))
        opt.step()
    mine = [id(p) for p in chosen]
    env.unchanged("by the step", [s for s in snap if id(s[0]) not in mine])
    env.check("gradients stay in place", all(a is p.grad for a, p in zip(grads, net.parameters())))
    env.check("state of registered parameters only", all(id(p) in mine for p in opt.state))
    env.check(
        "only the registered parameters are in groups",
        sorted(mine) == sorted(id(p) for gr in opt.param_groups for p in gr["params"]),
    )


# ------------------------------------------------------------------ C21
@scenario(
    "C21",
    params=[
        dict(like=i, momentum=m, when=w)
        for i in (False, True)
        for m in (True, False)
        for w in (0, 1, 2, -1, -2)
    ],
    funcs=["SINGD.state_dict", "SINGD.load_state_dict"],
)
def restore(env, like, momentum, when):
    env.share()
    st = Structures(env)
    T = env.int("T", 1)
    lays = [Layer(env, "first", "linear", True, n=0), Layer(env, "second", "linear", False, n=0)]
    common = dict(momentum=0.5 if momentum else 0.0, lr=0.5, lr_cov=0.25, damping=0.5)
    hyper = [
        dict(common, T=T, alpha1=0.0 if like else 0.5, kfac_like=like),
        dict(common, T=1, alpha1=0.0, kfac_like=True),
    ]
    Ts = [T, 1]
    init = env.real("init", positive=True)
    A, *rest = runs = [
        Run(env, st, [l.twin() for l in lays], hyper, init_grad_scale=init) for _ in range(3)
    ]
    # saved after `when` steps (2: or more), negative: between the passes and the step
    t, B = abs(when), env.int("B", 1)
    if when != 0:
        t = env.int("t", 2) if t == 2 else t
        A.arbitrary(t, env.real("s_prev", positive=True), momentum)
    # settings that were changed after the construction are part of the state
    A.opt.param_groups[0]["lr"] = env.real("lr", nonneg=True)
    scales = [env.real("s0", positive=True), None]
    if when < 0:
        for l, T_ in zip(A.lays, Ts):
            if bool(t % T_ == 0):
                M.curvature(env, A.opt, l)
        if env.choice("scale was set", [True, False]):
            with env.quiet():
                A.opt.set_current_grad_scale(scales[0])
            scales[0] = None
    state = copy.deepcopy(A.opt.state_dict())
    weights = [env.freeze(p) for l in A.lays for p in l.params]
    logs, values = {}, {}
    for r in runs:
        if r is not A:
            with torch.no_grad():
                for p, w in zip([p for l in r.lays for p in l.params], weights):
                    p.copy_(w)
            # the second restore follows steps of the first restored optimizer
            r.opt.load_state_dict(state)
            compare(env, "restored", r, values["start"])
        values.setdefault("start", r.frozen())
        for tag, s in zip("ab", scales):
            log = logs.setdefault(tag, [])
            with st.cut_at_use(log, r is not A):
                r.go(tag, B, Ts, s, passes=0 if when < 0 and tag == "a" else 1)
            compare(env, f"step {tag}", r, values.setdefault(tag, r.frozen()))
            cut(env, [r], tag)



# ------------------------------------------------------------------ C22
RATES = ("lr", "lr_cov", "alpha1", "momentum", "weight_decay")


@scenario(
    "C22",
    params=[dict(rate=r, kind=k) for r in RATES for k in ("real", "int")],
    funcs=["SINGD.__init__"],
)
def negative_rate(env, rate, kind):
    st = Structures(env)
    net = Net(env, Layer(env, "first", "linear", True, n=0))
    make = st.optimizer()
    x = env.real("x", positive=True) if kind == "real" else env.int("x", 1)
    others = {r: env.real(r, nonneg=True) for r in RATES if r != rate and env.choice("set " + r, [0, 1])}
    kw = dict(structures=st.names, warn_unsupported=False, **others)
    env.raises("negative " + rate, ValueError, lambda: make(net, **kw, **{rate: -x}))
    env.succeeds("positive " + rate, lambda: make(net, **kw, **{rate: x}))
    env.succeeds("zero " + rate, lambda: make(net, **kw, **{rate: 0}))


@scenario("C22", params=[dict(group=g) for g in (None, 0, 1)], funcs=["SINGD._check_param_groups"])
def unsupported_setting(env, group):
    st = Structures(env)
    lays = [Layer(env, "first", "linear", True, n=0), Layer(env, "second", "conv", False)]
    net = Net(env, *lays)
    what = env.choice("what", ["loss_average", "kfac_approx"])
    good = {"loss_average": (None, "batch", "batch+sequence"), "kfac_approx": ("expand", "reduce")}
    bad = {
        "loss_average": ("mean", "sum", "", "sequence", "batch+", False, 0),
        "kfac_approx": ("Expand", "", None, "flatten", False, "expand+reduce"),
    }

    def make(v):
        groups = [dict(params=l.params) for l in lays]
        kw = dict(structures=st.names, warn_unsupported=False)
        if group is None:
            kw[what] = v
        else:
            groups[group][what] = v
        return st.optimizer()(net, None if group is None else groups, **kw)

    for v in good[what]:
        env.succeeds(f"{what}={v}", lambda: make(v))
    for v in bad[what]:
        env.raises(f"{what}={v}", ValueError, lambda: make(v))


@scenario("C22", funcs=["SINGD.__init__", "SINGD.step"])
def wrappers_and_closures(env):
    from torch.nn import Sequential
    from torch.nn.parallel import DataParallel, DistributedDataParallel

    st = Structures(env)
    l = Layer(env, "first", "linear", True, n=0)
    net = Net(env, l)
    for cls in (DataParallel, DistributedDataParallel):
        wrapped = cls.__new__(cls)
        torch.nn.Module.__init__(wrapped)
        wrapped.module = net
        env.raises(
            cls.__name__, TypeError, lambda: st.optimizer()(wrapped, structures=st.names)
        )
    opt = M.optimizer(env, st, net, None)
    t = M.step_index(env)
    M.arbitrary_state(env, opt, [l], t, 1.0)
    l.set_grads()
    snap = env.snapshot(*l.params, *M.tensors(opt.Ks[l.name]), *M.tensors(opt.Cs[l.name]))
    called = []
    env.raises("closure", NotImplementedError, lambda: opt.step(lambda: called.append(1)))
    env.raises("closure", NotImplementedError, lambda: opt.step(closure=lambda: called.append(1)))
    env.unchanged("by the refused step", snap)
    env.check("refused steps do not count", opt.steps == t)


@scenario(
    "C22",
    params=[dict(kind=k, case=c) for k in ("linear", "conv") for c in range(6)],
    funcs=["SINGD._check_param_groups"],
)
def split_layer(env, kind, case):
    """The parameters of a layer must be in one group; anything else is accepted."""
    from torch.nn import Module

    st = Structures(env)
    l, o = Layer(env, "first", kind, True), Layer(env, "second", "linear", True, n=0)
    net = Net(env, o, l)
    if env.choice("nested", [True, False]):
        outer = Module()
        outer.block = net
        net = outer
    (w, b), (v, c) = l.params, o.params
    groups, bad = [
        ([[w], [b]], True),
        ([[w, v, c], [b]], True),
        ([[b], [v, c], [w]], True),
        ([[w, b], [v, c]], False),
        ([[b, v, w, c]], False),
        ([[b], [v]], False),
    ][case]
    groups = [dict(params=g) for g in groups]
    make = lambda: st.optimizer()(net, groups, structures=st.names, warn_unsupported=False)  # noqa: E731
    if bad:
        env.raises("split layer", ValueError, make)
    else:
        opt = env.succeeds("layers in one group each", make)
        env.check("groups", [[id(p) for p in g["params"]] for g in opt.param_groups]
                  == [[id(p) for p in g["params"]] for g in groups])


@scenario(
    "C22",
    params=[dict(warn=w, frozen=f) for w in (True, False, None) for f in range(4)],
    funcs=["SINGD._get_trainable_parameters"],
)
def default_selection(env, warn, frozen):
    import warnings

    from torch.nn import Module

    st = Structures(env)
    a, b = Layer(env, "first", "linear", True, n=0), Layer(env, "second", "conv", False)
    c = Layer(env, "third", "linear", True, n=0)
    net, inner = Module(), Module()
    inner.second, inner.other, inner.empty = b.mod, M.Other(env), Module()
    net.first, net.inner, net.last, net.third = a.mod, inner, M.Other(env, "last"), c.mod
    all_of = [a.mod.weight, a.mod.bias, b.mod.weight, c.mod.weight, c.mod.bias]
    fix = [[], [0], [1, 2], [3, 4]][frozen]
    for k in fix:
        all_of[k].requires_grad_(False)
    strange = env.choice("unsupported layers are frozen", [True, False])
    if strange:
        inner.other.scale.requires_grad_(False)
    kw = {} if warn is None else dict(warn_unsupported=warn)
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        opt = st.optimizer()(net, structures=st.names, **kw)
    want = [id(p) for k, p in enumerate(all_of) if k not in fix]
    got = [id(p) for g in opt.param_groups for p in g["params"]]
    env.check("the trainable parameters of supported layers", sorted(got) == sorted(want))
    n = 0 if warn is False else 1 if strange else 2
    env.check("one warning per unsupported layer", len(seen) == n, f"{len(seen)} for {n}")
    text = " ".join(str(w.message) for w in seen)
    if n:
        env.check("it names the layer", "last" in text and (strange or "inner.other" in text), text)


@scenario("C22", params=[dict(group=g) for g in (None, 0, 1)], funcs=["SINGD._check_param_groups"])
def like_without_momentum(env, group):
    """The KFAC-like update has no factor momentum: it is switched off with a warning."""
    import warnings

    st = Structures(env)
    lays = [Layer(env, "first", "linear", True, n=0), Layer(env, "second", "linear", False, n=0)]
    net = Net(env, *lays)
    alpha = env.real("alpha1", nonneg=True)
    groups = [dict(params=l.params, structures=st.names) for l in lays]
    kw = dict(structures=st.names, alpha1=alpha, warn_unsupported=False)
    if group is None:
        groups, kw["kfac_like"] = None, True
    else:
        groups[group]["kfac_like"] = True
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        opt = st.optimizer()(net, groups, **kw)
    for k, g in enumerate(opt.param_groups):
        like = group is None or k == group
        env.eq(f"alpha1 of group {k}", g["alpha1"] * 1.0, 0.0 if like else alpha * 1.0)
    env.check("a warning iff it was switched off", bool(seen) == bool(alpha != 0.0))
    for k, l in enumerate(lays):
        has = bool(alpha != 0.0) and not (group is None or k == group)
        env.check("momenta iff used", ((l.name in opt.m_Ks), (l.name in opt.m_Cs)) == (has, has))


# ------------------------------------------------------------------ C24
@scenario(
    "C24",
    params=[
        dict(kind=k, bias=b, precision=p)
        for k in ("linear", "conv")
        for b in (True, False)
        for p in range(len(PRECISIONS))
    ],
    funcs=["SINGD._initialize_buffers", "SINGD.preconditioner_dims", "SINGD._install_hooks"],
)
def fresh(env, kind, bias, precision):
    weight, k, c = PRECISIONS[precision]
    st = Structures(env)
    dev = env.choice("device", ["cpu", env.device()])
    l = Layer(env, "first", kind, bias, dtype=weight, device=dev)
    o, off = Layer(env, "second", "linear", True, n=0), Layer(env, "third", "linear", True, n=0)
    net = Net(env, off, l, o)
    alpha1 = env.real("alpha1", nonneg=True)
    some = l.params
    if bias:
        some = env.choice("registered", [l.params, l.params[:1], l.params[1:]])
    opt = st.optimizer()(
        net,
        [
            dict(params=o.params, structures=st.names[::-1], alpha1=0.0),
            dict(params=some, preconditioner_dtype=(k, c), structures=st.names),
        ],
        alpha1=alpha1,
    )
    momenta = bool(alpha1 != 0.0)
    for name, d, m, n, cls, want in (
        ("K", opt.Ks, opt.m_Ks, l.dim_K, 0, k),
        ("C", opt.Cs, opt.m_Cs, l.dim_C, 1, c),
    ):
        env.check(f"{name} of the registered layers", set(d) == {"first", "second"}, str(set(d)))
        env.check("momenta iff used", set(m) == ({"first"} if momenta else set()), str(set(m)))
        env.check(f"{name}: structure", type(d["first"]) is st.cls[cls])
        env.check(f"{name}: structure", type(d["second"]) is st.cls[1 - cls])
        env.eq(f"{name} is the identity", d["first"].to_dense(), env.identity(n))
        env.eq(
            f"{name} is the identity",
            d["second"].to_dense(),
            env.identity(o.dim_C if cls else o.dim_K),
        )
        mats = [d["first"]] + ([m["first"]] if momenta else [])
        if momenta:
            env.check(f"momentum of {name}: structure", type(m["first"]) is st.cls[cls])
            env.eq(
                f"momentum of {name} is zero",
                m["first"].to_dense(),
                env.lin((0.0, env.identity(n))),
            )
        for X in mats:
            for x in M.tensors(X):
                env.dtype(f"{name}:dtype", x, want or weight)
                env.on(f"{name}:device", x, dev)
    env.check("nothing is collected", not opt.H_Ks and not opt.H_Cs)
    env.check("no steps", opt.steps == 0)


@scenario(
    "C24",
    params=[dict(kind=k, bias=b) for k in ("linear", "conv") for b in (True, False)],
    funcs=["SINGD._initialize_buffers", "SINGD._compute_natural_gradient"],
)
def fresh_direction(env, kind, bias):
    """The fresh pre-conditioner leaves gradients unchanged."""
    st = Structures(env)
    l = Layer(env, "first", kind, bias)
    net = Net(env, l)
    lr, s = env.real("lr"), env.real("s", positive=True)
    lr = env.max(lr, 0.0)
    opt = M.optimizer(env, st, net, [([l], dict(T=2, lr=lr, momentum=0.0, weight_decay=0.0))])
    opt.steps = 1  # no update of the factors
    l.set_grads()
    old = [env.freeze(p) for p in l.params]
    with env.quiet():
        opt.set_current_grad_scale(s)
        opt.step()
    for j, (p, p0) in enumerate(zip(l.params, old)):
        env.eq(f"parameter {j}", p, env.lin((1, p0), (-lr / s, p.grad)))


# ------------------------------------------------------------------ C23
@scenario(
    "C23",
    params=[
        dict(part=part, kind=k, n=n, bias=b, approx=a, average=v)
        for k, n, b in (("linear", 0, True), ("linear", 1, False), ("linear", 1, True), ("conv", 0, True))
        for a in ("expand", "reduce")
        for v in (None, "batch", "batch+sequence")
        if n != 0 or k == "conv" or (a == "expand" and v != "batch+sequence")
        for part in ("statistics", "replicas")
        if part == "statistics" or (n == 0 and a == "expand" and v != "batch+sequence")
    ],
    funcs=[
        "SINGD._accumulate_H_terms",
        "SINGD._compute_natural_gradient",
        "SINGD._update_preconditioner",
        "SINGD._step",
        "StructuredMatrix.all_reduce",
    ],
)
def distributed(env, part, kind, n, bias, approx, average):
    """Any number of processes with parts of a batch train like one with all of it.

    Symbolically either half of the step: up to the statistics, or from arbitrary ones on.
    """
    import torch.distributed as dist

    env.share()
    st = Structures(env)
    w = env.processes()
    l = Layer(env, "first", kind, bias, n=n)
    first, second = part == "statistics", part == "replicas"
    if not env.symbolic:
        first = second = True
    T = env.int("T", 1)
    t = M.due_step(env, T)
    hyper = dict(
        T=T, kfac_approx=approx, loss_average=average, alpha1=0.0, kfac_like=True,
        lr=0.5, lr_cov=0.25, damping=0.5, momentum=0.5, weight_decay=0.25,
    )  # fmt: skip
    B = env.int("B", 1)
    op = dist.ReduceOp.AVG if average else dist.ReduceOp.SUM
    x, x_of = w.batch("x", l.xshape(B))
    g, g_of = w.batch("g", l.oshape(B))
    grads = [w.each(f"grad{k}", tuple(p.shape), op) for k, p in enumerate(l.params)]
    # the gradient of a joint mean: every process averages over its own part
    joint_g = M.scaled(env, g, 1 / w.size) if average else g
    s_prev, s = 1.0, 1.0
    if second:
        s_prev, s = env.real("s_prev", positive=True), env.real("s", positive=True)
    log, H = [], {}

    unfolded, unfolded_of = None, lambda q: None
    if kind == "conv":
        places = l.geo["O"] if approx == "expand" else ()
        unfolded, unfolded_of = w.batch("unfolded", (B, *places, l.dim_K - bias))

    def process(x, batch, g, grads, rows, check, follow):
        r = Run(env, st, [l.twin()], [hyper])
        k = r.lays[0]
        r.arbitrary(t, s_prev, True)
        if first:
            with M.unfolding(env, k, approx, x, rows):
                k.backward(k.forward(x, batch, "out"), g)
            for name, d in (("H_K", r.opt.H_Ks), ("H_C", r.opt.H_Cs)):
                check(name, d[k.name])
        if not second:
            return r
        if not first:
            M.curvature(env, r.opt, k)
        for p, y in zip(k.params, grads):
            p.grad = y
        with env.quiet(), st.cut_at_use(log, follow):
            r.opt.set_current_grad_scale(s)
            r.opt.step()
        return r

    def record(name, d):
        H[name] = dense(env, d)

    def same(name, d):
        if env.symbolic:
            env.eq(f"statistics {name}", d.to_dense(), H[name])

    alone = w.alone(
        lambda: process(x, (w.size, B), joint_g, [y for y, _ in grads], unfolded, record, False)
    )
    for r in w.run(
        lambda q: process(
            x_of(q), B, g_of(q), [y_of(q) for _, y_of in grads], unfolded_of(q), same, True
        )
    ):
        if second:
            compare(env, "after the step", r, alone.frozen())
