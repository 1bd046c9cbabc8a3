"""Networks, optimizers and their arbitrary states, for both interpretations.

Symbolically the structured matrices are replaced by ``AbsMat``, the contract of the
``StructuredMatrix`` interface as it is discharged for every real class by C01-C11: a dense
matrix together with an arbitrary linear projection onto the structure.  Concretely the real
registered structures are used, with the reference projection of ``structs``.
"""

import contextlib
import copy
import warnings

import torch
from torch.nn import Module

from contracts import layers, structs
from singd.optim.optimizer import SINGD
from singd.structures.base import StructuredMatrix
from vcgen.iexpr import Unsupported


# ------------------------------------------------------------------ abstract matrices
def abstract(env, tag):
    from vcgen import tensor as T
    from vcgen.term import Sym, TAtom

    projections = {}

    def projection(S):
        n = T.sizes(S)[0]
        key = repr(n)
        if key not in projections:
            projections[key] = Sym(f"P_{tag}{len(projections)}")
        s = projections[key]
        return T.new([[n]] * 4, lambda i: TAtom(s, i), S._dtype, S._device)

    class AbsMat(StructuredMatrix):
        watch = None  # called with a matrix that is about to be multiplied onto a tensor

        def __init__(self, mat):
            super().__init__()
            self.register_tensor(mat, "_mat")

        @classmethod
        def from_dense(cls, sym_mat):
            return cls(torch.einsum("ijpq,pq->ij", projection(sym_mat), sym_mat))

        def to_dense(self):
            return self._mat.clone()

        def __matmul__(self, other):
            if isinstance(other, torch.Tensor):
                self.look()
                return self._mat @ other
            return type(self)(self._mat @ other._mat)

        def __mul__(self, other):
            return type(self)(self._mat * other)

        def __add__(self, other):
            return type(self)(self._mat + other._mat)

        def look(self):
            if AbsMat.watch is not None:
                AbsMat.watch(self)

        def rmatmat(self, mat):
            self.look()
            return self._mat.T @ mat

        def from_inner(self, X=None):
            S = self._mat.T if X is None else self._mat.T @ X
            return self.from_dense(S @ S.T)

        @classmethod
        def from_mat_inner(cls, X):
            return cls.from_dense(X @ X.T)

        def from_inner2(self, XXT):
            return self.from_dense(self._mat.T @ XXT @ self._mat)

        def average_trace(self):
            return self._mat.diag().mean()

        def diag_add_(self, value):
            self._mat.add_(torch.eye(self._mat.shape[0], dtype=self._mat.dtype), alpha=value)
            return self

        def frobenius_norm(self):
            return (self._mat**2).sum().sqrt()

        @classmethod
        def zeros(cls, dim, dtype=None, device=None):
            return cls(torch.zeros(dim, dim, dtype=dtype, device=device))

        @classmethod
        def eye(cls, dim, dtype=None, device=None):
            return cls(torch.eye(dim, dtype=dtype, device=device))

    AbsMat.__name__ = "Abs" + tag
    return AbsMat


class Structures:
    """Makes the structure names ``sK`` and ``sC`` available to the optimizer."""

    def __init__(self, env):
        self.env = env
        if env.symbolic:
            self.cls = (abstract(env, "K"), abstract(env, "C"))
            self.names = ("absK", "absC")
        else:
            self.names = (
                env.choice("structure K", structs.REGISTERED),
                env.choice("structure C", structs.REGISTERED),
            )
            self.cls = tuple(structs.CLASSES[n] for n in self.names)
            alias = {"block30": "block30diagonal", "hier15_15": "hierarchical15_15"}
            self.names = tuple(alias.get(n, n) for n in self.names)

    @contextlib.contextmanager
    def cut_at_use(self, log, follow):
        """Replace factors by arbitrary ones as soon as they pre-condition a gradient.

        The leading run records their values, the following run must reproduce them: both
        continue with the same arbitrary factors.
        """
        env = self.env
        if not env.symbolic:
            yield
            return
        done, order = {}, []

        def watch(cls):
            def see(M):
                if id(M) in done:
                    return
                done[id(M)] = M
                k = len(order)
                order.append(M)
                v = dense(env, M)
                if follow:
                    if k >= len(log):
                        raise Unsupported("the runs use different factors")
                    env.eq(f"factor {k} before its use", v, log[k])
                else:
                    log.append(v)
                env.havoc(M._mat, f"use{k}.{id(log)}")

            return see

        for c in self.cls:
            c.watch = staticmethod(watch(c))
        try:
            yield
        finally:
            for c in self.cls:
                c.watch = None

    def optimizer(self):
        if not self.env.symbolic:
            return SINGD
        names, cls = self.names, self.cls

        class Bound(SINGD):
            SUPPORTED_STRUCTURES = dict(SINGD.SUPPORTED_STRUCTURES, **dict(zip(names, cls)))

        return Bound

    def project(self, which, S):
        """Dense form of the projection of the dense symmetric matrix S."""
        env, cls = self.env, self.cls[which]
        if env.symbolic:
            return cls.from_dense(S)._mat
        n = S.shape[0]
        ds = structs.dims_of(env, cls, n)
        S = S.detach().double()
        return structs.project(env, cls, ds, lambda i, j: S[i, j].item()).dense()


def scaled(env, x, s):
    if s is None:
        return x
    with torch.no_grad():
        return x * s


def dense(env, M):
    return env.wide(M.to_dense())


def tensors(M):
    """All tensors of a structured matrix, substructures included."""
    return [t for _, t in M.named_tensors()]


def havoc(env, M, name):
    for k, t in enumerate(tensors(M)):
        env.havoc(t, f"{name}.{k}")


def fresh(env, M, name):
    """An arbitrary matrix like M."""
    n = M.to_dense().shape[0]
    t = tensors(M)[0]
    N = type(M).zeros(n, dtype=t.dtype, device=t.device)
    havoc(env, N, name)
    return N


# ------------------------------------------------------------------ networks
class Layer:
    """A layer together with its sizes and its data of one pass."""

    def __init__(self, env, name, kind, bias, dtype=torch.float32, device="cpu", n=1, grad=True):
        self.env, self.name, self.kind, self.bias, self.dtype = env, name, kind, bias, dtype
        self.device, self.grad = device, grad
        if kind == "linear":
            self.din, self.dout = env.int(name + ".din", 1), env.int(name + ".dout", 1)
            self.ts = tuple(env.int(f"{name}.t{i}", 1) for i in range(n))
            self.dim_K, self.S = self.din, env.prod(self.ts)
        else:
            self.geo = geo = layers.geometry(env, name + ".", "int" if kind == "conv" else kind)
            self.dout = geo["out"]
            self.dim_K, self.S = geo["C"] * geo["k"][0] * geo["k"][1], geo["O"][0] * geo["O"][1]
        self.dim_K = self.dim_K + 1 if bias else self.dim_K
        self.dim_C = self.dout
        self.make()

    def make(self):
        a = (self.bias, self.dtype, self.device, self.grad)
        if self.kind == "linear":
            self.mod = layers.linear(self.env, self.name, self.din, self.dout, *a)
        else:
            self.mod = layers.conv(self.env, self.name, self.geo, *a)

    def twin(self):
        """Another layer of the same name, sizes, settings and (shared) values."""
        l = copy.copy(self)
        l.make()
        return l

    def xshape(self, B):
        if self.kind == "linear":
            return (B, *self.ts, self.din)
        return (B, (self.geo["g"], self.geo["C"]), *self.geo["I"])

    def oshape(self, B):
        if self.kind == "linear":
            return (B, *self.ts, self.dout)
        return (B, self.dout, *self.geo["O"])

    @property
    def params(self):
        return [self.mod.weight] + ([self.mod.bias] if self.bias else [])

    def input(self, B, name="x"):
        return self.env.tensor(f"{self.name}.{name}", self.xshape(B), self.dtype)

    def forward(self, x, B, name="out"):
        """Run the layer, hooks included; its result is arbitrary symbolically."""
        if not self.env.symbolic:
            return self.mod(x)
        grad = torch.is_grad_enabled()
        out = self.env.tensor(f"{self.name}.{name}", self.oshape(B), self.dtype, grad=grad)
        self.mod.forward = lambda *_: out
        try:
            r = self.mod(x)
        finally:
            del self.mod.forward
        self.env.check("the layer's output is passed on", r is out)
        return r

    def grad_output(self, B, name="g"):
        return self.env.tensor(f"{self.name}.{name}", self.oshape(B), self.dtype)

    def backward(self, out, g):
        """Send the gradient g of the loss w.r.t. the output through the tensor hooks."""
        if not self.env.symbolic:
            # hooks may keep the tensor that is passed on
            out.backward(g, retain_graph=True)
            return
        with torch.no_grad():
            for h in list(out._hooks):
                r = h(g)
                if r is not None and r is not g:
                    self.env.eq("the gradient is passed on", r, g)

    def set_grads(self, name="grad"):
        """Arbitrary gradients, independent of the pass."""
        for k, p in enumerate(self.params):
            p.grad = None
            p.grad = self.env.tensor(f"{self.name}.{name}{k}", tuple(p.shape), p.dtype)

    def grad_matrix(self):
        """Gradient in matrix form, the one of the bias as last column."""
        G = self.mod.weight.grad.flatten(1)
        if self.bias:
            G = torch.cat([G, self.mod.bias.grad.unsqueeze(1)], 1)
        return self.env.freeze(G)


@contextlib.contextmanager
def unfolding(env, l, approx, x, body):
    """Replace ``process_input`` by its contract C12 while a convolution is verified.

    ``body`` are the unfolded inputs, a function of the example only: examples x places x
    features, or examples x features if they are averaged over places.
    """
    import singd.optim.optimizer as mod
    from singd.optim.utils import process_input as real

    if not env.symbolic or l.kind == "linear" or getattr(mod, "process_input", None) is not real:
        yield
        return

    def contract(inp, module, kfac_approx):
        env.eq("the input is unfolded", inp, x)
        env.check("the layer itself is unfolded", module is l.mod)
        env.check("the chosen approximation", kfac_approx == approx)
        rows = body.flatten(0, -2)
        if l.bias:
            rows = torch.cat([rows, rows.new_ones(rows.shape[0], 1)], 1)
        return rows / rows.shape[0] ** 0.5

    mod.process_input = contract
    try:
        yield
    finally:
        mod.process_input = real


class Other(Module):
    """A module the optimizer does not support."""

    def __init__(self, env, name="other"):
        super().__init__()
        n = env.int(name + ".n", 1)
        self.scale = env.tensor(name + ".scale", (n,), param=True, grad=True)
        self.register_buffer("stat", env.tensor(name + ".stat", (n,)))


class Net(Module):
    def __init__(self, env, *ls):
        super().__init__()
        for l in ls:
            setattr(self, l.name, l.mod)
        self.other = Other(env)


def step_index(env, name="t"):
    """Any number of steps already taken."""
    k = env.choice(name + " is", [0, 1, 2])
    return k if k < 2 else env.int(name, 2)


def due_step(env, T, name="t"):
    """Any step at which a period of T updates."""
    if env.symbolic or name in env.hints:
        t = step_index(env, name)
        env.assume(t % T == 0)
        return t
    return T * env.int(name + "/T", 0)


def optimizer(env, st, model, groups, **kw):
    """The real optimizer; groups is None or a list of (layers, hyper-parameters)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        params = None
        if groups is not None:
            params = [
                dict(params=[p for l in ls for p in l.params], structures=st.names, **h)
                for ls, h in groups
            ]
        return st.optimizer()(model, params, structures=st.names, warn_unsupported=False, **kw)


def arbitrary_state(env, opt, lays, t, prev_scale=None, momentum=True):
    """Put the optimizer into an arbitrary state after t steps."""
    opt.steps = t
    if prev_scale is not None:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt.steps = t - 1
            opt.set_current_grad_scale(prev_scale)
            opt.steps = t
    for l in lays:
        for attr in ("Ks", "Cs", "m_Ks", "m_Cs"):
            d = getattr(opt, attr)
            if l.name in d:
                havoc(env, d[l.name], f"{attr}.{l.name}")
        if momentum:
            for k, p in enumerate(l.params):
                opt.state[p]["momentum_buffer"] = env.tensor(
                    f"buf.{l.name}.{k}", tuple(p.shape), p.dtype
                )


def curvature(env, opt, l, name="H"):
    """Arbitrary collected curvature of a layer."""
    opt.H_Ks[l.name] = fresh(env, opt.Ks[l.name], f"{name}_K.{l.name}")
    opt.H_Cs[l.name] = fresh(env, opt.Cs[l.name], f"{name}_C.{l.name}")
