"""Assumed contracts of the non-torch dependencies, installed only while verifying.

Builtins (``range``, ``max``, ``min``, ``sum``), ``math.sqrt``, einops, einconv and
``torch.distributed`` are replaced by versions over symbolic values.  Replacement is by
identity of the object bound in a module of the code under test, however it was imported.
"""

import contextlib
import builtins
import math
import sys
import types
from fractions import Fraction

import torch
import torch.distributed as dist

from vcgen import ctx, ops
from vcgen import tensor as T
from vcgen.ctx import SymInt, SymReal, mkint, mkreal
from vcgen.iexpr import IExpr, IVar, Unsupported, eq, floordiv
from vcgen.term import Sym, TAtom, power, to_term, num, ite, T0, T1

USED = set()


def _sym(*xs):
    return any(isinstance(x, (SymInt, SymReal, T.SymTensor)) for x in xs)


def sym_sqrt(x):
    if isinstance(x, T.SymTensor):
        x = x.item()
    if not _sym(x):
        return math.sqrt(x)
    USED.add("math.sqrt")
    if bool(x < 0):
        raise ValueError("math domain error")
    return mkreal(power(to_term(x), Fraction(1, 2)))


def sym_min(*args, **kw):
    if len(args) == 1:
        args = tuple(args[0])
        if not args:
            if "default" in kw:
                return kw["default"]
            raise ValueError("min() arg is an empty sequence")
    if not _sym(*args) or "key" in kw:
        return builtins.min(args, **kw)
    best = args[0]
    for a in args[1:]:
        if bool(a < best):
            best = a
    return best


def sym_abs(x):
    return abs(x)


# ------------------------------------------------------------------ einops
class EinopsError(RuntimeError):
    pass


def _einops_error():
    try:
        import einops

        return einops.EinopsError
    except Exception:
        return EinopsError


def _parse(side):
    out, grp = [], None
    for tok in side.replace("(", " ( ").replace(")", " ) ").split():
        if tok == "(":
            grp = []
        elif tok == ")":
            out.append(grp)
            grp = None
        elif grp is not None:
            grp.append(tok)
        else:
            out.append([tok] if tok != "1" else [])
            if tok == "...":
                out[-1] = ["..."]
    return out


def _expand_ellipsis(lhs, rhs, nd):
    """Replace the ellipsis by fresh axis names."""
    flat = [a for g in lhs for a in g]
    if "..." not in flat:
        return lhs, rhs
    if ["..."] not in lhs:
        raise Unsupported("ellipsis inside parentheses on the left")
    n = nd - (len(lhs) - 1)
    if n < 0:
        raise _einops_error()("Wrong shape: too few dimensions for the pattern")
    names = [f"_e{k}" for k in range(n)]
    new_l = []
    for g in lhs:
        new_l += [[x] for x in names] if g == ["..."] else [g]
    new_r = []
    for g in rhs:
        if g == ["..."]:
            new_r += [[x] for x in names]
        else:
            h = []
            for a in g:
                h += names if a == "..." else [a]
            new_r.append(h)
    return new_l, new_r


def _einops_split(x, lhs, sizes):
    """Tensor with one dimension per elementary axis of the left-hand side."""
    if T.rank(x) != len(lhs):
        raise _einops_error()(
            f"Wrong shape: expected {len(lhs)} dims. Received {T.rank(x)}-dim tensor."
        )
    shp = ops._shape(x)
    target, names = [], []
    for n, g in zip(shp, lhs):
        if len(g) == 1:
            if g[0] in sizes and not bool(sizes[g[0]] == n):
                raise _einops_error()(f"Size of axis {g[0]} does not match")
            sizes.setdefault(g[0], n)
            target.append(n)
            names.append(g[0])
            continue
        if not g:
            if not bool(n == 1):
                raise _einops_error()("Expected axis of length 1")
            continue
        unknown = [a for a in g if a not in sizes]
        known = 1
        for a in g:
            if a in sizes:
                known = known * sizes[a]
        if len(unknown) > 1:
            raise _einops_error()("Could not infer sizes")
        if unknown:
            atoms = getattr(n, "group", None)
            if bool(known == 0):
                raise _einops_error()("zero-sized axis")
            q = n // known
            if not bool(q * known == n):
                raise _einops_error()(
                    f"Shape mismatch, can't divide axis of length {n} in chunks of {known}"
                )
            sizes[unknown[0]] = q
        else:
            if not bool(known == n):
                raise _einops_error()(f"Shape mismatch, {n} != {known}")
        for a in g:
            target.append(sizes[a])
            names.append(a)
    y = x
    if len(target) != len(shp) or any(len(g) != 1 for g in lhs):
        y = ops._reshape(x, target)
    return y, names


def _groups_shape(y, names, rhs):
    pos = {a: k for k, a in enumerate(names)}
    order = [pos[a] for g in rhs for a in g]
    z = y if order == list(range(len(order))) else ops.permute(y, *order)
    groups, k = [], 0
    for g in rhs:
        atoms = []
        for a in g:
            atoms += z._groups[k]
            k += 1
        groups.append(atoms if atoms else [IExpr.const(1)])
    return z, groups


def sym_rearrange(x, pattern, **sizes):
    if isinstance(x, (list, tuple)):
        x = ops.stack(list(x))
    if not _sym(x, *sizes.values()):
        import einops

        return einops.rearrange(x, pattern, **sizes)
    x = T.as_sym(x)
    USED.add("einops.rearrange")
    lhs, rhs = [_parse(s) for s in pattern.split("->")]
    lhs, rhs = _expand_ellipsis(lhs, rhs, T.rank(x))
    if sorted(a for g in lhs for a in g) != sorted(a for g in rhs for a in g):
        raise _einops_error()("Identifiers only on one side of expression")
    y, names = _einops_split(x, lhs, dict(sizes))
    return _finish(y, names, rhs)


def _finish(y, names, rhs):
    order = {a: k for k, a in enumerate(names)}
    perm = [order[a] for g in rhs for a in g]
    z = y if perm == list(range(len(perm))) else ops.permute(y, *perm)
    if all(len(g) == 1 for g in rhs):
        return z
    shp = ops._shape(z)
    target, k = [], 0
    for g in rhs:
        n = 1
        for _ in g:
            n = n * shp[k]
            k += 1
        target.append(n)
    return ops._reshape(z, _with_groups(z, rhs, target))


def _with_groups(z, rhs, target):
    out, k = [], 0
    for g, n in zip(rhs, target):
        atoms = []
        for _ in g:
            atoms += [s for s in z._groups[k]]
            k += 1
        if isinstance(n, SymInt) and len(atoms) > 1:
            n = SymInt(n.iexpr)
            n.group = tuple(atoms)
        out.append(n)
    return out


def sym_reduce(x, pattern, reduction, **sizes):
    if not _sym(x, *sizes.values()):
        import einops

        return einops.reduce(x, pattern, reduction, **sizes)
    x = T.as_sym(x)
    USED.add("einops.reduce")
    if reduction not in ("sum", "mean"):
        raise Unsupported(f"einops.reduce with {reduction!r}")
    lhs, rhs = [_parse(s) for s in pattern.split("->")]
    lhs, rhs = _expand_ellipsis(lhs, rhs, T.rank(x))
    y, names = _einops_split(x, lhs, dict(sizes))
    keep = [a for g in rhs for a in g]
    drop = [k for k, a in enumerate(names) if a not in keep]
    if drop:
        y = ops.sum_(y, tuple(drop)) if reduction == "sum" else ops.mean(y, tuple(drop))
    names = [a for a in names if a in keep]
    return _finish(y, names, rhs)


def sym_einops_einsum(*args):
    *tensors, pattern = args
    if not _sym(*tensors):
        import einops

        return einops.einsum(*args)
    USED.add("einops.einsum")
    l, r = pattern.split("->")
    letters = {}

    def tr(side):
        out = ""
        for a in side.split():
            if a == "...":
                out += "..."
                continue
            if a not in letters:
                letters[a] = chr(ord("a") + len(letters))
            out += letters[a]
        return out

    eqn = ",".join(tr(s) for s in l.split(",")) + "->" + tr(r)
    return ops.einsum(eqn, *tensors)


# ------------------------------------------------------------------ einconv
def sym_get_conv_paddings(kernel_size, stride, padding, dilation):
    USED.add("einconv.utils.get_conv_paddings")
    if isinstance(padding, str):
        if padding == "valid":
            return 0, 0
        if padding == "same":
            if not bool(stride == 1):
                raise ValueError("padding='same' is not supported for strided convolutions.")
            total = dilation * (kernel_size - 1)
            left = total // 2
            return left, total - left
        raise ValueError(f"Unknown string-value for padding: {padding!r}.")
    return padding, padding


def sym_index_pattern(
    input_size, kernel_size, stride=1, padding=0, dilation=1, device=torch.device("cpu"), dtype=torch.bool
):
    USED.add("einconv.index_pattern")
    pl, pr = sym_get_conv_paddings(kernel_size, stride, padding, dilation)
    span = input_size + pl + pr - dilation * (kernel_size - 1) - 1
    out = ops.conv_out(IExpr.of(span), IExpr.of(stride))
    out = mkint(out)
    if not bool(out >= 1):
        raise RuntimeError("Kernel size can't be greater than actual input size")
    s, d, p = IExpr.of(stride), IExpr.of(dilation), IExpr.of(pl)

    def fn(i):
        k, o, x = i
        c = eq(x, s * o + d * k - p)
        if dtype == torch.bool:
            return c
        return ite(c, T1, T0)

    return T.new(
        [[IExpr.of(kernel_size)], [IExpr.of(out)], [IExpr.of(input_size)]], fn, dtype, device
    )


# ------------------------------------------------------------------ distributed
class World:
    """The process group the code under test sees."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.size = None
        self.rank = None
        self.calls = []

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        self.calls.append((tensor, op, group, async_op))
        if not self.active:
            raise ValueError("Default process group has not been initialized")
        f = T.fnof(tensor)
        R, r = IExpr.of(self.size), next(iter(self.rank.vars()))
        from vcgen.term import tsum

        if op not in (dist.ReduceOp.SUM, dist.ReduceOp.AVG):
            raise Unsupported("reduction other than SUM and AVG")
        if not ops.is_dense(tensor):
            raise ValueError("Tensors must be contiguous")

        def g(i):
            v = IVar("rank")
            t = tsum(v, IExpr.const(0), R, f(i).subst({r: IExpr.var(v)}))
            return t / to_term(mkint(R)) if op == dist.ReduceOp.AVG else t

        if not async_op:
            with torch.no_grad():
                T.write(tensor, g)
            return None
        # until the reduction was waited for, the content is unspecified
        junk = Sym("in_flight")
        with torch.no_grad():
            T.write(tensor, lambda i: TAtom(junk, tuple(i)))
        return Handle(tensor, g)


class Handle:
    def __init__(self, t, g):
        self.t, self.g, self.done = t, g, False

    def wait(self, timeout=None):
        if not self.done:
            self.done = True
            with torch.no_grad():
                T.write(self.t, self.g)
        return True

    def is_completed(self):
        raise Unsupported("polling an asynchronous reduction")

    def result(self):
        return [self.t]


WORLD = World()


def _is_initialized():
    USED.add("torch.distributed.is_initialized")
    return WORLD.active


def _all_reduce(tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
    USED.add("torch.distributed.all_reduce")
    return WORLD.all_reduce(tensor, op, group, async_op)


def _forbidden(name):
    def f(*a, **k):
        raise Unsupported(f"torch.distributed.{name}")

    return f


def _get_world_size(group=None):
    USED.add("torch.distributed.get_world_size")
    if not WORLD.active:
        raise ValueError("Default process group has not been initialized")
    return mkint(IExpr.of(WORLD.size))


# ------------------------------------------------------------------ installation
def _table():
    tab = {
        id(math.sqrt): sym_sqrt,
    }
    try:
        import einops

        tab[id(einops.rearrange)] = sym_rearrange
        tab[id(einops.reduce)] = sym_reduce
        tab[id(einops.einsum)] = sym_einops_einsum
    except ImportError:
        pass
    try:
        import einconv
        import einconv.utils

        tab[id(einconv.index_pattern)] = sym_index_pattern
        tab[id(einconv.utils.get_conv_paddings)] = sym_get_conv_paddings
    except ImportError:
        pass
    return tab


class _Proxy(types.ModuleType):
    def __init__(self, mod, tab):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__["_tab"] = tab

    def __getattr__(self, k):
        v = getattr(self._mod, k)
        return self._tab.get(id(v), v)


EXTRA = []  # further modules to install the contracts in (checks/selftest.py)


def _builtins():
    return {
        "range": T.sym_range,
        "enumerate": T.sym_enumerate,
        "zip": T.sym_zip,
        "max": ops.sym_max,
        "min": sym_min,
    }


@contextlib.contextmanager
def applied():
    """Install the assumed contracts in all modules of the package under test."""
    tab = _table()
    saved = []
    missing = object()
    import einops
    import einconv

    modtab = {id(math): math, id(einops): einops, id(einconv): einconv}
    mods = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "singd" or name.startswith("singd.")):
            continue
        mods.append(mod)
    for mod in mods + EXTRA:
        d = mod.__dict__
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            if id(v) in tab:
                saved.append((d, k, v))
                d[k] = tab[id(v)]
            elif isinstance(v, types.ModuleType) and id(v) in modtab:
                saved.append((d, k, v))
                d[k] = _Proxy(v, tab)
        for k, v in _builtins().items():
            if k not in d:
                saved.append((d, k, missing))
                d[k] = v
    dsaved = {}
    for k, v in {
        "is_initialized": _is_initialized,
        "is_available": lambda: True,
        "all_reduce": _all_reduce,
        "get_world_size": _get_world_size,
        "get_rank": _forbidden("get_rank"),
        "broadcast": _forbidden("broadcast"),
        "reduce": _forbidden("reduce"),
        "all_gather": _forbidden("all_gather"),
    }.items():
        dsaved[k] = getattr(dist, k)
        setattr(dist, k, v)
    WORLD.reset()
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is missing:
                d.pop(k, None)
            else:
                d[k] = v
        for k, v in dsaved.items():
            setattr(dist, k, v)
        WORLD.reset()
