"""Assumed contracts of torch functions on symbolic tensors (exact real arithmetic)."""

import itertools
import numbers
from fractions import Fraction

import torch
from torch.overrides import TorchFunctionMode, resolve_name

from vcgen import ctx, tensor as T
from vcgen.ctx import SymBool, SymInt, SymReal, mkint, mkreal, path
from vcgen.iexpr import (
    FALSE,
    ONE,
    TRUE,
    ZERO,
    IExpr,
    IVar,
    Unsupported,
    bsubst,
    bvars_of,
    conj,
    disj,
    divexact,
    eq,
    eq0,
    floordiv,
    ge0,
    le,
    lt,
    mod,
    neg,
)
from vcgen.tensor import (
    SymSize,
    SymTensor,
    as_sym,
    broadcast,
    check_devices,
    clone,
    fnof,
    is_int,
    is_bool,
    natoms,
    new,
    numfn,
    prod_e,
    rank,
    refine,
    regroup,
    result_dtype,
    same_size,
    shape,
    sizes,
    term0,
    view,
    write,
)
from vcgen.term import (
    TAdd,
    TInt,
    TMul,
    TNum,
    T0,
    T1,
    TAtom,
    TFn,
    TMax,
    Term,
    add,
    expand,
    ite,
    merge,
    mul,
    num,
    power,
    sum_over,
    tint,
    to_term,
    tsum,
)

TABLE = {}


def op(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f

    return deco


_names = {}


def _name_of(func):
    n = _names.get(func)
    if n is None:
        r = resolve_name(func)
        if r is None:
            r = getattr(func, "__name__", str(func))
            slf = getattr(func, "__self__", None)
            if r in ("__get__", "__set__", "__delete__") and hasattr(slf, "__name__"):
                r = f"torch.Tensor.{slf.__name__}.{r}"
        parts = r.split(".")
        if parts[-1] in ("__get__", "__set__", "__delete__"):
            n = parts[-2] + "." + parts[-1]
        else:
            n = parts[-1]
        _names[func] = n
    return n


FACTORIES = {
    "zeros",
    "ones",
    "eye",
    "arange",
    "tril_indices",
    "triu_indices",
    "empty",
    "full",
    "linspace",
    "randn",
    "rand",
}
PASS = {"is_grad_enabled", "get_default_dtype", "set_grad_enabled", "_set_grad_enabled"}


def _has_sym(x):
    if isinstance(x, (SymTensor, SymInt, SymReal)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    if isinstance(x, dict):
        return any(_has_sym(y) for y in x.values())
    return False


CALLS = set()
TRACE = [None]  # see validate.py


def dispatch(func, args, kwargs):
    name = _name_of(func)
    if ctx.CUR[0] is None:
        with torch._C.DisableTorchFunction():
            return func(*args, **kwargs)
    sym = _has_sym(args) or _has_sym(kwargs)
    if not sym and name not in FACTORIES:
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)
    f = TABLE.get(name)
    if f is None:
        raise Unsupported(f"torch operation {name}")
    CALLS.add(name)
    with torch._C.DisableTorchFunction():
        if TRACE[0] is not None:
            return TRACE[0].call(name, func, args, kwargs, f)
        return f(*args, **kwargs)


class Mode(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})


# ------------------------------------------------------------------ helpers
def _dev(d, like=None):
    if d is None:
        return like._device if like is not None else torch.device("cpu")
    return d if isinstance(d, torch.device) else torch.device(d)


def _shape_args(a):
    if len(a) == 1 and isinstance(a[0], (tuple, list)):
        return list(a[0])
    return list(a)


def _groups_of(sizes_):
    out = []
    for s in sizes_:
        g = getattr(s, "group", None)
        if g is not None and prod_e(g) == IExpr.of(s):
            out.append(list(g))
        else:
            e = IExpr.of(s)
            if not isinstance(s, SymInt) and s < 0:
                raise RuntimeError(f"Trying to create tensor with negative dimension {s}")
            if isinstance(s, SymInt) and not path().known(ge0(e)):
                if path().decide(ge0(-e - 1)):
                    raise RuntimeError(f"Trying to create tensor with negative dimension {s}")
            out.append([e])
    return out


def _isdtype(x):
    return isinstance(x, torch.dtype)


def _float_dtype(d):
    return d if d is not None else torch.get_default_dtype()


def _real_out(dtype):
    """Result dtype of operations that produce floats from ints."""
    return dtype if dtype.is_floating_point else torch.get_default_dtype()


def _dim(t, d):
    n = rank(t)
    if isinstance(d, SymInt):
        raise Unsupported("symbolic dimension number")
    if not -max(n, 1) <= d < max(n, 1):
        raise IndexError(f"Dimension out of range (got {d} for {n} dimensions)")
    return d % max(n, 1)


def _spans(groups):
    out, pos = [], 0
    for g in groups:
        out.append((pos, pos + len(g)))
        pos += len(g)
    return out


def coarsen(t, d):
    """View of t whose dimension d is a single index (read only if it was merged)."""
    g = t._groups[d]
    if len(g) == 1:
        return t
    (a, b) = _spans(t._groups)[d]
    groups = [list(x) for x in t._groups]
    groups[d] = [prod_e(g)]

    def rd(i):
        f = i[a]
        parts = []
        for s in reversed(g[1:]):
            q = floordiv(f, s) if s.const_value() is None or s.const_value() > 0 else ZERO
            parts.append(f - q * s)
            f = q
        parts.append(f)
        return tuple(i[:a]) + tuple(reversed(parts)) + tuple(i[a + 1 :])

    for s in g[1:]:
        if not path().known(le(1, s)) and path().decide(eq(s, 0)):
            # no elements: any index map will do
            groups[d] = [ZERO]
            n = len(g)
            return view(t, groups, lambda i: tuple(i[:a]) + (ZERO,) * n + tuple(i[a + 1 :]), None)
    return view(t, groups, rd, None, ambiguous=True)


def _simplify_factor1(groups):
    return [[s for s in g if s.const_value() != 1] or [ONE] for g in groups]


# ------------------------------------------------------------------ factories
def _mk_shape(args, size=None):
    s = _shape_args(args) if args else []
    if size is not None:
        s = list(size) if isinstance(size, (tuple, list)) else [size]
    return s


@op("zeros")
def zeros(*a, size=None, dtype=None, device=None, requires_grad=False, out=None, layout=None, pin_memory=None):
    dtype = _float_dtype(dtype)
    z = IExpr.const(0) if dtype in T.INT_DTYPES else T0
    return new(_groups_of(_mk_shape(a, size)), lambda i: z, dtype, _dev(device), contig=True)


@op("ones")
def ones(*a, size=None, dtype=None, device=None, requires_grad=False, layout=None):
    dtype = _float_dtype(dtype)
    z = IExpr.const(1) if dtype in T.INT_DTYPES else T1
    return new(_groups_of(_mk_shape(a, size)), lambda i: z, dtype, _dev(device), contig=True)


@op("full")
def full(size, fill_value, *, dtype=None, device=None, requires_grad=False):
    if dtype is None:
        dtype = torch.get_default_dtype() if isinstance(fill_value, float) else torch.int64
    v = IExpr.of(fill_value) if dtype in T.INT_DTYPES else to_term(fill_value)
    return new(_groups_of(list(size)), lambda i: v, dtype, _dev(device), contig=True)


@op("empty")
def empty(*a, size=None, dtype=None, device=None, **k):
    dtype = _float_dtype(dtype)
    groups = _groups_of(_mk_shape(a, size))
    from vcgen.term import Sym

    s = Sym(f"uninitialised{next(T._ids)}")
    if dtype in T.INT_DTYPES:
        raise Unsupported("uninitialised integer tensor")
    return new(groups, lambda i: TAtom(s, i), dtype, _dev(device), contig=True)


@op("eye")
def eye(n, m=None, *, dtype=None, device=None, requires_grad=False, layout=None):
    dtype = _float_dtype(dtype)
    m = n if m is None else m
    return new(
        _groups_of([n, m]), lambda i: ite(eq(i[0], i[1]), T1, T0), dtype, _dev(device), contig=True
    )


@op("arange")
def arange(*a, start=None, end=None, step=1, dtype=None, device=None, requires_grad=False):
    if len(a) == 1:
        start_, end_ = 0, a[0]
    elif len(a) >= 2:
        start_, end_ = a[0], a[1]
        if len(a) == 3:
            step = a[2]
    else:
        start_, end_ = start or 0, end
    if end is not None:
        end_ = end
        start_ = a[0] if a else (start or 0)
    for x in (start_, end_, step):
        if isinstance(x, float):
            raise Unsupported("arange with float arguments")
    if isinstance(step, SymInt) or step == 0:
        raise Unsupported("arange with symbolic step")
    s, e = IExpr.of(start_), IExpr.of(end_)
    if step in (1, -1):
        n = (e - s) * step
    else:
        n = floordiv((e - s) * (1 if step > 0 else -1) + (abs(step) - 1), IExpr.const(abs(step)))
    if path().decide(ge0(-n - 1)):
        raise RuntimeError("upper bound and lower bound inconsistent with step sign")
    if dtype is None:
        dtype = torch.int64
    if dtype in T.INT_DTYPES:
        fn = lambda i: s + i[0] * step
    else:
        fn = lambda i: tint(s + i[0] * step)
    return new([[n]], fn, dtype, _dev(device), contig=True)


def _tri_indices(low):
    def f(row, col, offset=0, *, dtype=None, device=None, **k):
        r, c, o = IExpr.of(row), IExpr.of(col), IExpr.of(offset)
        if not (path().known(eq(r, c)) and o == ZERO):
            raise Unsupported("triangle indices of a non-square matrix or with offset")
        # number of entries: symbolic stand-in of r*(r+1)/2
        half = floordiv(r * (r + 1), IExpr.const(2))
        guard = (lambda i: le(i[1], i[0])) if low else (lambda i: le(i[0], i[1]))
        out = []
        key = object()
        for which in (0, 1):
            t = new([[r, c]], (lambda i, w=which: i[w]), torch.int64, _dev(device), contig=True)
            t._guard = (key, guard, half)
            out.append(t)
        return GuardPair(out)

    return f


class GuardPair(tuple):
    """Result of tril_indices / triu_indices: two guarded index vectors."""

    def unbind(self, dim=0):
        return tuple(self)


TABLE["tril_indices"] = _tri_indices(True)
TABLE["triu_indices"] = _tri_indices(False)


def _like(t, r):
    return row_major(r) if t._contig is True else r


@op("zeros_like")
def zeros_like(t, dtype=None, device=None, memory_format=None, requires_grad=False, layout=None):
    dtype = dtype or t._dtype
    z = IExpr.const(0) if dtype in T.INT_DTYPES else T0
    return _like(t, new(t._groups, lambda i: z, dtype, _dev(device, t)))


@op("ones_like")
def ones_like(t, dtype=None, device=None, memory_format=None, requires_grad=False, layout=None):
    dtype = dtype or t._dtype
    z = IExpr.const(1) if dtype in T.INT_DTYPES else T1
    return _like(t, new(t._groups, lambda i: z, dtype, _dev(device, t)))


@op("full_like")
def full_like(t, v, dtype=None, device=None, **k):
    v = to_term(v)
    return _like(t, new(t._groups, lambda i: v, dtype or t._dtype, _dev(device, t)))


@op("new_zeros")
def new_zeros(t, *a, size=None, dtype=None, device=None, **k):
    return zeros(*a, size=size, dtype=dtype or t._dtype, device=_dev(device, t))


@op("new_ones")
def new_ones(t, *a, size=None, dtype=None, device=None, **k):
    return ones(*a, size=size, dtype=dtype or t._dtype, device=_dev(device, t))


@op("new_full")
def new_full(t, size, v, dtype=None, device=None, **k):
    return full(size, v, dtype=dtype or t._dtype, device=_dev(device, t))


@op("new_empty")
def new_empty(t, *a, dtype=None, device=None, **k):
    return empty(*(a or [shape(t)]), dtype=dtype or t._dtype, device=_dev(device, t))


@op("empty_like")
def empty_like(t, dtype=None, device=None, **k):
    r = empty(shape(t), dtype=dtype or t._dtype, device=_dev(device, t))
    if t._contig is not True:
        r._contig, r._strides = "unknown", None
    return r


@op("tensor", "as_tensor")
def tensor_(x, dtype=None, device=None, **k):
    if isinstance(x, SymTensor):
        return x if dtype is None and device is None else to(x, device or x._device, dtype or x._dtype)
    if isinstance(x, SymReal):
        t = x.term
        return new([], lambda i: t, dtype or torch.get_default_dtype(), _dev(device))
    if isinstance(x, SymInt):
        e = x.iexpr
        if dtype is None or dtype in T.INT_DTYPES:
            return new([], lambda i: e, dtype or torch.int64, _dev(device))
        return new([], lambda i: tint(e), dtype, _dev(device))
    raise Unsupported("tensor() of nested symbolic data")


# ------------------------------------------------------------------ attributes
@op("shape.__get__")
def shape_(t):
    return _shape(t)


def _shape(t):
    if getattr(t, "_guard", None):
        return SymSize((mkint(t._guard[2]),))
    return shape(t)


@op("size")
def size(t, dim=None):
    s = _shape(t)
    return s if dim is None else s[dim]


@op("dim", "ndimension", "ndim.__get__")
def dim(t):
    return rank(t)


@op("numel", "nelement")
def numel(t):
    return _shape(t).numel()


@op("dtype.__get__")
def dtype_(t):
    return t._dtype


@op("device.__get__")
def device_(t):
    return t._device


@op("layout.__get__")
def layout_(t):
    return torch.strided


@op("is_floating_point")
def is_fp(t):
    return t._dtype.is_floating_point


@op("is_complex")
def is_complex(t):
    return t._dtype.is_complex


@op("is_cuda.__get__")
def is_cuda(t):
    return t._device.type == "cuda"


@op("is_sparse.__get__", "is_quantized.__get__", "is_meta.__get__", "is_nested.__get__", "is_mkldnn.__get__")
def is_false(t):
    return False


@op("requires_grad.__get__")
def req(t):
    return t._req


@op("requires_grad.__set__")
def req_set(t, v):
    t._req = bool(v)


@op("requires_grad_")
def req_(t, v=True):
    t._req = bool(v)
    return t


@op("is_leaf.__get__")
def is_leaf(t):
    return getattr(t, "_leaf", True)


@op("retains_grad.__get__")
def retains(t):
    return False


@op("grad.__get__")
def grad(t):
    return t._grad


@op("grad.__set__")
def grad_set(t, v):
    t._grad = v


@op("grad.__delete__")
def grad_del(t):
    t._grad = None


@op("grad_fn.__get__")
def grad_fn(t):
    return None


@op("data_ptr")
def data_ptr(t):
    return t._st.ptr


@op("__hash__")
def hash_(t):
    return id(t)


@op("_version.__get__")
def version(t):
    return t._st.version


@op("register_hook")
def register_hook(t, f):
    if not t._req:
        raise RuntimeError("cannot register a hook on a tensor that doesn't require gradient")
    t._hooks.append(f)

    class H:
        def remove(self_):
            if f in t._hooks:
                t._hooks.remove(f)

    return H()


@op("data.__get__", "detach")
def data(t):
    r = view(t, t._groups, lambda i: i, lambda i: (TRUE, i), strides=t._strides, contig=t._contig)
    r._amb = t._amb
    r._req = False
    r._inj = t._inj
    r._cid = getattr(t, "_cid", t._id)
    if hasattr(t, "_guard"):
        r._guard = t._guard
    return r


@op("data.__set__")
def data_set(t, v):
    t._st, t._rd, t._wr, t._view = v._st, v._rd, v._wr, v._view
    t._groups, t._contig, t._strides, t._amb = v._groups, v._contig, v._strides, v._amb
    t._dtype, t._device, t._inj = v._dtype, v._device, v._inj
    t._cid = getattr(v, "_cid", v._id)


@op("__len__")
def len_(t):
    n = _shape(t)
    if not n:
        raise TypeError("len() of a 0-d tensor")
    return n[0]


@op("__bool__")
def bool_(t):
    if is_bool(t):
        b = fnof(t)(tuple(ZERO for _ in range(natoms(t))))
        return path().decide(b)
    return not path().decide_real("eq", term0(t))


@op("item")
def item(t):
    if is_int(t):
        return mkint(fnof(t)(tuple(ZERO for _ in range(natoms(t)))))
    if is_bool(t):
        return bool_(t)
    return mkreal(term0(t))


@op("__float__")
def float_(t):
    return item(t)


@op("__int__", "__index__")
def int_(t):
    if is_int(t):
        return item(t)
    raise Unsupported("int() of a tensor")


@op("tolist")
def tolist(t):
    n = rank(t)
    if n == 0:
        return item(t)
    s = sizes(t)[0].const_value()
    if s is None:
        raise Unsupported("tolist of a symbolic size")
    return [tolist(getitem(t, k)) for k in range(s)]


@op("__iter__", "unbind")
def iter_(t, dim=0):
    n = sizes(t)[_dim(t, dim)]
    s = n.const_value()
    if s is None:
        return iter(T.SymRange(ZERO, n, lambda i: select(t, dim, i)))
    r = [select(t, dim, k) for k in range(s)]
    return iter(r)


TABLE["unbind"] = lambda t, dim=0: (
    tuple(iter_(t, dim))
    if sizes(t)[_dim(t, dim)].const_value() is not None
    else T.SymRange(ZERO, sizes(t)[_dim(t, dim)], lambda i: select(t, dim, i))
)


def _is_contig(t):
    if t._contig in (True, False):
        return t._contig
    if t._strides is None:
        return path().decide_opaque(("contiguous", getattr(t, "_cid", t._id)))
    atoms = [s for g in t._groups for s in g]
    exp = ONE
    p = path()
    for s in atoms:
        if p.decide(eq(s, 0)):
            return True
    for s, st in zip(reversed(atoms), reversed(t._strides)):
        if s.const_value() == 1:
            continue
        if st == exp:
            exp = exp * s
            continue
        if p.decide(eq(s, 1)):
            continue
        if not p.decide(eq(st, exp)):
            return False
        exp = exp * s
    return True


def is_dense(t):
    """Whether the elements of t are all the elements of a gap-free piece of memory."""
    if t._contig is True:
        return True
    st = t._st
    if not getattr(st, "gappy", False) and t._inj:
        if not t._view:
            return True
        if t._wr is not None:
            p = path()
            idx = tuple(IExpr.var(IVar("m")) for _ in st.sizes)
            inside = [c for i, n in zip(idx, st.sizes) for c in (le(ZERO, i), lt(i, n))]
            cond = t._wr(idx)[0]
            if cond == TRUE or p.known(disj([neg(c) for c in inside] + [cond])):
                return True
    return _is_contig(t)


@op("is_contiguous")
def is_contiguous(t, memory_format=None):
    return _is_contig(t)


@op("contiguous")
def contiguous(t, memory_format=None):
    if _is_contig(t):
        return t
    r = clone(t)
    r._contig, r._strides = True, T._row_major([s for g in r._groups for s in g])
    return r


@op("clone")
def clone_(t, memory_format=None):
    r = clone(t)
    return r


# ------------------------------------------------------------------ views
@op("T.__get__", "t", "mT.__get__")
def transpose_T(t):
    n = rank(t)
    if n < 2:
        return data_keep(t)
    if n > 2:
        raise Unsupported(".T of a higher-dimensional tensor")
    return permute(t, (1, 0))


def data_keep(t):
    r = data(t)
    r._req = t._req
    return r


@op("transpose", "swapaxes", "swapdims")
def transpose(t, d0, d1):
    n = rank(t)
    p = list(range(n))
    a, b = _dim(t, d0), _dim(t, d1)
    p[a], p[b] = p[b], p[a]
    return permute(t, p)


@op("permute")
def permute(t, *p):
    p = [_dim(t, d) for d in _shape_args(p)]
    if sorted(p) != list(range(rank(t))):
        raise RuntimeError("permute(): invalid permutation")
    sp = _spans(t._groups)
    groups = [list(t._groups[d]) for d in p]
    order = [k for d in p for k in range(*sp[d])]
    inv = [order.index(k) for k in range(len(order))]
    st = None if t._strides is None else [t._strides[k] for k in order]
    if p == list(range(rank(t))):
        return data_keep(t)
    return view(
        t,
        groups,
        lambda i: tuple(i[inv[k]] for k in range(len(inv))),
        lambda s: (TRUE, tuple(s[k] for k in order)),
        strides=st,
    )


@op("unsqueeze")
def unsqueeze(t, dim):
    n = rank(t)
    if not -n - 1 <= dim <= n:
        raise IndexError(f"Dimension out of range (got {dim} for {n} dimensions)")
    d = dim if dim >= 0 else dim + n + 1
    sp = _spans(t._groups)
    pos = sp[d][0] if d < n else natoms(t)
    groups = [list(g) for g in t._groups]
    groups.insert(d, [ONE])
    st = None if t._strides is None else t._strides[:pos] + [ONE] + t._strides[pos:]
    return view(
        t,
        groups,
        lambda i: tuple(i[:pos]) + tuple(i[pos + 1 :]),
        lambda s: (TRUE, tuple(s[:pos]) + (ZERO,) + tuple(s[pos:])),
        strides=st,
        contig=t._contig if t._contig is True else None,
    )


@op("squeeze")
def squeeze(t, dim=None):
    dims = range(rank(t)) if dim is None else [_dim(t, d) for d in (dim if isinstance(dim, (tuple, list)) else [dim])]
    drop = [d for d in dims if path().decide(eq(sizes(t)[d], 1))]
    r = t
    for d in sorted(drop, reverse=True):
        r = select(r, d, 0)
    return r if drop else data_keep(t)


@op("narrow")
def narrow(t, dim, start, length):
    d = _dim(t, dim)
    n = sizes(t)[d]
    if isinstance(start, SymTensor):
        start = item(start)
    s, l = IExpr.of(start), IExpr.of(length)
    p = path()
    if p.decide(ge0(-s - 1)):
        s = s + n
    if p.decide(ge0(-s - 1)) or p.decide(lt(n, s)):
        raise IndexError(f"start out of range ({s} for dimension size {n})")
    if p.decide(ge0(-l - 1)) or p.decide(lt(n, s + l)):
        raise RuntimeError(f"start ({s}) + length ({l}) exceeds dimension size ({n}).")
    return _narrow(t, d, s, l)


def _narrow(t, d, s, l, step=1):
    n = sizes(t)[d]
    if s == ZERO and (l == n or path().known(eq(l, n))) and step == 1:
        return data_keep(t)
    t = coarsen(t, d)
    a, _ = _spans(t._groups)[d]
    groups = [list(g) for g in t._groups]
    groups[d] = [l]

    def rd(i):
        return tuple(i[:a]) + (i[a] * step + s,) + tuple(i[a + 1 :])

    def wr(b):
        if step == 1:
            k = b[a] - s
            return (
                conj([le(ZERO, k), lt(k, l)]),
                tuple(b[:a]) + (k,) + tuple(b[a + 1 :]),
            )
        k = floordiv(b[a] - s, IExpr.const(step))
        return (
            conj([eq(k * step + s, b[a]), le(ZERO, k), lt(k, l)]),
            tuple(b[:a]) + (k,) + tuple(b[a + 1 :]),
        )

    st = None
    if t._strides is not None:
        st = list(t._strides)
        st[a] = st[a] * step
    return view(t, groups, rd, wr, strides=st)


@op("select")
def select(t, dim, index):
    d = _dim(t, dim)
    if rank(t) == 0:
        raise IndexError("select on a 0-d tensor")
    n = sizes(t)[d]
    if isinstance(index, SymTensor):
        index = item(index)
    e = IExpr.of(index)
    p = path()
    if p.decide(ge0(-e - 1)):
        e = e + n
    if p.decide(ge0(-e - 1)) or p.decide(le(n, e)):
        raise IndexError(f"index {index} is out of bounds for dimension {d} with size {n}")
    t = coarsen(t, d)
    a, _ = _spans(t._groups)[d]
    groups = [list(g) for k, g in enumerate(t._groups) if k != d]
    st = None if t._strides is None else t._strides[:a] + t._strides[a + 1 :]
    return view(
        t,
        groups,
        lambda i: tuple(i[:a]) + (e,) + tuple(i[a:]),
        lambda b: (eq(b[a], e), tuple(b[:a]) + tuple(b[a + 1 :])),
        strides=st,
    )


def _slice_bounds(n, sl):
    p = path()
    step = 1 if sl.step is None else sl.step
    if isinstance(step, SymInt):
        raise Unsupported("symbolic slice step")
    if step <= 0:
        raise ValueError("step must be greater than zero")

    def norm(x, default):
        if x is None:
            return default
        if isinstance(x, SymTensor):
            x = item(x)
        e = IExpr.of(x)
        if p.decide(ge0(-e - 1)):
            e = e + n
            if p.decide(ge0(-e - 1)):
                return ZERO
            return e
        if e == n:
            return e
        if p.decide(lt(n, e)):
            return n
        return e

    s, e = norm(sl.start, ZERO), norm(sl.stop, n)
    if p.decide(lt(e, s)):
        l = ZERO
    else:
        l = e - s
    if step != 1:
        l = floordiv(l + (step - 1), IExpr.const(step))
    return s, l, step


def _norm_key(t, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(
        torch.tensor(k) if isinstance(k, list) and not any(isinstance(x, (slice, SymInt)) for x in k) else k
        for k in key
    )
    nspec = 0
    for k in key:
        if isinstance(k, torch.Tensor) and (is_bool(k) if isinstance(k, SymTensor) else k.dtype == torch.bool):
            raise Unsupported("boolean mask index")
        if k is not None and k is not Ellipsis and not isinstance(k, bool):
            nspec += 1
    n = rank(t)
    if nspec > n:
        raise IndexError("too many indices for tensor")
    if any(k is Ellipsis for k in key):
        pos = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key = key[:pos] + (slice(None),) * (n - nspec) + key[pos + 1 :]
    else:
        key = key + (slice(None),) * (n - nspec)
    return key


def _basic(t, key):
    """Apply the basic part of an index; returns (view, list of (dim, index tensor))."""
    r, d, adv = t, 0, []
    for k in key:
        if k is None:
            r = unsqueeze(r, d)
            d += 1
        elif isinstance(k, slice):
            s, l, step = _slice_bounds(sizes(r)[d], k)
            r = _narrow(r, d, s, l, step)
            d += 1
        elif isinstance(k, torch.Tensor):
            k = as_sym(k)
            if rank(k) == 0:
                r = select(r, d, item(k))
            else:
                adv.append((d, k))
                d += 1
        elif isinstance(k, int) and not isinstance(k, bool):
            r = select(r, d, k)
        else:
            raise Unsupported(f"index of type {type(k)}")
    return r, adv


def _adv_plan(r, adv):
    """Geometry of an advanced index: result groups and index map."""
    for d, k in adv:
        r = coarsen(r, d)
    guard = None
    gs = [getattr(k, "_guard", None) for _, k in adv]
    if any(g is not None for g in gs):
        keys = {g[0] for g in gs if g is not None}
        if len(keys) > 1 or any(g is None for g in gs):
            raise Unsupported("mixed triangle index vectors")
        guard = gs[0]
    for _, k in adv:
        if not is_int(k):
            raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        if k._device.type != "cpu" and k._device != r._device:
            raise RuntimeError(
                f"indices should be either on cpu or on the same device as the indexed tensor ({r._device})"
            )
    bg, maps = broadcast(*[k._groups for _, k in adv])
    fns = [fnof(k) for _, k in adv]
    dims = [d for d, _ in adv]
    contiguous_ = dims == list(range(dims[0], dims[0] + len(dims)))
    pos = dims[0] if contiguous_ else 0
    rest = [d for d in range(rank(r)) if d not in dims]
    sp = _spans(r._groups)
    before = [d for d in rest if d < pos] if contiguous_ else []
    after = [d for d in rest if d not in before]
    groups = [list(r._groups[d]) for d in before] + [list(g) for g in bg] + [list(r._groups[d]) for d in after]
    nb = sum(len(r._groups[d]) for d in before)
    na = sum(len(g) for g in bg)
    sz = sizes(r)
    # bounds
    vs = [IExpr.var(IVar("q")) for _ in range(na)]
    atoms = [s for g in bg for s in g]
    rng = [le(ZERO, v) for v in vs] + [lt(v, s) for v, s in zip(vs, atoms)]
    if guard is not None:
        rng.append(guard[1](vs))
    off = []
    pr = ctx.Prover(path())
    for (d, k), m, f in zip(adv, maps, fns):
        e = f(m(tuple(vs)))
        if pr._unsat(rng + [disj([ge0(-e - 1), le(sz[d], e)])]):
            off.append(ZERO)
        elif pr._unsat(rng + [disj([ge0(e), lt(e, -sz[d])])]):
            off.append(sz[d])
        else:
            raise Unsupported("advanced index may be out of bounds")

    def index(i):
        mid = tuple(i[nb : nb + na])
        b, a = i[:nb], i[nb + na :]
        val = {}
        pb = 0
        for d in before:
            w = len(r._groups[d])
            val[d] = tuple(b[pb : pb + w])
            pb += w
        pa = 0
        for d in after:
            w = len(r._groups[d])
            val[d] = tuple(a[pa : pa + w])
            pa += w
        for (d, k), m, f, o in zip(adv, maps, fns, off):
            val[d] = (f(m(mid)) + o,)
        return tuple(x for d in range(rank(r)) for x in val[d])

    def inverse(bidx):
        qs = [IVar("q") for _ in range(na)]
        mid = tuple(IExpr.var(q) for q in qs)
        eqs = []
        for (d, k), m, f, o in zip(adv, maps, fns, off):
            eqs.append(f(m(mid)) + o - bidx[sp[d][0]])
        conds = [le(ZERO, v) for v in mid] + [lt(v, s) for v, s in zip(mid, atoms)]
        if guard is not None:
            conds.append(guard[1](mid))
        # size-one index dimensions
        for v, s in zip(qs, atoms):
            if s.const_value() == 1:
                eqs.append(IExpr.var(v))
        res = ctx._solve(qs, eqs, conds, [])
        if res is None:
            return FALSE, None
        left, c, _, mp = res
        if left:
            raise Unsupported("advanced assignment is not invertible")
        midv = tuple(mp[q] for q in qs)
        parts = []
        for d in before:
            parts.extend(bidx[sp[d][0] : sp[d][1]])
        parts.extend(midv)
        for d in after:
            parts.extend(bidx[sp[d][0] : sp[d][1]])
        return c, tuple(parts)

    return r, groups, index, inverse, guard


@op("__getitem__")
def getitem(t, key):
    if getattr(t, "_guard", None):
        raise Unsupported("indexing a triangle index vector")
    if isinstance(key, GuardPair):
        key = tuple(key)
    key = _norm_key(t, key)
    r, adv = _basic(t, key)
    if not adv:
        return r if r is not t else data_keep(t)
    r, groups, index, _, guard = _adv_plan(r, adv)
    f = fnof(r)
    out = new(groups, lambda i: f(index(i)), r._dtype, r._device)
    if guard is not None:
        out._guard = guard
    return out


@op("__setitem__")
def setitem(t, key, value):
    if isinstance(key, GuardPair):
        key = tuple(key)
    key = _norm_key(t, key)
    r, adv = _basic(t, key)
    if adv:
        r2, groups, index, inverse, guard = _adv_plan(r, adv)
        if r2._amb:
            raise Unsupported("assignment through a flattened view")
        vf = _value_fn(groups, value, r._dtype, r._device, guard)
        base = view(r2, groups, index, inverse)
        base._inj = True
        if guard is not None:
            base._guard = guard
        write(base, vf)
    else:
        vf = _value_fn(r._groups, value, r._dtype, r._device, None)
        write(r, vf)


def _value_fn(groups, value, dtype, device, guard):
    if isinstance(value, torch.Tensor):
        v = as_sym(value)
        vg = getattr(v, "_guard", None)
        if (vg is None) != (guard is None) and rank(v) > 0:
            raise Unsupported("triangle index vector mixed with plain one")
        if vg is not None and vg[0] is not guard[0]:
            raise Unsupported("different triangle index vectors")
        if v._device != device and rank(v) > 0:
            pass  # copies across devices are allowed in assignments
        while rank(v) > len(groups) and path().known(eq(sizes(v)[0], 1)):
            v = select(v, 0, 0)
        if rank(v) > len(groups):
            raise RuntimeError("shape mismatch in assignment")
        m = _expand_map(v, groups)
        f = fnof(v)
        if is_int(v) and dtype not in T.INT_DTYPES:
            return lambda i: tint(f(m(i)))
        if not is_int(v) and dtype in T.INT_DTYPES:
            raise Unsupported("float value assigned to an integer tensor")
        return lambda i: f(m(i))
    if dtype in T.INT_DTYPES:
        e = IExpr.of(value)
        return lambda i: e
    tt = to_term(value)
    return lambda i: tt


def _expand_map(v, groups):
    """Index map from the larger shape ``groups`` to v (v broadcast to groups)."""
    bg, (m1, m2) = broadcast(groups, v._groups)
    if len(bg) != len(groups):
        raise RuntimeError("shape mismatch: value cannot be broadcast")
    for a, b in zip(bg, groups):
        if prod_e(a) != prod_e(b) and not path().known(eq(prod_e(a), prod_e(b))):
            raise RuntimeError(
                f"shape mismatch: value tensor cannot be broadcast to indexing result ({a} vs {b})"
            )
    spa, spb = _spans(bg), _spans(groups)

    # i indexes ``groups``; m2 expects indices of bg, whose groups may be finer
    def m(i):
        out = ()
        for d in range(len(groups)):
            gi = tuple(i[spb[d][0] : spb[d][1]])
            if len(bg[d]) == len(groups[d]):
                out += gi
            elif len(groups[d]) == 1:
                f = gi[0]
                parts = []
                for s in reversed(bg[d]):
                    q = floordiv(f, s)
                    parts.append(f - q * s)
                    f = q
                out += tuple(reversed(parts))
            else:
                raise Unsupported("incompatible index groupings")
        return m2(out)

    return m


# -- reshaping
def _reshape_groups(t, target):
    try:
        return _factorise(t, target)
    except Unsupported:
        atoms = [s for g in t._groups for s in g]
        if not path().known(eq(prod_e(atoms), 0)):
            raise
        # no elements: any index map will do
        n = len(atoms)
        es = [IExpr.of(s) for s in target]
        return (
            [[e] for e in es],
            lambda i: tuple(ZERO for _ in range(n)),
            lambda b: (FALSE, tuple(ZERO for _ in es)),
            [],
        )


def _factorise(t, target):
    """New groups for t's elements under logical sizes ``target`` and the index map."""
    atoms = [s for g in t._groups for s in g]
    total = prod_e(atoms)
    target = list(target)
    neg1 = [k for k, s in enumerate(target) if not isinstance(s, SymInt) and s == -1]
    if len(neg1) > 1:
        raise RuntimeError("only one dimension can be inferred")
    es = [None if k in neg1 else IExpr.of(s) for k, s in enumerate(target)]
    if neg1:
        known = prod_e([e for e in es if e is not None])
        if known.const_value() == 0 or path().decide(eq(known, 0)):
            raise RuntimeError("cannot reshape tensor of 0 elements: unspecified dimension is ambiguous")
        q = divexact(total, known)
        if q is None:
            q = floordiv(total, known)
            if not path().decide(eq(q * known, total)):
                raise RuntimeError("shape is invalid for input size")
        es[neg1[0]] = q
    tot2 = prod_e(es)
    if tot2 != total and not path().decide(eq(tot2, total)):
        raise RuntimeError(f"shape {es} is invalid for input of size {total}")
    # greedy factorisation
    src = [(k, s) for k, s in enumerate(atoms) if s.const_value() != 1]
    srcpos = 0
    # pieces: new atomic dims in order; each source atom becomes a list of pieces
    pieces_of = {k: [] for k in range(len(atoms))}
    newgroups = []
    cur = None  # (atom id, remaining size)
    queue = list(src)
    newatoms = []
    for pos, e in enumerate(es):
        g = []
        need = e
        while need.const_value() != 1:
            if not queue:
                raise Unsupported(f"reshape of {atoms} to {es} cannot be factorised")
            k, s = queue[0]
            if s == need or (
                divexact(s, need) is None
                and divexact(need, s) is None
                and path().known(eq(s, need))
            ):
                newatoms.append(s)
                pieces_of[k].append((len(newatoms) - 1, s))
                g.append(s)
                need = ONE
                queue.pop(0)
                continue
            q = divexact(need, s)
            if q is not None and not (q.const_value() == 0):
                newatoms.append(s)
                pieces_of[k].append((len(newatoms) - 1, s))
                g.append(s)
                need = q
                queue.pop(0)
                continue
            q = divexact(s, need)
            if q is not None and need.const_value() != 0:
                newatoms.append(need)
                pieces_of[k].append((len(newatoms) - 1, need))
                g.append(need)
                queue[0] = (k, q)
                need = ONE
                continue
            # the path may know that it is the product of the next sizes
            p = need
            for e2 in es[pos + 1 :]:
                p = p * e2
                if p != s and path().known(eq(s, p)):
                    queue[0] = (k, p)
                    break
            else:
                raise Unsupported(f"reshape of {atoms} to {es} cannot be factorised")
        if not g:
            newatoms.append(ONE)
            g = [ONE]
        newgroups.append(g)
    for k, s in queue:
        if not path().known(eq(s, 1)):
            raise Unsupported("reshape leaves elements")

    def rd(i):
        out = []
        for k in range(len(atoms)):
            e = ZERO
            for pos, s in pieces_of[k]:
                e = e * s + i[pos]
            out.append(e)
        return tuple(out)

    splits = any(len(p) > 1 for p in pieces_of.values())

    def wr(b):
        if splits:
            out = [ZERO] * len(newatoms)
            conds = []
            for k, ps in pieces_of.items():
                f = b[k]
                for pos, s in reversed(ps):
                    if s.const_value() is None and not path().known(le(1, s)):
                        raise Unsupported("write through a reshaped view")
                    q = floordiv(f, s)
                    out[pos] = f - q * s
                    f = q
            return conj(conds), tuple(out)
        out = [ZERO] * len(newatoms)
        for k, ps in pieces_of.items():
            for pos, s in ps:
                out[pos] = b[k]
        return TRUE, tuple(out)

    owner = {pos: k for k, ps in pieces_of.items() for pos, _ in ps}
    merges, pos = [], 0
    for g in newgroups:
        ks = [owner[q] for q in range(pos, pos + len(g)) if q in owner]
        merges += [(a, b) for a, b in zip(ks, ks[1:]) if a != b]
        pos += len(g)
    return newgroups, rd, wr, merges


def _viewable(t, merges):
    """Whether the memory layout allows to merge these neighbouring atoms into one dimension."""
    if t._contig is True:
        return True
    dim = [d for d, g in enumerate(t._groups) for _ in g]
    atoms = [s for g in t._groups for s in g]
    p = path()
    for a, b in merges:
        if dim[a] == dim[b]:
            continue
        if t._strides is not None:
            if t._strides[a] == t._strides[b] * atoms[b]:
                continue
            if not p.decide(
                disj([eq(atoms[a], 1), eq(atoms[b], 1), eq(t._strides[a], t._strides[b] * atoms[b])])
            ) and not any(p.decide(eq(s, 0)) for s in atoms):
                return False
            continue
        if p.decide(disj([eq(atoms[a], 1), eq(atoms[b], 1)])) or any(p.decide(eq(s, 0)) for s in atoms):
            continue
        if not _is_contig(t):
            return False
    return True


def _reshape(t, target, must_view=False):
    if getattr(t, "_guard", None):
        raise Unsupported("reshape of a triangle index vector")
    groups, rd, wr, merges = _reshape_groups(t, target)
    if t._contig is True:
        r = view(t, groups, rd, wr, contig=True)
        r._strides = T._row_major([s for g in groups for s in g])
        return r
    if must_view and not _viewable(t, merges):
        raise RuntimeError(
            "view size is not compatible with input tensor's size and stride (at least one dimension"
            " spans across two contiguous subspaces). Use .reshape(...) instead."
        )
    # a reshape may also be a copy
    return view(t, groups, rd, wr, ambiguous=not must_view)


@op("reshape")
def reshape(t, *s, shape=None):
    return _reshape(t, list(shape) if shape is not None else _shape_args(s))


@op("view")
def view_(t, *s):
    if len(s) == 1 and _isdtype(s[0]):
        raise Unsupported("view as another dtype")
    return _reshape(t, _shape_args(s), must_view=True)


@op("reshape_as", "view_as")
def reshape_as(t, o):
    r = _reshape(t, list(_shape(o)))
    return _match_groups(r, o)


def _match_groups(r, o):
    return r


@op("flatten")
def flatten(t, start_dim=0, end_dim=-1):
    n = rank(t)
    if n == 0:
        return reshape(t, 1)
    a, b = _dim(t, start_dim), _dim(t, end_dim)
    s = list(_shape(t))
    if a == b:
        return data_keep(t)
    groups = (
        [list(g) for g in t._groups[:a]]
        + [[x for g in t._groups[a : b + 1] for x in g if x.const_value() != 1] or [ONE]]
        + [list(g) for g in t._groups[b + 1 :]]
    )
    # index map: dropping size-one atoms
    keep = []
    pos = 0
    for d, g in enumerate(t._groups):
        for s_ in g:
            dropme = a <= d <= b and s_.const_value() == 1
            keep.append(not dropme)
    merged_all_ones = all(
        x.const_value() == 1 for g in t._groups[a : b + 1] for x in g
    )
    atoms_before = sum(len(g) for g in t._groups[:a])

    def rd(i):
        i = list(i)
        if merged_all_ones:
            i.pop(atoms_before)
        out = []
        it = iter(i)
        for k in keep:
            out.append(next(it) if k else ZERO)
        return tuple(out)

    def wr(bi):
        out = [x for x, k in zip(bi, keep) if k]
        if merged_all_ones:
            out.insert(atoms_before, ZERO)
        return TRUE, tuple(out)

    if t._contig is True:
        r = view(t, groups, rd, wr, contig=True)
        r._strides = T._row_major([s for g in groups for s in g])
        return r
    return view(t, groups, rd, wr, ambiguous=True)


@op("ravel")
def ravel(t):
    return flatten(t)


@op("unflatten")
def unflatten(t, dim, sizes_):
    d = _dim(t, dim)
    s = list(_shape(t))
    return _reshape(t, s[:d] + list(sizes_) + s[d + 1 :])


@op("expand", "broadcast_to")
def expand_(t, *s):
    tgt = _shape_args(s)
    n, m = rank(t), len(tgt)
    if m < n:
        raise RuntimeError("expand: too few dimensions")
    groups, plan = [], []
    sz = sizes(t)
    for k, x in enumerate(tgt):
        d = k - (m - n)
        if d < 0:
            groups.append([IExpr.of(x)])
            plan.append(None)
            continue
        if not isinstance(x, SymInt) and x == -1:
            groups.append(list(t._groups[d]))
            plan.append(("same", d))
        elif IExpr.of(x) == sz[d] or path().known(eq(IExpr.of(x), sz[d])):
            groups.append(list(t._groups[d]))
            plan.append(("same", d))
        elif path().decide(eq(sz[d], 1)):
            groups.append([IExpr.of(x)])
            plan.append(("one", d))
        elif path().decide(eq(IExpr.of(x), sz[d])):
            groups.append(list(t._groups[d]))
            plan.append(("same", d))
        else:
            raise RuntimeError("The expanded size of the tensor must match the existing size")
    sp = _spans(groups)

    def rd(i):
        out = ()
        for k, pl in enumerate(plan):
            if pl is None:
                continue
            if pl[0] == "same":
                out += tuple(i[sp[k][0] : sp[k][1]])
            else:
                out += tuple(ZERO for _ in t._groups[pl[1]])
        return out

    grown = any(pl is None or pl[0] == "one" for pl in plan)
    r = view(t, groups, rd, None, inj=not grown)
    r._contig = False if grown else "unknown"
    if grown:
        # overlapping memory unless all grown sizes are one
        r._contig = "unknown"
    return r


@op("expand_as")
def expand_as(t, o):
    return expand_(t, *_shape(o))


@op("repeat", "tile")
def repeat(t, *s):
    reps = _shape_args(s)
    n, m = rank(t), len(reps)
    groups, plan = [], []
    for k, x in enumerate(reps):
        d = k - (m - n)
        e = IExpr.of(x)
        if d < 0:
            groups.append([e])
            plan.append(None)
        elif e == ONE:
            groups.append(list(t._groups[d]))
            plan.append(("same", d, 0))
        elif sizes(t)[d].const_value() == 1:
            groups.append([e])
            plan.append(("one", d, 0))
        else:
            groups.append([e] + list(t._groups[d]))
            plan.append(("rep", d, 1))
    sp = _spans(groups)
    f = fnof(t)

    def rd(i):
        out = ()
        for k, pl in enumerate(plan):
            if pl is None:
                continue
            if pl[0] == "one":
                out += tuple(ZERO for _ in t._groups[pl[1]])
            else:
                out += tuple(i[sp[k][0] + pl[2] : sp[k][1]])
        return out

    return new(groups, lambda i: f(rd(i)), t._dtype, t._device, contig=True)


@op("split", "split_with_sizes")
def split(t, split_size_or_sections=None, dim=0, split_size=None):
    sec = split_size_or_sections if split_size_or_sections is not None else split_size
    d = _dim(t, dim)
    n = sizes(t)[d]
    if isinstance(sec, (tuple, list)):
        tot = ZERO
        for s in sec:
            tot = tot + IExpr.of(s)
            if path().decide(ge0(-IExpr.of(s) - 1)):
                raise RuntimeError("split_with_sizes expects non-negative entries")
        if not (tot == n or path().decide(eq(tot, n))):
            raise RuntimeError(f"split_with_sizes expects split_sizes to sum exactly to {n}, got {tot}")
        out, pos = [], ZERO
        for s in sec:
            e = IExpr.of(s)
            out.append(_narrow(t, d, pos, e))
            pos = pos + e
        return tuple(out)
    k = n.const_value()
    if k is None or isinstance(sec, SymInt):
        raise Unsupported("split into a symbolic number of parts")
    out, pos = [], 0
    while pos < k:
        out.append(_narrow(t, d, IExpr.const(pos), IExpr.const(min(sec, k - pos))))
        pos += sec
    return tuple(out) or (data_keep(t),)


@op("diag")
def diag(t, diagonal=0):
    if rank(t) == 1:
        if diagonal != 0 or isinstance(diagonal, SymInt):
            raise Unsupported("diag with an offset")
        t = coarsen(t, 0)
        n = sizes(t)[0]
        f = numfn(t)
        return new([[n], [n]], lambda i: ite(eq(i[0], i[1]), f((i[0],)), T0), t._dtype, t._device)
    if rank(t) != 2:
        raise RuntimeError("diag(): Supports 1D or 2D tensors.")
    return clone(diagonal_(t, diagonal))


@op("diag_embed")
def diag_embed(t, **k):
    if rank(t) != 1 or k:
        raise Unsupported("diag_embed")
    return diag(t)


@op("diagonal")
def diagonal_(t, offset=0, dim1=0, dim2=1):
    n = rank(t)
    d1, d2 = _dim(t, dim1), _dim(t, dim2)
    if n < 2 or d1 == d2:
        raise RuntimeError("diagonal dimensions cannot be identical")
    t = coarsen(coarsen(t, d1), d2)
    s1, s2 = sizes(t)[d1], sizes(t)[d2]
    o = IExpr.of(offset)
    p = path()
    if p.decide(ge0(o)):
        r0, c0 = ZERO, o
    else:
        r0, c0 = -o, ZERO
    a, b = s1 - r0, s2 - c0
    if a == b or p.decide(le(a, b)):
        l = a
    else:
        l = b
    if p.decide(ge0(-l - 1)):
        l = ZERO
    rest = [d for d in range(n) if d not in (d1, d2)]
    groups = [list(t._groups[d]) for d in rest] + [[l]]
    sp = _spans(t._groups)
    rsp = _spans([t._groups[d] for d in rest])

    def rd(i):
        k = i[-1]
        out = ()
        for d in range(n):
            if d == d1:
                out += (k + r0,)
            elif d == d2:
                out += (k + c0,)
            else:
                a_, b_ = rsp[rest.index(d)]
                out += tuple(i[a_:b_])
        return out

    def wr(bi):
        k = bi[sp[d1][0]] - r0
        c = conj([eq(bi[sp[d2][0]] - c0, k), le(ZERO, k), lt(k, l)])
        out = ()
        for d in rest:
            out += tuple(bi[sp[d][0] : sp[d][1]])
        return c, out + (k,)

    return view(t, groups, rd, wr)


@op("flipud")
def flipud(t):
    return flip(t, 0)


@op("fliplr")
def fliplr(t):
    return flip(t, 1)


@op("flip")
def flip(t, *dims):
    ds = [_dim(t, d) for d in _shape_args(dims)]
    if len(set(ds)) != len(ds):
        raise RuntimeError("dim appears multiple times in the list of dims")
    for d in ds:
        t = coarsen(t, d)
    sp = _spans(t._groups)
    sz = sizes(t)
    f = fnof(t)

    def rd(i):
        out = list(i)
        for d in ds:
            out[sp[d][0]] = sz[d] - 1 - out[sp[d][0]]
        return tuple(out)

    return new(t._groups, lambda i: f(rd(i)), t._dtype, t._device)


# ------------------------------------------------------------------ joining
def _promote(ts):
    dt = ts[0]._dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t._dtype)
    return dt


@op("cat", "concat", "concatenate")
def cat(tensors, dim=0, out=None):
    ts = [as_sym(t) for t in tensors]
    check_devices(*ts)
    dt = _promote(ts)
    # legacy: skip 1-d empty tensors of size 0
    if any(rank(t) != 1 for t in ts):
        ts = [t for t in ts if not (rank(t) == 1 and sizes(t)[0].const_value() == 0)]
    if not ts:
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    if any(rank(t) == 0 for t in ts):
        raise RuntimeError("zero-dimensional tensor cannot be concatenated")
    n = rank(ts[0])
    if any(rank(t) != n for t in ts):
        raise RuntimeError("Tensors must have same number of dimensions")
    d = _dim(ts[0], dim)
    if len(ts) == 1:
        return clone(ts[0])
    ts = [coarsen(t, d) for t in ts]
    groups = []
    for k in range(n):
        if k == d:
            tot = ZERO
            for t in ts:
                tot = tot + sizes(t)[k]
            groups.append([tot])
        else:
            s0 = sizes(ts[0])[k]
            for t in ts[1:]:
                if not same_size(sizes(t)[k], s0):
                    raise RuntimeError(
                        f"Sizes of tensors must match except in dimension {d}. Expected {s0} got {sizes(t)[k]}"
                    )
            groups.append(list(refine([t._groups[k] for t in ts])))
    sp = _spans(groups)
    fns = [fnof(t) if is_int(t) and dt in T.INT_DTYPES else numfn(t) for t in ts]
    if dt in T.INT_DTYPES:
        raise Unsupported("cat of integer tensors")
    ofs, pos = [], ZERO
    for t in ts:
        ofs.append(pos)
        pos = pos + sizes(t)[d]

    def fn(i):
        parts = []
        for t, f, o in zip(ts, fns, ofs):
            s = sizes(t)[d]
            if s == ZERO:
                continue
            idx = ()
            for k in range(n):
                gi = i[sp[k][0] : sp[k][1]]
                if k == d:
                    idx += (gi[0] - o,)
                else:
                    idx += regroup(gi, groups[k], t._groups[k])
            c = conj([le(o, i[sp[d][0]]), lt(i[sp[d][0]], o + s)])
            parts.append((c, f(idx)))
        # exactly one part applies
        return add([ite(c, v, T0) for c, v in parts]) if parts else T0

    return new(groups, fn, dt, ts[0]._device, contig=True if n <= 3 else "unknown")


@op("stack")
def stack(tensors, dim=0, out=None):
    return cat([unsqueeze(as_sym(t), dim) for t in tensors], dim=dim)


@op("hstack")
def hstack(tensors):
    return cat(tensors, 0 if rank(as_sym(tensors[0])) == 1 else 1)


@op("vstack")
def vstack(tensors):
    return cat([unsqueeze(t, 0) if rank(t) == 1 else t for t in map(as_sym, tensors)], 0)


@op("block_diag")
def block_diag(*tensors):
    ts = []
    for t in tensors:
        t = as_sym(t)
        if rank(t) == 0:
            t = reshape(t, 1, 1)
        elif rank(t) == 1:
            t = unsqueeze(t, 0)
        elif rank(t) > 2:
            raise RuntimeError("torch.block_diag: Input tensors must have 2 or fewer dimensions")
        ts.append(coarsen(coarsen(t, 0), 1))
    check_devices(*ts)
    dt = _promote(ts)
    r = c = ZERO
    parts = []
    for t in ts:
        s = sizes(t)
        parts.append((r, c, s, numfn(t)))
        r, c = r + s[0], c + s[1]

    def fn(i):
        out = []
        for r0, c0, s, f in parts:
            a, b = i[0] - r0, i[1] - c0
            out.append(
                ite(conj([le(0, a), lt(a, s[0]), le(0, b), lt(b, s[1])]), f((a, b)), T0)
            )
        return add(out)

    return new([[r], [c]], fn, dt, ts[0]._device, contig=True)


@op("pad")
def pad(t, pad, mode="constant", value=None):
    if mode != "constant":
        raise Unsupported("pad mode")
    if len(pad) % 2 or len(pad) // 2 > rank(t):
        raise RuntimeError("Padding length too large")
    v = to_term(0 if value is None else value)
    n = rank(t)
    groups = [list(g) for g in t._groups]
    lows = {}
    for k in range(len(pad) // 2):
        d = n - 1 - k
        t = coarsen(t, d)
        lo, hi = IExpr.of(pad[2 * k]), IExpr.of(pad[2 * k + 1])
        s = sizes(t)[d]
        new_s = s + lo + hi
        if path().decide(ge0(-new_s - 1)):
            raise RuntimeError("padding results in a negative size")
        groups[d] = [new_s]
        lows[d] = (lo, s)
    sp = _spans(groups)
    f = numfn(t)

    def fn(i):
        idx, cs = list(i), []
        for d, (lo, s) in lows.items():
            e = i[sp[d][0]] - lo
            idx[sp[d][0]] = e
            if lo != ZERO:
                cs.append(le(0, e))
            cs.append(lt(e, s))
        return ite(conj(cs), f(tuple(idx)), v)

    return new(groups, fn, t._dtype, t._device)


# ------------------------------------------------------------------ elementwise
def _is_scalar(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, torch.Tensor)


def _ew(name, f_term, f_int=None, float_result=False):
    def impl(a, b, *, alpha=1, out=None, rounding_mode=None, **kw):
        if out is not None or kw or rounding_mode is not None:
            raise Unsupported(f"{name} with extra arguments")
        return _binary(name, a, b, alpha, f_term, f_int, float_result)

    return impl


def _binary(name, a, b, alpha, f_term, f_int, float_result):
    dt = result_dtype(a, b)
    if float_result and not dt.is_floating_point:
        dt = torch.get_default_dtype()
    alpha_term = None
    if isinstance(alpha, SymTensor):
        alpha = item(alpha)
    if isinstance(alpha, torch.Tensor):
        alpha = alpha.item()
    if alpha is not None and not (not isinstance(alpha, (SymInt, SymReal)) and alpha == 1):
        alpha_term = to_term(alpha)
    ts = [x for x in (a, b) if isinstance(x, torch.Tensor)]
    syms = {id(x): as_sym(x) for x in ts}
    guard = None
    gs = [getattr(syms[id(x)], "_guard", None) for x in ts if rank(syms[id(x)]) > 0]
    if any(g is not None for g in gs):
        if any(g is None for g in gs) or len({g[0] for g in gs}) > 1:
            raise Unsupported("triangle index vector mixed with another tensor")
        guard = gs[0]
    check_devices(*syms.values())
    groups, maps = broadcast(*[syms[id(x)]._groups for x in ts])
    dev = None
    for x in ts:
        s = syms[id(x)]
        if dev is None or rank(s) > 0:
            dev = s._device
    intres = dt in T.INT_DTYPES
    fs = []
    k = 0
    for x in (a, b):
        if isinstance(x, torch.Tensor):
            s = syms[id(x)]
            m = maps[k]
            k += 1
            g = fnof(s) if intres else numfn(s)
            fs.append(lambda i, g=g, m=m: g(m(i)))
        else:
            v = IExpr.of(x) if intres else to_term(x)
            fs.append(lambda i, v=v: v)
    if intres:
        if f_int is None or alpha_term is not None:
            raise Unsupported(f"integer {name}")
        r = new(groups, lambda i: f_int(fs[0](i), fs[1](i)), dt, dev)
    else:
        if alpha_term is None:
            fn = lambda i: f_term(fs[0](i), fs[1](i))
        else:
            fn = lambda i: f_term(fs[0](i), mul([alpha_term, fs[1](i)]))
        r = new(groups, fn, dt, dev)
    if guard is not None:
        r._guard = guard
    elif all(s._contig is True for s in syms.values()) and any(
        len(s._groups) == len(groups) and all(x == y for x, y in zip(sizes(s), sizes(r)))
        for s in syms.values()
    ):
        row_major(r)
    return r


ADD = (lambda x, y: x + y)
SUB = (lambda x, y: x - y)
MUL = (lambda x, y: x * y)
DIV = (lambda x, y: mul([x, power(y, -1)]))
TABLE["add"] = TABLE["__add__"] = TABLE["__radd__"] = _ew("add", ADD, ADD)
TABLE["sub"] = TABLE["__sub__"] = TABLE["subtract"] = _ew("sub", SUB, SUB)
TABLE["mul"] = TABLE["__mul__"] = TABLE["__rmul__"] = TABLE["multiply"] = _ew("mul", MUL, MUL)
TABLE["div"] = TABLE["__truediv__"] = TABLE["__div__"] = TABLE["true_divide"] = TABLE["divide"] = _ew(
    "div", DIV, None, True
)
TABLE["__rsub__"] = TABLE["rsub"] = lambda a, b, **k: _binary("sub", b, a, 1, SUB, SUB, False)
TABLE["__rdiv__"] = TABLE["__rtruediv__"] = lambda a, b: _binary("div", b, a, 1, DIV, None, True)


def _inplace(name, impl):
    def f(t, *a, **k):
        r = impl(t, *a, **k)
        if rank(r) != rank(t):
            raise RuntimeError("output with shape doesn't match the broadcast shape")
        for x, y in zip(sizes(r), sizes(t)):
            if x != y and not path().known(eq(x, y)):
                raise RuntimeError("output with shape doesn't match the broadcast shape")
        if not torch.can_cast(r._dtype, t._dtype):
            raise RuntimeError(
                f"result type {r._dtype} can't be cast to the desired output type {t._dtype}"
            )
        m = _expand_map(r, t._groups)
        f_ = fnof(r)
        if is_int(r) and not is_int(t):
            write(t, lambda i: tint(f_(m(i))))
        else:
            write(t, lambda i: f_(m(i)))
        return t

    return f


for _n in ("add", "sub", "mul", "div"):
    TABLE[_n + "_"] = _inplace(_n, TABLE[_n])
TABLE["__iadd__"], TABLE["__isub__"] = TABLE["add_"], TABLE["sub_"]
TABLE["__imul__"], TABLE["__itruediv__"] = TABLE["mul_"], TABLE["div_"]
TABLE["__idiv__"] = TABLE["div_"]


def _unary(t, f, f_int=None, to_float=False):
    if is_int(t) and f_int is not None:
        g = fnof(t)
        r = new(t._groups, lambda i: f_int(g(i)), t._dtype, t._device)
    else:
        if is_int(t) and not to_float:
            raise Unsupported("unary operation on an integer tensor")
        g = numfn(t)
        r = new(t._groups, lambda i: f(g(i)), _real_out(t._dtype), t._device)
    if t._contig is True:
        row_major(r)
    if hasattr(t, "_guard"):
        r._guard = t._guard
    return r


@op("neg", "__neg__", "negative")
def neg_(t):
    return _unary(t, lambda x: -x, lambda x: -x)


@op("__pos__", "positive")
def pos_(t):
    return t


def abs_term(x):
    e = as_int(x)
    if e is None:
        return TFn("abs", (x,))
    return ite(ge0(e), x, -x)


@op("abs", "__abs__", "absolute")
def abs_(t):
    return _unary(t, abs_term)


@op("sqrt")
def sqrt(t):
    return _unary(t, lambda x: power(x, Fraction(1, 2)), to_float=True)


@op("rsqrt")
def rsqrt(t):
    return _unary(t, lambda x: power(x, Fraction(-1, 2)), to_float=True)


@op("square")
def square(t):
    return _unary(t, lambda x: x * x, lambda x: x * x)


@op("reciprocal")
def reciprocal(t):
    return _unary(t, lambda x: power(x, -1), to_float=True)


@op("pow", "__pow__")
def pow_(t, e):
    if not isinstance(t, SymTensor) or isinstance(e, (SymInt, SymReal, torch.Tensor)):
        raise Unsupported("pow with symbolic exponent")
    if is_int(t) and isinstance(e, int) and e == 2:
        return square(t)
    return _unary(t, lambda x: power(x, Fraction(e)), to_float=True)


for _n in ("neg", "abs", "sqrt", "square", "reciprocal", "pow"):
    TABLE[_n + "_"] = _inplace(_n, TABLE[_n])
TABLE["__ipow__"] = TABLE["pow_"]


@op("__rpow__")
def rpow(t, b):
    raise Unsupported("power with tensor exponent")


@op("addcmul")
def addcmul(t, a, b, value=1):
    return TABLE["add"](t, TABLE["mul"](a, b), alpha=value)


@op("addcdiv")
def addcdiv(t, a, b, value=1):
    return TABLE["add"](t, TABLE["div"](a, b), alpha=value)


@op("lerp")
def lerp(t, end, weight):
    return TABLE["add"](t, TABLE["mul"](TABLE["sub"](end, t), weight))


for _n in ("addcmul", "addcdiv", "lerp"):
    TABLE[_n + "_"] = _inplace(_n, TABLE[_n])


@op("copy_")
def copy_(t, src, non_blocking=False):
    src = as_sym(src)
    f = _value_fn(t._groups, src, t._dtype, t._device, None)
    write(t, f)
    return t


@op("fill_")
def fill_(t, v):
    if isinstance(v, SymTensor):
        v = item(v)
    vf = _value_fn(t._groups, v, t._dtype, t._device, None)
    write(t, vf)
    return t


@op("zero_")
def zero_(t):
    return fill_(t, 0)


@op("fill_diagonal_")
def fill_diagonal_(t, v, wrap=False):
    fill_(diagonal_(t), v)
    return t


def int_values(t):
    """Element function of a floating point tensor of integers."""
    g = numfn(t)

    def f(i):
        e = as_int(g(i))
        if e is None:
            raise Unsupported("comparison of float tensors")
        return e

    return f


def _compare(kind):
    def f(a, b):
        if any(isinstance(x, SymTensor) and rank(x) > 0 for x in (a, b)):
            g = {"lt": lt, "le": le, "eq": eq, "gt": lambda x, y: lt(y, x), "ge": lambda x, y: le(y, x), "ne": lambda x, y: neg(eq(x, y))}[kind]
            ts = [as_sym(x) for x in (a, b) if isinstance(x, torch.Tensor)]
            check_devices(*ts)
            groups, maps = broadcast(*[t._groups for t in ts])
            fs, k = [], 0
            for x in (a, b):
                if isinstance(x, torch.Tensor):
                    s = as_sym(x)
                    q, m = (fnof(s) if is_int(s) else int_values(s)), maps[k]
                    k += 1
                    fs.append(lambda i, q=q, m=m: q(m(i)))
                else:
                    v = as_int(to_term(x))
                    if v is None:
                        raise Unsupported("comparison with a fraction")
                    fs.append(lambda i, v=v: v)
            return new(groups, lambda i: g(fs[0](i), fs[1](i)), torch.bool, ts[0]._device)
        ta = term0(a) if isinstance(a, SymTensor) else (to_term(a.item()) if isinstance(a, torch.Tensor) else None)
        tb = term0(b) if isinstance(b, SymTensor) else (to_term(b.item()) if isinstance(b, torch.Tensor) else None)

        def inf(x):
            return (
                isinstance(x, float) and not isinstance(x, SymReal) and x in (float("inf"), float("-inf"))
            )

        if inf(a) or inf(b):
            raise Unsupported("comparison with infinity")
        ta = to_term(a) if ta is None else ta
        tb = to_term(b) if tb is None else tb
        return {
            "lt": lambda: SymBool(None, ("lt", ta - tb, False)),
            "le": lambda: SymBool(None, ("le", ta - tb, False)),
            "gt": lambda: SymBool(None, ("lt", tb - ta, False)),
            "ge": lambda: SymBool(None, ("le", tb - ta, False)),
            "eq": lambda: SymBool(None, ("eq", ta - tb, False)),
            "ne": lambda: SymBool(None, ("eq", ta - tb, True)),
        }[kind]()

    return f


for _k, _ns in {
    "lt": ("lt", "__lt__", "less"),
    "le": ("le", "__le__"),
    "gt": ("gt", "__gt__", "greater"),
    "ge": ("ge", "__ge__"),
    "eq": ("eq", "__eq__"),
    "ne": ("ne", "__ne__"),
}.items():
    for _n in _ns:
        TABLE[_n] = _compare(_k)


@op("where")
def where(c, a=None, b=None):
    if a is None or not isinstance(c, SymTensor) or not is_bool(c):
        raise Unsupported("where")
    dt = result_dtype(a, b)
    ts = [c] + [as_sym(x) for x in (a, b) if isinstance(x, torch.Tensor)]
    check_devices(*ts)
    groups, maps = broadcast(*[t._groups for t in ts])
    if dt in T.INT_DTYPES:
        raise Unsupported("where on integers")
    cf = fnof(c)
    fs, k = [], 1
    for x in (a, b):
        if isinstance(x, torch.Tensor):
            q, m = numfn(as_sym(x)), maps[k]
            k += 1
            fs.append(lambda i, q=q, m=m: q(m(i)))
        else:
            v = to_term(x)
            fs.append(lambda i, v=v: v)
    m0 = maps[0]
    return new(groups, lambda i: ite(cf(m0(i)), fs[0](i), fs[1](i)), dt, c._device)


def _tri(low):
    def f(t, diagonal=0):
        if rank(t) < 2:
            raise RuntimeError("tril/triu expects a matrix")
        t = coarsen(coarsen(t, rank(t) - 1), rank(t) - 2)
        o = IExpr.of(diagonal)
        g = numfn(t)
        if low:
            return new(t._groups, lambda i: ite(le(i[-1], i[-2] + o), g(i), T0), t._dtype, t._device)
        return new(t._groups, lambda i: ite(le(i[-2] + o, i[-1]), g(i), T0), t._dtype, t._device)

    return f


TABLE["tril"], TABLE["triu"] = _tri(True), _tri(False)
TABLE["tril_"], TABLE["triu_"] = _inplace("tril", _tri(True)), _inplace("triu", _tri(False))


# ------------------------------------------------------------------ dtype / device
@op("to", "type")
def to(t, *a, dtype=None, device=None, copy=False, non_blocking=False, memory_format=None):
    for x in a:
        if _isdtype(x):
            dtype = x
        elif isinstance(x, SymTensor):
            dtype, device = x._dtype, x._device
        elif isinstance(x, torch.Tensor):
            dtype, device = x.dtype, x.device
        elif isinstance(x, (str, torch.device)):
            device = x
        elif x is None or isinstance(x, bool):
            continue
        else:
            raise Unsupported(f"to({x!r})")
    dtype = dtype or t._dtype
    dev = _dev(device, t)
    if dtype == t._dtype and dev == t._device and not copy:
        return t
    if is_int(t) and dtype in T.INT_DTYPES:
        f = fnof(t)
    elif dtype in T.INT_DTYPES:
        raise Unsupported("conversion of floats to integers")
    else:
        f = numfn(t)
    r = new(t._groups, f, dtype, dev)
    if hasattr(t, "_guard"):
        r._guard = t._guard
    r._req = t._req
    return r


TABLE["float"] = lambda t: to(t, torch.float32)
TABLE["double"] = lambda t: to(t, torch.float64)
TABLE["half"] = lambda t: to(t, torch.float16)
TABLE["bfloat16"] = lambda t: to(t, torch.bfloat16)
TABLE["type_as"] = lambda t, o: to(t, o._dtype)
TABLE["cpu"] = lambda t: to(t, "cpu")
TABLE["long"] = lambda t: to(t, torch.int64)


# ------------------------------------------------------------------ reductions
def _reduce_dims(t, dim):
    if dim is None or (isinstance(dim, (tuple, list)) and len(dim) == 0):
        return list(range(rank(t)))
    if isinstance(dim, (tuple, list)):
        return [_dim(t, d) for d in dim]
    return [_dim(t, dim)]


def _sum(t, dim=None, keepdim=False, elem=lambda x: x, dtype=None):
    ds = _reduce_dims(t, dim) if rank(t) else []
    if getattr(t, "_guard", None):
        raise Unsupported("reduction of a triangle vector")
    sp = _spans(t._groups)
    f = numfn(t)
    groups = []
    for d in range(rank(t)):
        if d in ds:
            if keepdim:
                groups.append([ONE])
        else:
            groups.append(list(t._groups[d]))
    red = [(d, k) for d in ds for k in range(len(t._groups[d]))]

    def fn(i):
        idx = {}
        pos = 0
        for d in range(rank(t)):
            if d in ds:
                if keepdim:
                    pos += 1
            else:
                w = len(t._groups[d])
                idx[d] = list(i[pos : pos + w])
                pos += w

        def rec(j, acc):
            if j == len(red):
                full = []
                for d in range(rank(t)):
                    full.extend(acc[d] if d in ds else idx[d])
                return elem(f(tuple(full)))
            d, k = red[j]
            return sum_over(
                ZERO,
                t._groups[d][k],
                lambda v: rec(j + 1, {**acc, d: acc.get(d, []) + [v]}),
                "s",
            )

        return rec(0, {})

    n = ONE
    for d in ds:
        n = n * sizes(t)[d]
    dt = dtype or (t._dtype if not is_int(t) else torch.int64)
    return groups, fn, n, dt


@op("sum")
def sum_(t, dim=None, keepdim=False, *, dtype=None, axis=None, out=None):
    dim = axis if dim is None else dim
    groups, fn, _, dt = _sum(t, dim, keepdim, dtype=dtype)
    if is_int(t):
        raise Unsupported("sum of integers")
    return new(groups, fn, dt, t._device)


@op("mean")
def mean(t, dim=None, keepdim=False, *, dtype=None, axis=None, out=None):
    dim = axis if dim is None else dim
    groups, fn, n, dt = _sum(t, dim, keepdim, dtype=dtype)
    if is_int(t) and dtype is None:
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be floating point")
    inv = power(tint(n), -1)
    return new(groups, lambda i: mul([inv, fn(i)]), dt, t._device)


@op("trace")
def trace(t):
    if rank(t) != 2:
        raise RuntimeError("trace: expected a matrix")
    return sum_(diagonal_(t))


@op("linalg_vector_norm", "vector_norm", "norm", "linalg_norm")
def vector_norm(t, ord=2, dim=None, keepdim=False, *, dtype=None, out=None, p=None):
    if p is not None:
        ord = p
    if ord in (float("inf"),):
        if dim is not None:
            raise Unsupported("vector norm along dims")
        return amax_abs(t)
    if ord not in (2, 2.0, None, "fro"):
        raise Unsupported(f"norm of order {ord}")
    groups, fn, _, dt = _sum(t, dim, keepdim, elem=lambda x: x * x)
    return new(groups, lambda i: power(fn(i), Fraction(1, 2)), dtype or dt, t._device)


@op("linalg_matrix_norm", "matrix_norm")
def matrix_norm(t, ord="fro", dim=(-2, -1), keepdim=False, *, dtype=None, out=None):
    if ord != "fro":
        raise Unsupported("matrix norm")
    return vector_norm(t, 2, dim, keepdim, dtype=dtype)


def _family(t, f):
    """(bound vars, cond, term) families of all elements."""
    atoms = [s for g in t._groups for s in g]
    vs = [IVar("m") for _ in atoms]
    body = f(tuple(IExpr.var(v) for v in vs))
    return (tuple((v, ZERO, s) for v, s in zip(vs, atoms)), TRUE, body)


def amax_abs(t):
    g = numfn(t)
    fam = _family(t, lambda i: TFn("abs", (g(i),)))
    term = TMax([fam])
    return new([], lambda i: term, t._dtype, t._device)


@op("max", "amax")
def max_(t, *a, dim=None, keepdim=False):
    if isinstance(t, SymTensor) and a and isinstance(a[0], torch.Tensor):
        return maximum(t, a[0])
    if a or dim is not None or keepdim:
        raise Unsupported("max along a dimension")
    for s in sizes(t):
        if path().decide(eq(s, 0)):
            raise RuntimeError("max(): Expected reduction dim to be specified for input.numel() == 0.")
    g = numfn(t)
    term = TMax([_family(t, g)])
    return new([], lambda i: term, t._dtype, t._device)


def as_int(t):
    """The integer expression of an integer-valued term, or None."""
    if isinstance(t, TNum):
        return IExpr.const(t.c.numerator) if t.c.denominator == 1 else None
    if isinstance(t, TInt):
        return t.e
    if isinstance(t, (TAdd, TMul)):
        r = None
        for x in t.args:
            e = as_int(x)
            if e is None:
                return None
            r = e if r is None else (r + e if isinstance(t, TAdd) else r * e)
        return r
    return None


def pick_max(x, y, sign=1):
    """max(x, y) (sign 1) or min(x, y) (sign -1)."""
    a, b = as_int(x), as_int(y)
    if a is not None and b is not None:
        c = le(b, a) if sign > 0 else le(a, b)
        if path().known(c):
            return x
        return ite(c, x, y)
    if sign > 0:
        return max_terms([x, y])
    return -max_terms([-x, -y])


def _extremum(sign):
    def f(a, b):
        a, b = as_sym(a), as_sym(b)
        check_devices(a, b)
        if is_int(a) and is_int(b):
            raise Unsupported("elementwise maximum of integer tensors")
        groups, (ma, mb) = broadcast(a._groups, b._groups)
        fa, fb = numfn(a), numfn(b)
        return new(groups, lambda i: pick_max(fa(ma(i)), fb(mb(i)), sign), result_dtype(a, b), a._device)

    return f


maximum = TABLE["maximum"] = TABLE["fmax"] = _extremum(1)
minimum = TABLE["minimum"] = TABLE["fmin"] = _extremum(-1)


@op("clamp", "clip")
def clamp(t, min=None, max=None):
    if min is None and max is None:
        raise ValueError("torch.clamp: At least one of 'min' or 'max' must not be None")
    if is_int(t):
        raise Unsupported("clamp of integer tensors")
    for bound, sign in ((min, 1), (max, -1)):
        if bound is None:
            continue
        if isinstance(bound, torch.Tensor):
            t = (maximum if sign > 0 else minimum)(t, bound)
        else:
            v, g = to_term(bound), numfn(t)
            t = new(t._groups, lambda i, v=v, g=g, sign=sign: pick_max(g(i), v, sign), t._dtype, t._device)
    return t


@op("clamp_min")
def clamp_min(t, min):
    return clamp(t, min=min)


@op("clamp_max")
def clamp_max(t, max):
    return clamp(t, max=max)


for _n in ("clamp", "clip", "clamp_min", "clamp_max"):
    TABLE[_n + "_"] = _inplace(_n, TABLE[_n])


def max_terms(ts):
    alts = []
    for t in ts:
        ex = None
        if isinstance(t, TMax):
            alts.extend(t.alts)
        else:
            alts.append(((), TRUE, t))
    return TMax(alts)


def sym_max(*args, **kw):
    """Replacement of the builtin ``max`` in the code under test."""
    import builtins

    if kw:
        return builtins.max(*args, **kw)
    items = list(args[0]) if len(args) == 1 else list(args)
    if not items:
        raise ValueError("max() iterable argument is empty")
    if not any(isinstance(x, SymTensor) for x in items) and not any(
        isinstance(x, SymReal) for x in items
    ):
        return builtins.max(items)
    if len(items) == 1:
        return items[0]
    ts, dev, dt, anyt = [], None, None, False
    for x in items:
        if isinstance(x, torch.Tensor):
            x = as_sym(x)
            ts.append(term0(x))
            dev, dt, anyt = x._device, x._dtype, True
        else:
            ts.append(to_term(x))
    term = max_terms(ts)
    if len(ts) == 2 and path().real_dec:
        # resolved by an earlier branch?
        r = path().resolve_max(term)
        for x, t in zip(items, ts):
            if r is not None and r is t:
                return x
    if anyt:
        return new([], lambda i: term, dt, dev)
    return mkreal(term)


# ------------------------------------------------------------------ products
def _prod_dtype(name, ts):
    dts = {t._dtype for t in ts}
    if len(dts) > 1:
        raise RuntimeError(f"expected m1 and m2 to have the same dtype, but got: {dts}")
    if any(is_int(t) for t in ts):
        raise Unsupported("integer matrix product")
    return ts[0]._dtype


@op("einsum")
def einsum(eqn, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    if not isinstance(eqn, str):
        raise Unsupported("einsum sublist format")
    ops = [as_sym(o) for o in ops]
    check_devices(*ops)
    dt = _prod_dtype("einsum", ops)
    eqn = eqn.replace(" ", "")
    lhs, _, rhs = eqn.partition("->")
    subs = lhs.split(",")
    if len(subs) != len(ops):
        raise RuntimeError("einsum(): wrong number of operands")
    ell = 0
    parsed = []
    for s, o in zip(subs, ops):
        if "..." in s:
            a, b = s.split("...")
            k = rank(o) - len(a) - len(b)
            if k < 0:
                raise RuntimeError("einsum(): too few dimensions")
            ell = max(ell, k)
            parsed.append((list(a), k, list(b)))
        else:
            if len(s) != rank(o):
                raise RuntimeError(
                    f"einsum(): the number of subscripts in the equation ({len(s)}) does not match the number of dimensions ({rank(o)})"
                )
            parsed.append((list(s), None, []))
    labels = []
    for (a, k, b), o in zip(parsed, ops):
        mid = [] if k is None else [f"*{ell - k + j}" for j in range(k)]
        labels.append(a + mid + b)
    flat = [x for l in labels for x in l]
    if "->" in eqn:
        if "..." in rhs:
            a, b = rhs.split("...")
            out = list(a) + [f"*{j}" for j in range(ell)] + list(b)
        else:
            out = list(rhs)
    else:
        out = [f"*{j}" for j in range(ell)] + sorted(
            x for x in set(flat) if flat.count(x) == 1 and not x.startswith("*")
        )
    dims = {}
    for l, o in zip(labels, ops):
        for x, g in zip(l, o._groups):
            dims.setdefault(x, []).append(g)
    ref = {}
    stretched = set()  # groups of size one that are broadcast
    for x, gs in dims.items():
        s0, keep = None, []
        for g in gs:
            s = prod_e(g)
            if s0 is None:
                s0, keep = s, [g]
            elif same_size(s, s0):
                keep.append(g)
            elif path().decide(eq(s, 1)):
                stretched.add(id(g))
            elif path().decide(eq(s0, 1)):
                stretched.update(id(h) for h in keep)
                s0, keep = s, [g]
            else:
                raise RuntimeError(
                    f"einsum(): subscript {x} has size {s} for operand which does not broadcast with previously seen size {s0}"
                )
        ref[x] = refine(keep)
    for x in out:
        if x not in ref:
            raise RuntimeError(f"einsum(): output subscript {x} does not appear in the equation")
    summed = [x for x in ref if x not in out]
    if len(ops) == 1 and not summed:
        if len(set(labels[0])) != len(labels[0]):
            raise Unsupported("einsum that takes a diagonal")
        return permute(ops[0], [labels[0].index(x) for x in out])
    fns = [numfn(o) for o in ops]
    groups = [list(ref[x]) for x in out]
    sp = _spans(groups)
    red = [(x, k) for x in summed for k in range(len(ref[x]))]

    def fn(i):
        base = {x: list(i[sp[n][0] : sp[n][1]]) for n, x in enumerate(out)}

        def leaf(env):
            parts = []
            for l, o, f in zip(labels, ops, fns):
                idx = ()
                for x, g in zip(l, o._groups):
                    if id(g) in stretched:
                        idx += tuple(ZERO for _ in g)
                    else:
                        idx += regroup(env[x], ref[x], g)
                parts.append(f(idx))
            return mul(parts)

        def rec(j, env):
            if j == len(red):
                return leaf(env)
            x, k = red[j]
            return sum_over(
                ZERO, ref[x][k], lambda v: rec(j + 1, {**env, x: env.get(x, []) + [v]}), "e"
            )

        return rec(0, base)

    return new(groups, fn, dt, ops[0]._device)


def _ranks(name, n, m):
    def impl(a, b, out=None):
        if (rank(as_sym(a)), rank(as_sym(b))) != (n, m):
            raise RuntimeError(f"{name}: expected {n}-D and {m}-D tensors")
        return matmul(a, b)

    TABLE[name] = impl


for _n in (("mm", 2, 2), ("spmm", 2, 2), ("bmm", 3, 3), ("mv", 2, 1), ("dot", 1, 1)):
    _ranks(*_n)


@op("inner")
def inner(a, b, out=None):
    return einsum("...i,...i->..." if rank(a) == 1 and rank(b) == 1 else "ai,bi->ab", a, b)


def row_major(r):
    """The fresh tensor r, which is laid out contiguously."""
    r._contig, r._strides = True, T._row_major([s for g in r._groups for s in g])
    return r


@op("matmul", "__matmul__")
def matmul(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    na, nb = rank(a), rank(b)
    if na == 0 or nb == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    if na == 1 and nb == 1:
        return einsum("i,i->", a, b)
    ka = sizes(a)[-1]
    kb = sizes(b)[-2] if nb > 1 else sizes(b)[0]
    if not same_size(ka, kb):
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({sizes(a)} and {sizes(b)})")
    if na == 1:
        return einsum("k,...kn->...n", a, b)
    if nb == 1:
        return einsum("...mk,k->...m", a, b)
    r = einsum("...mk,...kn->...mn", a, b)
    return row_major(r) if na == nb == 2 else r


@op("__rmatmul__")
def rmatmul(a, b):
    return matmul(b, a)


@op("outer", "ger")
def outer(a, b):
    return einsum("i,j->ij", a, b)


@op("addmm")
def addmm(c, a, b, beta=1, alpha=1):
    r = matmul(a, b)
    if alpha != 1:
        r = TABLE["mul"](r, alpha)
    return TABLE["add"](c if beta == 1 else TABLE["mul"](c, beta), r)


TABLE["addmm_"] = _inplace("addmm", addmm)
TABLE["baddbmm"] = addmm
TABLE["chain_matmul"] = lambda *ms: multi_dot(ms)


@op("linalg_multi_dot", "multi_dot")
def multi_dot(ms):
    r = ms[0]
    for m in ms[1:]:
        r = matmul(r, m)
    return r


@op("tensordot")
def tensordot(a, b, dims=2, out=None):
    if not isinstance(dims, int):
        raise Unsupported("tensordot dims")
    la = "abcdefgh"[: rank(a)]
    lb = "ijklmnop"[: rank(b)]
    for k in range(dims):
        lb = lb.replace(lb[k], la[rank(a) - dims + k])
    return einsum(f"{la},{lb}->{la[: rank(a) - dims]}{lb[dims:]}", a, b)


@op("linear")
def linear(x, w, b=None):
    r = matmul(x, permute(w, (1, 0)))
    return r if b is None else TABLE["add"](r, b)


@op("conv1d")
def conv1d(x, w, bias=None, stride=1, padding=0, dilation=1, groups=1):
    def one(v):
        return v[0] if isinstance(v, (tuple, list)) else v

    stride, padding, dilation = one(stride), one(padding), one(dilation)
    if isinstance(padding, str):
        raise Unsupported("conv1d with string padding")
    x, w = as_sym(x), as_sym(w)
    check_devices(x, w)
    if x._dtype != w._dtype:
        raise RuntimeError("Input type and weight type should be the same")
    if rank(w) != 3 or rank(x) not in (2, 3):
        raise RuntimeError("Expected 2D (unbatched) or 3D (batched) input to conv1d")
    p = path()
    G = IExpr.of(groups)
    if p.decide(ge0(-G)):
        raise RuntimeError("non-positive groups is not supported")
    batched = rank(x) == 3
    for d in range(rank(x)):
        x = coarsen(x, d)
    for d in range(3):
        w = coarsen(w, d)
    xs, ws = sizes(x), sizes(w)
    Cin, L = xs[-2], xs[-1]
    Cout, Cg, K = ws
    if not (Cg * G == Cin or p.decide(eq(Cg * G, Cin))):
        raise RuntimeError("Given groups and weight, expected input channels to match")
    st, pd, dl = IExpr.of(stride), IExpr.of(padding), IExpr.of(dilation)
    if p.decide(ge0(-pd - 1)):
        raise RuntimeError("negative padding is not supported")
    span = L + pd * 2 - (dl * (K - 1) + 1)
    if p.decide(ge0(-span - 1)):
        raise RuntimeError("Kernel size can't be greater than actual input size")
    if st == ONE:
        Lout = span + 1
    else:
        Lout = floordiv(span, st) + 1
    og = divexact(Cout, G)
    if og is None:
        raise Unsupported("conv1d groups do not divide the output channels")
    fx, fw = numfn(x), numfn(w)
    fb = numfn(bias) if bias is not None else None

    def fn(i):
        b = tuple(i[:1]) if batched else ()
        o, t = i[-2], i[-1]
        g = o if og == ONE else floordiv(o, og)

        def body(c, k):
            pos = t * st + k * dl - pd
            return mul(
                [
                    ite(
                        conj([le(0, pos), lt(pos, L)]),
                        fx(b + (g * Cg + c, pos)),
                        T0,
                    ),
                    fw((o, c, k)),
                ]
            )

        r = sum_over(ZERO, Cg, lambda c: sum_over(ZERO, K, lambda k: body(c, k), "k"), "c")
        return r if fb is None else r + fb((o,))

    gr = ([[xs[0]]] if batched else []) + [[Cout], [Lout]]
    return new(gr, fn, x._dtype, x._device)


@op("unfold")
def unfold(x, kernel_size, dilation=1, padding=0, stride=1):
    def two(v):
        return (v[0], v[1]) if isinstance(v, (tuple, list)) else (v, v)

    if rank(x) != 4:
        raise Unsupported("unfold of an unbatched input")
    for d in range(4):
        x = coarsen(x, d)
    p = path()
    K, D, P, S = [tuple(IExpr.of(e) for e in two(v)) for v in (kernel_size, dilation, padding, stride)]
    B, C, I1, I2 = sizes(x)
    O = []
    for I, k, d, pd, s in zip((I1, I2), K, D, P, S):
        span = I + pd * 2 - d * (k - 1) - 1
        if p.decide(ge0(-span - 1)):
            raise RuntimeError("calculated shape of the array of sliding blocks must be at least one")
        O.append(conv_out(span, s))
    f = numfn(x)

    def fn(i):
        b, c, k1, k2, o1, o2 = i
        a = o1 * S[0] + k1 * D[0] - P[0]
        e = o2 * S[1] + k2 * D[1] - P[1]
        return ite(
            conj([le(0, a), lt(a, I1), le(0, e), lt(e, I2)]), f((b, c, a, e)), T0
        )

    return new([[B], [C, K[0], K[1]], [O[0], O[1]]], fn, x._dtype, x._device)


def conv_out(span, s):
    return floordiv(span, s) + 1


# ------------------------------------------------------------------ scatter
@op("scatter_add_")
def scatter_add_(t, dim, index, src):
    if rank(t) != 1 or rank(index) != 1 or rank(src) != 1 or dim not in (0, -1):
        raise Unsupported("scatter_add_ beyond one dimension")
    if index._dtype != torch.int64:
        raise RuntimeError("scatter_add_(): Expected dtype int64 for index")
    check_devices(t, index, src)
    if src._dtype != t._dtype:
        raise RuntimeError("scatter(): Expected self.dtype to be equal to src.dtype")
    g = refine([index._groups[0], src._groups[0]])
    if not same_size(sizes(index)[0], sizes(src)[0]):
        raise Unsupported("scatter_add_ with differing sizes")
    fi, fs, old = fnof(index), numfn(src), numfn(t)
    gi, gs = index._groups[0], src._groups[0]
    n = sizes(t)[0]
    vs = tuple(IExpr.var(IVar("q")) for _ in g)
    e = fi(regroup(vs, g, gi))
    rng = [le(0, v) for v in vs] + [lt(v, s) for v, s in zip(vs, g)]
    if not ctx.Prover(path())._unsat(rng + [disj([ge0(-e - 1), le(n, e)])]):
        raise Unsupported("scatter index may be out of bounds")

    def fn(i):
        def rec(j, acc):
            if j == len(g):
                return ite(
                    eq(fi(regroup(acc, g, gi)), i[0]), fs(regroup(acc, g, gs)), T0
                )
            return sum_over(ZERO, g[j], lambda v: rec(j + 1, acc + (v,)), "sc")

        return add([old(i), rec(0, ())])

    write(t, fn)
    return t


@op("scatter_add")
def scatter_add(t, dim, index, src):
    return scatter_add_(clone(t), dim, index, src)


@op("index_add_")
def index_add_(t, dim, index, source, *, alpha=1):
    if alpha != 1:
        raise Unsupported("index_add_ alpha")
    return scatter_add_(t, dim, index, source)


@op("index_add")
def index_add(t, dim, index, source, *, alpha=1):
    return index_add_(clone(t), dim, index, source, alpha=alpha)


@op("index_select")
def index_select(t, dim, index):
    key = [slice(None)] * rank(t)
    key[_dim(t, dim)] = index
    return getitem(t, tuple(key))


@op("gather")
def gather(t, dim, index):
    if rank(t) != 1:
        raise Unsupported("gather")
    return getitem(t, index)


# ------------------------------------------------------------------ misc
@op("__deepcopy__")
def deepcopy_(t, memo):
    r = clone(t)
    memo[id(t)] = r
    return r


@op("__format__", "__repr__", "__str__")
def repr_(t, *a, **k):
    return f"SymTensor({sizes(t)}, {t._dtype})"


@op("stride")
def stride(t, dim=None):
    raise Unsupported("strides")


@op("storage_offset", "untyped_storage")
def storage_offset(t, *a):
    raise Unsupported("storage access")


@op("isinf", "isnan", "isfinite")
def isinf(t):
    raise Unsupported("finiteness test of symbolic values")
