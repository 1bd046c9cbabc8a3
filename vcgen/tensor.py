"""Symbolic tensors: value functions over symbolic index spaces, with storage and views.

Every operation below is an *assumed contract* of torch (semantics over exact reals).
"""

import dis
import functools
import itertools
import sys
import types
from fractions import Fraction

import torch

from vcgen import ctx
from vcgen.ctx import SymBool, SymInt, SymReal, is_sym_scalar, mkint, mkreal, path
from vcgen.iexpr import (
    FALSE,
    ONE,
    TRUE,
    ZERO,
    IExpr,
    IVar,
    Unsupported,
    bsubst,
    bvars_of,
    conj,
    disj,
    divexact,
    eq,
    eq0,
    floordiv,
    le,
    lt,
    mod,
    neg,
)
from vcgen.term import (
    T0,
    T1,
    Sym,
    TAtom,
    TFn,
    TMax,
    Term,
    add,
    ite,
    mul,
    num,
    power,
    sum_over,
    tint,
    to_term,
    tsum,
)

_ids = itertools.count(1)
_ptr = itertools.count(0x1000, 64)
INT_DTYPES = (torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8)


class SymSize(tuple):
    """Stand-in for torch.Size with symbolic entries."""

    def numel(self):
        r = 1
        for s in self:
            r = r * s
        return r

    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return SymSize(r) if isinstance(k, slice) else r

    def __eq__(self, o):
        if not isinstance(o, (tuple, list)) or len(self) != len(o):
            return False
        return all(bool(a == b) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(hash(x) for x in self))

    def __add__(self, o):
        return SymSize(tuple(self) + tuple(o))


class Storage:
    def __init__(self, sizes, fn):
        self.sizes = [IExpr.of(s) for s in sizes]
        self.fn = fn
        self.version = 0
        self.ptr = next(_ptr)
        self.creation_loop = len(path().loops) if ctx.CUR[0] is not None else 0


class Amb:
    """A tensor that is either a view or a copy of its base, depending on strides."""

    def __init__(self, st):
        self.st, self.fn, self.version = st, st.fn, st.version
        self.decided = None
        self.clone = None

    def resolve(self):
        if self.decided is None:
            p = path()
            if p.loops:
                raise Unsupported("a maybe-view must be resolved inside a summarised loop")
            self.decided = "view" if p.decide_opaque(("view", id(self))) else "copy"
            _keep.append(self)
        return self.decided


_keep = []


class SymTensor(torch.Tensor):
    _is_symtensor = True

    @staticmethod
    def __new__(cls, scalar=False):
        # the argument parser of torch accepts 0-d tensors as numbers
        return torch.Tensor._make_subclass(cls, torch.empty(() if scalar else 0))

    def __init__(self, *a, **k):
        pass

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from vcgen import ops

        return ops.dispatch(func, args, kwargs or {})

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return f"SymTensor({[prod_e(g) for g in self._groups]}, {self._dtype})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        if id(self) not in memo:
            r = memo[id(self)] = clone(self)
            r._req = self._req
            if getattr(self, "_is_param", False):
                r._is_param = True
        return memo[id(self)]


def prod_e(g):
    r = ONE
    for s in g:
        r = r * s
    return r


def new(groups, fn, dtype, device, *, contig="unknown"):
    """Fresh tensor. ``groups``: list of lists of atomic sizes; fn: atomic indices -> value."""
    groups = [[IExpr.of(s) for s in g] for g in groups]
    t = SymTensor(not groups)
    t._groups = groups
    atoms = [s for g in groups for s in g]
    t._st = Storage(atoms, fn)
    t._rd = None  # identity
    t._wr = None
    t._view = False
    t._dtype = dtype
    t._device = torch.device(device) if not isinstance(device, torch.device) else device
    t._contig = contig
    t._strides = _row_major(atoms) if contig is True else None
    t._offset = ZERO
    t._amb = ()
    t._req = False
    t._grad = None
    t._hooks = []
    t._id = next(_ids)
    t._inj = True
    t._is_param = False
    return t


def _row_major(atoms):
    st, acc = [], ONE
    for s in reversed(atoms):
        st.append(acc)
        acc = acc * s
    return list(reversed(st))


def view(base, groups, rd, wr, *, strides=None, contig=None, ambiguous=False, inj=True):
    """View on base's storage.  rd: view idx -> base *tensor* idx; wr: base idx -> (cond, view idx)."""
    t = SymTensor(not groups)
    t._groups = [[IExpr.of(s) for s in g] for g in groups]
    t._st = base._st
    b_rd, b_wr = base._rd, base._wr
    t._rd = (lambda i: b_rd(rd(i))) if b_rd is not None else rd
    if wr is None or (base._wr is None and base._view):
        t._wr = None
    elif b_wr is None:
        t._wr = wr
    else:

        def comp(s):
            c1, i1 = b_wr(s)
            c2, i2 = wr(i1)
            return conj([c1, c2]), i2

        t._wr = comp
    t._view = True
    t._dtype, t._device = base._dtype, base._device
    t._contig = "unknown" if contig is None else contig
    t._strides = strides
    t._offset = ZERO
    t._amb = base._amb
    if ambiguous:
        if _amb_stale(base):
            resolve(base)
            t._st, t._amb = base._st, base._amb
        t._amb = t._amb + (Amb(t._st),)
    t._req = base._req
    t._grad = None
    t._hooks = []
    t._id = next(_ids)
    t._inj = inj and base._inj
    t._is_param = False
    return t


def natoms(t):
    return sum(len(g) for g in t._groups)


def rank(t):
    return len(t._groups)


def sizes(t):
    """Logical sizes as IExpr."""
    return [prod_e(g) for g in t._groups]


def shape(t):
    out = []
    for g in t._groups:
        n = mkint(prod_e(g))
        if isinstance(n, SymInt) and len(g) > 1:
            n.group = tuple(g)
        out.append(n)
    return SymSize(out)


def is_int(t):
    return t._dtype in INT_DTYPES


def is_bool(t):
    return t._dtype == torch.bool


def fnof(t):
    """Snapshot of the tensor's value as a function of its atomic indices."""
    if _amb_stale(t):
        resolve(t)
    _loop_read(t)
    f, rd = t._st.fn, t._rd
    if rd is None:
        return f
    return lambda i: f(rd(i))


def _amb_stale(t):
    return any(
        a.decided is not None or a.version != t._st.version or a.st is not t._st for a in t._amb
    )


def resolve(t):
    """Decide for every maybe-view in t's history whether it is one (both are considered)."""
    for a in t._amb:
        if a.resolve() == "copy":
            if t._view and t._wr is None:
                # not writable as a view: an own copy (of this tensor only)
                if a.clone is not None:
                    raise Unsupported("several tensors share a maybe-copy")
                rd, fn = t._rd, a.fn
                a.clone = "own"
                t._st = Storage([s for g in t._groups for s in g], lambda i: fn(rd(i)))
                t._rd = t._wr = None
                t._view, t._inj = False, True
                continue
            if a.clone == "own":
                raise Unsupported("several tensors share a maybe-copy")
            if a.clone is None:
                a.clone = Storage(a.st.sizes, a.fn)
            t._st = a.clone
            t._inj = True
    t._amb = ()


def numfn(t):
    """Like fnof but always Terms."""
    f = fnof(t)
    if is_int(t):
        return lambda i: tint(f(i))
    if is_bool(t):
        return lambda i: ite(f(i), T1, T0)
    return f


def term0(t):
    """Value of a one-element tensor."""
    idx = tuple(ZERO for _ in range(natoms(t)))
    for s in sizes(t):
        if s.const_value() != 1:
            raise Unsupported("scalar value of a non-scalar tensor")
    return numfn(t)(idx)


# ------------------------------------------------------------------ loops
class Loop:
    def __init__(self, var, lo, hi):
        self.var, self.lo, self.hi = var, lo, hi
        self.writes = {}  # storage -> (old fn, cond fn, value fn)
        self.reads = {}  # storage -> list of (rd)


def _loop_read(t):
    p = ctx.CUR[0]
    if p is None or not p.loops:
        return
    for lp in p.loops:
        if t._st in lp.writes:
            raise Unsupported("loop body reads a tensor it has written")


def sym_range(*args):
    """Replacement of ``range`` in the code under test."""
    if not any(isinstance(a, SymInt) for a in args):
        return range(*[int(a) if not isinstance(a, SymInt) else a for a in args])
    if len(args) == 1:
        lo, hi, step = ZERO, IExpr.of(args[0]), 1
    else:
        lo, hi = IExpr.of(args[0]), IExpr.of(args[1])
        step = args[2] if len(args) == 3 else 1
    if isinstance(step, SymInt) or step != 1:
        raise Unsupported("symbolic range with a step")
    return SymRange(lo, hi)


class Poison:
    """A local variable whose value would be carried from one iteration to the next."""

    def _no(self, *a, **kw):
        raise Unsupported("value carried from one iteration of a summarised loop to the next")

    __getattr__ = __getitem__ = __iter__ = __len__ = __bool__ = __call__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __matmul__ = __rmatmul__ = _no
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __neg__ = __eq__ = __lt__ = __le__ = _no
    __gt__ = __ge__ = __ne__ = __index__ = __int__ = __float__ = __setitem__ = __contains__ = _no
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __pow__ = _no
    __hash__ = object.__hash__

    @classmethod
    def __torch_function__(cls, *a, **kw):
        raise Unsupported("value carried from one iteration of a summarised loop to the next")


class LoopRestart(BaseException):
    """Run the path again with what was learnt about the locals a loop changes."""


CARRIED = {}  # (code, line, number) -> {name: IExpr increment or None}; reset by env.prove


def _set_local(frame, name, value):
    import ctypes

    frame.f_locals[name] = value
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def _shallow(x):
    """What a loop body must not change in an object it can reach directly."""
    if isinstance(x, SymTensor) or isinstance(x, (type, types.FunctionType, types.ModuleType)):
        return None
    if isinstance(x, (list, set)):
        return [id(y) for y in x]
    if isinstance(x, dict):
        return [(id(k), id(y)) for k, y in x.items()]
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict):
        return [(k, id(y), _shallow(y) if isinstance(y, (list, dict, set)) else 0) for k, y in d.items()]
    return None


class SymRange:
    """Iteration over a number of items that is not a constant: one arbitrary iteration is run."""

    def __init__(self, lo, hi, item=None):
        self.lo, self.hi, self.item = lo, hi, item or (lambda i: i)

    def __len__(self):
        raise Unsupported("len of a symbolic range")

    def __iter__(self):
        return _iterate(self)


@functools.lru_cache(maxsize=None)
def _loop_form(code, lasti):
    """(Why the instruction is not the head of a for statement or None, its offset)."""
    ins = list(dis.get_instructions(code, show_caches=True))
    # a specialised FOR_ITER reports the position of its inline cache
    real = max((x.offset for x in ins if x.offset <= lasti and x.opname != "CACHE"), default=-1)
    return _form(ins, real), real


def _form(ins, lasti):
    at = [x for x in ins if x.offset == lasti]
    if not at or at[0].opname != "FOR_ITER":
        return "a sequence of symbolic length is built"
    for x in ins:
        if lasti < x.offset < at[0].argval and x.opname in (
            "LIST_APPEND",
            "SET_ADD",
            "MAP_ADD",
            "YIELD_VALUE",
        ):
            # an inner comprehension over a concrete sequence is fine
            inner = [y for y in ins if y.opname == "FOR_ITER" and lasti < y.offset < x.offset < y.argval]
            if not inner or x.opname == "YIELD_VALUE":
                return "a comprehension over a sequence of symbolic length"
    return None


def _iterate(rng):
    frame = sys._getframe(1)
    p = path()
    if not p.decide(lt(rng.lo, rng.hi)):
        return
    if (rng.hi - rng.lo).const_value() == 1:
        yield rng.item(mkint(rng.lo))
        return
    form, lasti = _loop_form(frame.f_code, frame.f_lasti)
    if form is not None:
        raise Unsupported(form)
    v = IVar("it")
    before = dict(frame.f_locals)
    shallow = {k: _shallow(x) for k, x in before.items()}
    lp = Loop(v, rng.lo, rng.hi)
    nf = len(p.facts)
    p.solver.push()
    p.assume(le(rng.lo, IExpr.var(v)))
    p.assume(lt(IExpr.var(v), rng.hi))
    p.loops.append(lp)
    p.loop_vars.append(v)
    key = (frame.f_code, lasti)
    carried = CARRIED.setdefault(key, {})
    entry = {}
    for k, delta in carried.items():
        if k not in before:
            continue
        if delta is None:
            entry[k] = Poison()
        else:
            entry[k] = mkint(IExpr.of(before[k]) + delta * (IExpr.var(v) - rng.lo))
        _set_local(frame, k, entry[k])
    finished = False
    item = rng.item(SymInt(IExpr.var(v)))
    parts = [item] + (list(item) if isinstance(item, tuple) else [])
    try:
        yield item
        finished = True
    finally:
        p.loops.pop()
        p.loop_vars.pop()
        p.closed_vars.add(v)
        if not finished:
            p.bad_loop = True
    after = dict(frame.f_locals)
    again = False
    for k, x in before.items():
        if k not in after or after[k] is entry.get(k, x):
            if k in carried and carried[k] is not None and k in after:
                raise Unsupported(f"loop-carried local variable {k!r}")
            if shallow[k] is not None and _shallow(x) != shallow[k]:
                raise Unsupported(f"a summarised loop changes {k!r}")
            continue
        if any(after[k] is y for y in parts):
            continue
        if k not in carried:
            carried[k] = None
            if _intlike(x) and _intlike(after[k]):
                d = IExpr.of(after[k]) - IExpr.of(x)
                if v not in d.vars():
                    carried[k] = d
            again = True
            if carried[k] is None and x is None:
                raise Unsupported(f"loop-carried local variable {k!r}")
        elif carried[k] is not None:
            if not _intlike(after[k]) or IExpr.of(after[k]) - IExpr.of(entry[k]) != carried[k]:
                raise Unsupported(f"loop-carried local variable {k!r}")
    if again:
        raise LoopRestart()
    for k, delta in carried.items():
        if k in entry:
            end = Poison() if delta is None else mkint(IExpr.of(before[k]) + delta * (rng.hi - rng.lo))
            _set_local(frame, k, end)
    # remove the two range facts
    p.facts = p.facts[:nf] + p.facts[nf + 2 :]
    extra = p.facts[nf:]
    p.solver.pop()
    for b in extra:
        p.solver.add(p.conv.b(b))
    for side in p.conv.side:
        p.solver.add(side)
    _summarise(p, lp)


def _intlike(x):
    return isinstance(x, int) and not isinstance(x, bool)


def sym_enumerate(it, start=0):
    """Replacement of ``enumerate`` in the code under test."""
    r = sym_iter(it)
    if r is None:
        return enumerate(it, start)
    return SymRange(r.lo, r.hi, lambda i: (mkint(IExpr.of(i) - r.lo + IExpr.of(start)), r.item(i)))


def sym_zip(*its, **kw):
    """Replacement of ``zip`` in the code under test."""
    rs = [sym_iter(it) for it in its]
    if all(r is None for r in rs):
        return zip(*its, **kw)
    if any(r is None for r in rs) or kw:
        raise Unsupported("zip of symbolic and concrete iterables")
    n = rs[0].hi - rs[0].lo
    if any(not same_size(r.hi - r.lo, n) for r in rs[1:]):
        raise Unsupported("zip of iterables of different symbolic length")
    return SymRange(ZERO, n, lambda i: tuple(r.item(mkint(IExpr.of(i) + r.lo)) for r in rs))


def sym_iter(it):
    if isinstance(it, SymRange):
        return it
    if isinstance(it, SymTensor) and it.dim() > 0:
        n = IExpr.of(it.shape[0])
        if n.const_value() is None:
            return SymRange(ZERO, n, lambda i: it[i])
    return None


def _summarise(p, lp):
    for st, (old, cond, val) in lp.writes.items():
        v = lp.var
        # writes of different iterations must not overlap
        w = IVar("it2")
        base = [IVar("c") for _ in st.sizes]
        bidx = tuple(IExpr.var(b) for b in base)
        ev = IExpr.var(v)
        ew = IExpr.var(w)
        c1 = cond(bidx)
        c2 = bsubst(c1, {v: ew})
        query = [
            c1,
            c2,
            lt(ev, ew),
            le(lp.lo, ev),
            lt(ew, lp.hi),
        ] + [le(ZERO, b) for b in bidx] + [lt(b, s) for b, s in zip(bidx, st.sizes)]
        if not ctx.Prover(p)._unsat(query):
            raise Unsupported("writes of different loop iterations may overlap")
        lo, hi = lp.lo, lp.hi

        def fn(i, old=old, cond=cond, val=val, v=v, lo=lo, hi=hi):
            k = IVar(v.name)
            mp = {v: IExpr.var(k)}
            c = bsubst(cond(i), mp)
            o = old(i)
            if not isinstance(o, Term):
                raise Unsupported("integer tensor written in a symbolic loop")
            d = val(i).subst(mp) - o
            return add([o, tsum(k, lo, hi, ite(c, d, T0))])

        if p.loops:
            raise Unsupported("nested symbolic loops")
        st.fn = fn
        st.version += 1


# ------------------------------------------------------------------ writes
def write(t, valfn):
    """In-place overwrite of all elements of (the view) t by valfn(atomic idx)."""
    p = path()
    st = t._st
    if t._amb:
        resolve(t)
        st = t._st
    if not t._inj:
        raise RuntimeError(
            "unsupported operation: more than one element of the written-to tensor refers to a single memory location."
        )
    if t._view and t._wr is None:
        raise Unsupported("in-place write through a non-invertible view")
    if t._req and t._is_param and not getattr(p, "allow_leaf_writes", False):
        if torch.is_grad_enabled():
            raise RuntimeError(
                "a leaf Variable that requires grad is being used in an in-place operation."
            )
    wr = t._wr
    old = st.fn
    if p.loops:
        lp = p.loops[-1]
        if len(p.loops) > 1:
            raise Unsupported("nested symbolic loops")
        if st.creation_loop < len(p.loops):
            if st in lp.writes:
                raise Unsupported("several writes to one tensor in a loop body")
            cond = (lambda i: TRUE) if wr is None else (lambda i: wr(i)[0])
            val = valfn if wr is None else (lambda i: valfn(wr(i)[1]))
            lp.writes[st] = (old, cond, val)
            return
    if wr is None:
        st.fn = valfn
    else:

        def f(i):
            c, vi = wr(i)
            if c == FALSE:
                return old(i)
            new_ = valfn(vi)
            if c == TRUE:
                return new_
            o = old(i)
            if isinstance(new_, IExpr) or isinstance(o, IExpr):
                raise Unsupported("partial write to an integer tensor")
            if isinstance(new_, tuple) or isinstance(o, tuple):
                return disj([conj([c, new_]), conj([neg(c), o])])
            return ite(c, new_, o)

        st.fn = f
    st.version += 1


# ------------------------------------------------------------------ broadcasting
def same_size(a, b):
    return a == b or path().decide(eq(a, b))


def refine(groups_list):
    """Common refinement of the index groups of one logical dimension (equal total size)."""
    best = max(groups_list, key=len)
    for g in groups_list:
        if len(g) > 1 and len(g) == len(best) and any(
            x != y and not path().known(eq(x, y)) for x, y in zip(g, best)
        ):
            raise Unsupported("incompatible index groupings")
        if 1 < len(g) < len(best):
            raise Unsupported("incompatible index groupings")
    return best


def regroup(idx_fine, g_fine, g_coarse):
    """Index for the coarse grouping given indices in the fine grouping."""
    if len(g_fine) == len(g_coarse):
        return tuple(idx_fine)
    if len(g_coarse) == 0:
        return ()
    assert len(g_coarse) == 1
    e = ZERO
    for i, s in zip(idx_fine, g_fine):
        e = e * s + i
    return (e,)


def broadcast(*ts):
    """(groups, index maps) for the broadcast of tensors (groups lists)."""
    n = max(len(g) for g in ts)
    out, plans = [], [[] for _ in ts]
    for d in range(n):
        entries = []
        for k, g in enumerate(ts):
            j = d - (n - len(g))
            entries.append(g[j] if j >= 0 else None)
        full = [(k, e) for k, e in enumerate(entries) if e is not None]
        ref = None
        big = []
        for k, e in full:
            s = prod_e(e)
            if s.const_value() == 1:
                continue
            big.append((k, e, s))
        if big:
            s0 = big[0][2]
            keep = []
            for k, e, s in big:
                if same_size(s, s0):
                    keep.append((k, e))
                elif path().decide(eq(s, 1)):
                    continue
                elif path().decide(eq(s0, 1)):
                    s0 = s
                    keep = [(k, e)]
                else:
                    raise RuntimeError(
                        f"The size of tensor a ({s0}) must match the size of tensor b ({s}) at non-singleton dimension {d}"
                    )
            ref = refine([e for _, e in keep])
            kept = {k for k, _ in keep}
        else:
            ref = [ONE]
            kept = {k for k, _ in full}
        out.append(list(ref))
        for k, e in enumerate(entries):
            if e is None:
                plans[k].append(None)
            elif k in kept:
                plans[k].append(("same", e))
            else:
                plans[k].append(("one", e))
    spans = []
    pos = 0
    for g in out:
        spans.append((pos, pos + len(g)))
        pos += len(g)

    def mapper(k):
        def m(i):
            r = ()
            for d, pl in enumerate(plans[k]):
                if pl is None:
                    continue
                a, b = spans[d]
                if pl[0] == "one":
                    r += tuple(ZERO for _ in pl[1])
                else:
                    r += regroup(i[a:b], out[d], pl[1])
            return r

        return m

    return out, [mapper(k) for k in range(len(ts))]


def result_dtype(a, b):
    def proxy(x):
        if isinstance(x, SymTensor):
            return torch.empty((1,) * rank(x), dtype=x._dtype)
        if isinstance(x, torch.Tensor):
            return torch.empty((1,) * x.dim(), dtype=x.dtype)
        if isinstance(x, bool):
            return True
        if isinstance(x, (SymInt, int)):
            return 1
        return 1.0

    with torch._C.DisableTorchFunction():
        return torch.result_type(proxy(a), proxy(b))


def check_devices(*ts):
    devs = {}
    for t in ts:
        if isinstance(t, SymTensor):
            if rank(t) == 0 and t._device.type == "cpu":
                continue  # zero-dim CPU tensors mix with any device
            devs.setdefault(str(t._device), t)
    if len(devs) > 1:
        raise RuntimeError(
            f"Expected all tensors to be on the same device, but found at least two devices, {sorted(devs)}!"
        )


def as_sym(x, like=None):
    """Tensor operand from a real tensor."""
    if isinstance(x, SymTensor):
        return x
    if isinstance(x, torch.Tensor):
        with torch._C.DisableTorchFunction():
            if x.numel() > 64:
                raise Unsupported("large concrete tensor mixed with symbolic ones")
            vals = x.detach().cpu().reshape(-1).tolist()
            shp = list(x.shape)
        strides = _row_major([IExpr.const(s) for s in shp])
        isint = x.dtype in INT_DTYPES

        def fn(i):
            flat = ZERO
            for e, s in zip(i, strides):
                flat = flat + e * s
            c = flat.const_value()
            if c is not None:
                return IExpr.const(vals[c]) if isint else to_term(vals[c])
            if isint:
                raise Unsupported("symbolic index into a concrete integer tensor")
            r = T0
            for k, v in enumerate(vals):
                r = add([r, ite(eq(flat, k), to_term(v), T0)])
            return r

        return new([[IExpr.const(s)] for s in shp], fn, x.dtype, x.device, contig=True)
    raise Unsupported(f"not a tensor: {type(x)}")


def clone(t, **kw):
    f = fnof(t)
    r = new([list(g) for g in t._groups], f, t._dtype, t._device, contig=t._contig)
    r._strides = t._strides if t._contig is True else None
    return r
