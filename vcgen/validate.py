"""Differential validation of the assumed operation contracts against the real libraries.

While a scenario runs symbolically, every call of a torch / einops / einconv operation is
recorded together with the *value functions* of its arguments and of its results.  At the end
of the path the sizes are fixed to numbers that satisfy the path condition, the elements to
random numbers, the real operation is called on real tensors with these values, and its
results (values, shapes, dtypes, view-or-copy, errors) are compared with what the contract
of the operation promises.  Nothing here decides a property.
"""

import itertools
import math
import random
from fractions import Fraction

import torch

from vcgen import ctx
from vcgen import tensor as T
from vcgen.ops import TRACE
from vcgen.ctx import SymBool, SymInt, SymReal
from vcgen.iexpr import IDiv, IExpr, Unsupported
from vcgen.term import TAdd, TAtom, TFn, TInt, TIte, TMax, TMul, TNum, TPow, TSum, Term

SKIP = {
    "register_hook", "requires_grad_", "requires_grad.__set__", "requires_grad.__get__",
    "is_leaf.__get__", "grad_fn.__get__", "grad.__get__", "grad.__set__", "grad.__delete__",
    "retains_grad.__get__", "data_ptr", "untyped_storage", "_version.__get__", "device.__get__",
    "is_contiguous", "stride", "storage_offset", "__repr__", "__str__", "__format__", "__hash__",
    "is_cuda.__get__", "is_meta.__get__", "layout.__get__", "__deepcopy__", "data.__set__",
    "__iter__", "cpu",
}


class Budget(Exception):
    """Too much work for one comparison."""


# ------------------------------------------------------------------ evaluation
class Valuation:
    def __init__(self, model, seed):
        self.model, self.rng = model, random.Random(seed)
        self.ints, self.atoms, self.reals, self.opaque = {}, {}, {}, {}
        self.steps = 0

    def var(self, v):
        if isinstance(v, IDiv):
            return self.int(v.num) // self.int(v.den)
        if v not in self.ints:
            z = self.model.eval(ctx.z3.Int(v.z3name()), model_completion=True)
            self.ints[v] = z.as_long()
        return self.ints[v]

    def int(self, e):
        e = IExpr.of(e)
        tot = 0
        for m, c in e.terms.items():
            for v in m:
                c = c * self.var(v)
            tot += c
        return tot

    def bool(self, b):
        k = b[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "ge":
            return self.int(b[1]) >= 0
        if k == "eq":
            return self.int(b[1]) == 0
        if k == "not":
            return not self.bool(b[1])
        if k == "and":
            return all(self.bool(x) for x in b[1])
        if k == "or":
            return any(self.bool(x) for x in b[1])
        if k == "opaque":
            z = self.model.eval(ctx.z3.Bool(b[1]), model_completion=True)
            return bool(ctx.z3.is_true(z))
        raise AssertionError(k)

    def atom(self, sym, idx):
        key = (sym.uid, idx)
        if key not in self.atoms:
            x = self.rng.choice([-2.0, -1.0, -0.5, 0.5, 1.0, 1.5, 2.0, 3.0])
            if not idx:
                z = self.model.eval(ctx.z3.Real(f"r_{sym.name}!{sym.uid}"))
                if ctx.z3.is_rational_value(z):
                    x = z.numerator_as_long() / z.denominator_as_long()
            if sym.positive or sym.nonneg:
                x = abs(x)
            self.atoms[key] = x
        return self.atoms[key]

    def term(self, t):
        self.steps += 1
        if self.steps > 400000:
            raise Budget()
        if isinstance(t, TNum):
            return float(t.c)
        if isinstance(t, TInt):
            return float(self.int(t.e))
        if isinstance(t, TAtom):
            return self.atom(t.sym, tuple(self.int(i) for i in t.idx))
        if isinstance(t, TAdd):
            return sum(self.term(x) for x in t.args)
        if isinstance(t, TMul):
            r = 1.0
            for x in t.args:
                r = r * self.term(x)
            return r
        if isinstance(t, TPow):
            b = self.term(t.base)
            if b == 0 and t.e < 0:
                return math.nan
            if b < 0 and Fraction(t.e).denominator != 1:
                return math.nan
            return b ** float(t.e)
        if isinstance(t, TIte):
            return self.term(t.a if self.bool(t.cond) else t.b)
        if isinstance(t, TSum):
            r = 0.0
            old = self.ints.get(t.v)
            for k in range(self.int(t.lo), self.int(t.hi)):
                self.ints[t.v] = k
                r += self.term(t.body)
            self.ints.pop(t.v, None)
            if old is not None:
                self.ints[t.v] = old
            return r
        if isinstance(t, TFn):
            if t.name == "abs":
                return abs(self.term(t.args[0]))
            if t.name == "paren":
                return self.term(t.args[0])
            return math.nan
        if isinstance(t, TMax):
            best = -math.inf
            for bvs, cond, x in t.alts:
                for _ in self._each(list(bvs)):
                    if self.bool(cond):
                        best = max(best, self.term(x))
            return best
        raise AssertionError(type(t))

    def _each(self, bvs):
        if not bvs:
            yield
            return
        v, lo, hi = bvs[0]
        for k in range(self.int(lo), self.int(hi)):
            self.ints[v] = k
            yield from self._each(bvs[1:])
        self.ints.pop(v, None)

    # tensors
    def values(self, ft):
        sizes = [self.int(s) for g in ft.groups for s in g]
        n = 1
        for s in sizes:
            if s < 0:
                raise Budget()
            n *= s
        if n > 3000:
            raise Budget()
        out = []
        guard = ft.guard[1] if ft.guard else None
        if guard is not None and len(sizes) != 2:
            raise Budget()
        for idx in itertools.product(*[range(s) for s in sizes]):
            if guard is not None and not self.bool(guard([IExpr.const(i) for i in idx])):
                continue
            x = ft.fn(tuple(IExpr.const(i) for i in idx))
            if isinstance(x, IExpr):
                out.append(self.int(x))
            elif isinstance(x, tuple):
                out.append(self.bool(x))
            else:
                out.append(self.term(x))
        return out

    def shape(self, ft):
        if ft.guard:
            return [self.int(ft.guard[2])]
        return [self.int(T.prod_e(g)) for g in ft.groups]


class FT:
    """Frozen symbolic tensor: its value before or after a call."""

    def __init__(self, t):
        self.groups = [list(g) for g in t._groups]
        self.stale = T._amb_stale(t)
        f, rd = t._st.fn, t._rd
        self.fn = f if rd is None else (lambda i: f(rd(i)))
        self.dtype, self.device = t._dtype, t._device
        self.st, self.amb, self.contig, self.id = t._st, bool(t._amb), t._contig, id(t)
        self.param = t._is_param
        self.inj = t._inj
        self.guard = getattr(t, "_guard", None)
        self.obj = t


class Entry:
    __slots__ = ("name", "func", "args", "kwargs", "result", "exc", "after", "loops", "where")


def freeze(x):
    if isinstance(x, T.SymTensor):
        return FT(x)
    if isinstance(x, SymBool):
        return ("bool", x)
    if isinstance(x, (list, tuple)):
        r = [freeze(y) for y in x]
        return r if isinstance(x, list) else tuple(r)
    if isinstance(x, dict):
        return {k: freeze(y) for k, y in x.items()}
    return x


def tensors(x):
    if isinstance(x, FT):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from tensors(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from tensors(y)


def mutates(name):
    return name == "__setitem__" or (
        name.endswith("_") and not name.endswith("__") and name != "requires_grad_"
    )


class Trace:
    """Records calls; installed in ``TRACE`` by ``recording``."""

    def __init__(self, limit=400):
        self.entries, self.limit, self.depth = [], limit, 0
        self.count = {}

    def call(self, name, func, args, kwargs, f):
        p = ctx.CUR[0]
        skip = (
            p is None or self.depth or name in SKIP or self.count.get(name, 0) >= self.limit
        )
        if skip:
            return f(*args, **kwargs)
        e = Entry()
        e.name, e.func, e.exc, e.result, e.after = name, func, None, None, []
        e.args, e.kwargs = freeze(args), freeze(kwargs)
        e.loops = [(lp.var, lp.lo, lp.hi) for lp in p.loops]
        dirty = any(
            ft.stale or any(ft.st in lp.writes for lp in p.loops)
            for ft in tensors([e.args, e.kwargs])
        )
        self.depth += 1
        try:
            r = f(*args, **kwargs)
        except (Unsupported, ctx.PathAbort):
            raise
        except Exception as exc:
            e.exc = exc
            if not dirty:
                self._keep(e)
            raise
        finally:
            self.depth -= 1
        e.result = freeze(r)
        if mutates(name) and not p.loops:
            e.after = [FT(ft.obj) for ft in tensors([e.args, e.kwargs])]
        if not dirty and not any(ft.stale for ft in tensors(e.result)):
            self._keep(e)
        return r

    def _keep(self, e):
        self.count[e.name] = self.count.get(e.name, 0) + 1
        self.entries.append(e)


class recording:
    """Context manager: record the calls of operations while a path runs."""

    def __init__(self, limit=400):
        self.trace = Trace(limit)

    def __enter__(self):
        from vcgen import patches

        TRACE[0] = self.trace
        self._table, trace = patches._table, self.trace
        orig = patches._table

        def table():
            import einconv
            import einconv.utils
            import einops

            tab = orig()
            real = {
                id(f): (n, f)
                for n, f in {
                    "einops.rearrange": einops.rearrange,
                    "einops.reduce": einops.reduce,
                    "einops.einsum": einops.einsum,
                    "einconv.index_pattern": einconv.index_pattern,
                    "einconv.get_conv_paddings": einconv.utils.get_conv_paddings,
                    "math.sqrt": math.sqrt,
                }.items()
            }
            out = {}
            for k, g in tab.items():
                if k in real:
                    n, f = real[k]
                    out[k] = lambda *a, _n=n, _f=f, _g=g, **kw: trace.call(_n, _f, a, kw, _g)
                else:
                    out[k] = g
            return out

        patches._table = table
        return self.trace

    def __exit__(self, *a):
        from vcgen import patches

        TRACE[0] = None
        patches._table = self._table


# ------------------------------------------------------------------ models
def random_model(p, rng, cap=4):
    """A model of the path condition with small, varied sizes."""
    s = p.solver
    p._side()
    base = s.num_scopes()
    s.push()
    try:
        if s.check() != ctx.z3.sat:
            return None
        hints = list(p.hints.values())
        rng.shuffle(hints)
        for v in hints:
            z = ctx.z3.Int(v.z3name())
            for _ in range(3):
                s.push()
                s.add(z == rng.choice([1, 2, 2, 3, 3, cap]))
                if s.check() == ctx.z3.sat:
                    break
                s.pop()
        if s.check() != ctx.z3.sat:
            return None
        return s.model()
    finally:
        while s.num_scopes() > base:
            s.pop()


# ------------------------------------------------------------------ comparison
class Mismatch(Exception):
    pass


def _layout(x, ft, rng):
    """The tensor in a layout its contract leaves open."""
    if ft.contig is True or x.dim() == 0 or x.numel() == 0:
        return x
    if rng.random() < 0.5 and x.dim() >= 2:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if rng.random() < 0.3:
        y = torch.zeros([2 * x.shape[0]] + list(x.shape[1:]), dtype=x.dtype)
        y[::2] = x
        return y[::2]
    return x


def _real(x, val, memo, exact, rng):
    """The real argument for a frozen one."""
    if isinstance(x, FT):
        if x.id in memo:
            return memo[x.id]
        v, shape = val.values(x), val.shape(x)
        if exact and x.dtype.is_floating_point:
            dt = torch.float64
        else:
            dt = x.dtype
        r = torch.tensor(v, dtype=torch.float64).reshape(shape).to(dt) if (
            dt.is_floating_point
        ) else torch.tensor(v, dtype=dt).reshape(shape)
        if not memo.get("dense"):
            r = _layout(r, x, rng)
        memo[x.id] = r
        return r
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == "bool":
        raise Budget()
    if isinstance(x, SymInt):
        return val.int(x.iexpr)
    if isinstance(x, SymReal):
        return val.term(x.term)
    if isinstance(x, IExpr):
        return val.int(x)
    if isinstance(x, Term):
        return val.term(x)
    if isinstance(x, torch.device):
        return torch.device("cpu")
    if isinstance(x, torch.dtype) and exact and x.is_floating_point:
        return torch.float64
    if isinstance(x, list):
        return [_real(y, val, memo, exact, rng) for y in x]
    if isinstance(x, tuple):
        return tuple(_real(y, val, memo, exact, rng) for y in x)
    if isinstance(x, dict):
        return {
            k: ("cpu" if k == "device" and y is not None else _real(y, val, memo, exact, rng))
            for k, y in x.items()
        }
    if isinstance(x, slice):
        return slice(*[_real(y, val, memo, exact, rng) for y in (x.start, x.stop, x.step)])
    return x


def _same(want, got, val, exact, label, stats):
    if isinstance(want, FT):
        if not isinstance(got, torch.Tensor):
            raise Mismatch(f"{label}: {type(got).__name__} instead of a tensor")
        if list(got.shape) != val.shape(want):
            raise Mismatch(f"{label}: shape {list(got.shape)}, contract {val.shape(want)}")
        if not exact:
            if got.dtype != want.dtype:
                raise Mismatch(f"{label}: dtype {got.dtype}, contract {want.dtype}")
            return
        v = torch.tensor(val.values(want), dtype=torch.float64).reshape(got.shape)
        g = got.detach().to(torch.float64)
        ok = torch.isfinite(v)
        if v.numel():
            scale = 1 + (v[ok].abs().max().item() if ok.any() else 0.0)
            bad = ok & ((g - v).abs() > 1e-6 * scale) | (ok & ~torch.isfinite(g))
            if bad.any():
                k = tuple(bad.nonzero()[0].tolist())
                raise Mismatch(f"{label}: {g[k].item()} at {k}, contract {v[k].item()}")
        stats["values"] += v.numel()
        return
    if isinstance(want, SymInt):
        if int(got) != val.int(want.iexpr):
            raise Mismatch(f"{label}: {got}, contract {val.int(want.iexpr)}")
        return
    if isinstance(want, SymReal):
        x = val.term(want.term)
        if exact and math.isfinite(x) and abs(float(got) - x) > 1e-6 * (1 + abs(x)):
            raise Mismatch(f"{label}: {got}, contract {x}")
        return
    if isinstance(want, (list, tuple)) and not (want and isinstance(want[0], str)):
        if isinstance(got, torch.Tensor):
            got = list(got)
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            raise Mismatch(f"{label}: {got!r:.80}, contract {len(want)} results")
        for k, (a, b) in enumerate(zip(want, got)):
            _same(a, b, val, exact, f"{label}[{k}]", stats)
        return
    if isinstance(want, torch.dtype):
        if not exact and want != got:
            raise Mismatch(f"{label}: {got}, contract {want}")
        return
    if isinstance(want, bool):
        if bool(got) != want:
            raise Mismatch(f"{label}: {got}, contract {want}")
        return
    if isinstance(want, (int, float)):
        if float(got) != float(want):
            raise Mismatch(f"{label}: {got}, contract {want}")


def _storage(x):
    return x.untyped_storage().data_ptr() if x.numel() else None


def replay(e, model, seed, stats):
    """Compare one recorded call with the real operation.  Raises Mismatch."""
    for exact in (True, False):
        rng = random.Random(seed)
        val = Valuation(model, seed)
        for v, lo, hi in e.loops:
            a, b = val.int(lo), val.int(hi)
            if a >= b:
                raise Budget()
            val.ints[v] = rng.randrange(a, b)
        # layout decided per path
        memo = {"dense": e.name in ("view", "view_as") and e.exc is None}
        args = _real(e.args, val, memo, exact, rng)
        kwargs = _real(e.kwargs, val, memo, exact, rng)
        if e.name in ("zeros", "ones", "eye", "empty", "full") and exact:
            kwargs = dict(kwargs, dtype=kwargs.get("dtype") or torch.float64)
        old = torch.get_default_dtype()
        try:
            with torch.no_grad(), torch._C.DisableTorchFunctionSubclass():
                got = e.func(*args, **kwargs)
        except Exception as exc:
            if e.exc is None:
                if not exact and "not implemented for" in str(exc):
                    continue
                raise Mismatch(f"raises {type(exc).__name__}: {exc}, contract does not") from None
            if not exact and not isinstance(exc, type(e.exc)) and not isinstance(e.exc, type(exc)):
                raise Mismatch(
                    f"raises {type(exc).__name__}: {exc}, contract {type(e.exc).__name__}"
                ) from None
            continue
        finally:
            torch.set_default_dtype(old)
        if e.exc is not None and exact:
            continue  # may be about precisions
        if e.exc is not None and e.name in ("view", "view_as"):
            continue
        if e.exc is not None:
            raise Mismatch(f"does not raise, contract {type(e.exc).__name__}: {e.exc}")
        if e.name not in ("empty", "empty_like", "new_empty"):
            _same(e.result, got, val, exact, "result", stats)
        elif not exact or list(got.shape) != val.shape(e.result):
            _same(e.result, got, val, False, "result", stats)
        for k, ft in enumerate(e.after):
            if k and ft.st is e.after[0].st:
                continue  # another view of what was written
            _same(ft, memo[ft.id], val, exact, f"argument {k} afterwards", stats)
        if isinstance(e.result, FT) and isinstance(got, torch.Tensor) and e.result.contig is True:
            if not got.is_contiguous():
                raise Mismatch("is not contiguous, contract the opposite")
        if isinstance(e.result, FT) and isinstance(got, torch.Tensor) and not e.result.amb:
            for ft in tensors([e.args, e.kwargs]):
                a, b = _storage(got), _storage(memo[ft.id])
                if ft.amb or a is None or b is None:
                    continue
                if e.after and ft.id != e.after[0].id:
                    continue
                # a contiguous() or to() that returns its argument is decided per path
                if (a == b) != (ft.st is e.result.st) and not _maybe_alias(e, ft, exact):
                    raise Mismatch(
                        f"{'shares' if a == b else 'does not share'} memory with an argument, "
                        "contract the opposite"
                    )
        if e.exc is None and exact:
            stats["calls"] += 1


def _maybe_alias(e, ft, exact):
    # conversions of precision: the float64 run changes whether a copy is needed
    return exact and e.name in (
        "to", "type", "float", "double", "half", "bfloat16", "type_as", "as_tensor", "long",
    ) or (e.name == "contiguous" and ft.contig is not True)  # both are considered


def _noproof():
    from vcgen import env as E

    class NoProof(E.SymEnv):
        """Runs a contract without discharging anything."""

        def _prove_bool(self, label, b):
            self._ob(label, "proved")

        def eq(self, *a, **k):
            return True

        def _ob(self, label, status, *a, **k):
            self.obs.append(E.Ob(label, "proved"))

    return NoProof


def validate(run, seed=0, rounds=2, limit=400, max_paths=40, time_limit=60.0):
    """Run ``run(env)`` symbolically, recording; compare every recorded call.

    Returns (stats, mismatches)."""
    import time

    from vcgen import env as E
    from vcgen import ops, patches

    stats = {"calls": 0, "values": 0, "skipped": 0, "paths": 0, "ops": {}}
    bad, work = [], [()]
    _NoProof = _noproof()
    t0 = time.time()
    rng = random.Random(seed)
    while work and stats["paths"] < max_paths and time.time() - t0 < time_limit:
        prefix = work.pop()
        stats["paths"] += 1
        p = ctx.Path(prefix)
        ctx.CUR[0] = p
        env = _NoProof(p, [])
        rec = recording(limit)
        dead = False
        try:
            with rec, patches.applied(), ops.Mode():
                run(env)
        except ctx.PathAbort:
            dead = True
        except Unsupported as e:
            stats.setdefault("unsupported", []).append(str(e)[:100])
        except Exception as e:
            stats.setdefault("errors", []).append(f"{type(e).__name__}: {e}"[:200])
        try:
            if not dead:
                for r in range(rounds):
                    model = random_model(p, rng)
                    if model is None:
                        break
                    for e in rec.trace.entries:
                        try:
                            replay(e, model, rng.randrange(1 << 30), stats)
                            stats["ops"][e.name] = stats["ops"].get(e.name, 0) + 1
                        except Budget:
                            stats["skipped"] += 1
                        except Mismatch as m:
                            bad.append(f"{e.name}: {m}")
        finally:
            ctx.CUR[0] = None
        work.extend(p.alternates)
    stats["time"] = time.time() - t0
    return stats, bad
