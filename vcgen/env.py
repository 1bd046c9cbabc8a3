"""Scenarios (contracts) and their two interpretations.

A contract is one Python function ``f(env, **params)``.  It makes arbitrary inputs with
``env.int``, ``env.tensor`` ..., calls the real code and states postconditions with
``env.eq``, ``env.check`` ...  ``SymEnv`` turns every postcondition into proof obligations
over all inputs (one per control-flow path), ``ConEnv`` runs the same contract on concrete
values against the unpatched code (replay of counterexamples, bounded search).
"""

import contextlib
import random
import signal
import sys
import threading
import traceback
import warnings
import zlib

import torch

from vcgen import ctx
from vcgen import tensor as T
from vcgen.ctx import Path, Prover, SymBool, SymInt, SymReal, mkint
from vcgen.iexpr import IExpr, IVar, Unsupported, conj, disj, eq, ge0, le, lt, neg
from vcgen.iexpr import FALSE, TRUE
from vcgen.tensor import CARRIED, LoopRestart
from vcgen.term import Sym, TAtom, Term, ite, num, to_term, tsum

SIZE_CAP = 300


@contextlib.contextmanager
def _quiet():
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("ignore")
        yield


class Skip(Exception):
    """The concrete input does not satisfy the precondition."""


class TooLarge(Exception):
    pass


SCENARIOS = {}


class Scenario:
    def __init__(self, props, fn, params, funcs, level, near, n_conc, note):
        self.props, self.fn, self.params = props, fn, params
        self.funcs, self.level, self.near = funcs, level, near
        self.name = fn.__name__
        self.n_conc = n_conc
        self.note = note


def scenario(*props, params=({},), funcs=(), level="proof", near=(), n_conc=4, note=""):
    def deco(fn):
        s = Scenario(props, fn, list(params), list(funcs), level, near, n_conc, note)
        assert s.name not in SCENARIOS, s.name
        SCENARIOS[s.name] = s
        return fn

    return deco


class Ob:
    __slots__ = ("label", "status", "backend", "why", "model", "time")

    def __init__(self, label, status, backend="", why="", model=None):
        self.label, self.status, self.backend = label, status, backend
        self.why, self.model = why, model

    def as_dict(self):
        return dict(
            label=self.label,
            status=self.status,
            backend=self.backend,
            why=self.why,
            model=self.model,
        )


# ------------------------------------------------------------------ symbolic
class SymEnv:
    symbolic = True

    def __init__(self, p, obs):
        self.p, self.obs = p, obs
        self.choices = {}
        self.syms = None

    # inputs
    def int(self, name, lo=None, hi=None):
        v = IVar(name)
        e = IExpr.var(v)
        if lo is not None:
            self.p.assume(le(IExpr.of(lo), e))
        if hi is not None:
            self.p.assume(le(e, IExpr.of(hi)))
        self.p.hints[name] = v
        return mkint(e)

    def share(self):
        """From now on, inputs of the same name are the same (relational contracts)."""
        self.syms = {}

    def _sym(self, name):
        if self.syms is None:
            return Sym(name)
        if name not in self.syms:
            self.syms[name] = Sym(name)
        return self.syms[name]

    def real(self, name, positive=False, nonneg=False):
        s = Sym(name, positive=positive, nonneg=nonneg)
        self.p.reals[name] = s
        return SymReal(TAtom(s, ()))

    def choice(self, name, options):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            if self.p.fork():
                self.choices[name] = k
                return o
        self.choices[name] = len(options) - 1
        return options[-1]

    def device(self, name="dev"):
        return torch.device("cuda:3")

    def assume(self, cond):
        b = self._b(cond)
        self.p.assume(b)
        if b == FALSE or self.p.sat(TRUE) == ctx.z3.unsat:
            raise ctx.PathAbort()

    def tensor(self, name, shape, dtype=torch.float32, device="cpu", grad=False, param=False):
        s = self._sym(name)
        groups = self._groups(shape)
        t = T.new(groups, lambda i: TAtom(s, i), dtype, device)
        t._st.gappy = True
        if param:
            t._is_param = True
            t._contig = True
            t._strides = T._row_major([x for g in groups for x in g])
        t._req = grad
        return t

    def sharded(self, name, shape, rank, dtype=torch.float32):
        """A tensor with a different value on every process."""
        s = self._sym(name)
        t = T.new(self._groups(shape), lambda i: TAtom(s, (rank,) + tuple(i)), dtype, "cpu")
        t._st.gappy = True
        return t

    def _groups(self, shape):
        from vcgen import ops

        out = []
        for x in shape:
            if isinstance(x, tuple):
                out.append([IExpr.of(y) for y in x])
            else:
                out += ops._groups_of([x])
        return out

    def world(self):
        from vcgen.world import SymWorld

        return SymWorld(self)

    processes = world

    # values for reference results
    def at(self, t, *idx):
        if t.device.type == "meta":  # no values; only shapes and kinds are compared
            return 0.0
        flat = []
        for k, i in enumerate(idx):
            if isinstance(i, tuple):
                flat += [IExpr.of(x) for x in i]
            else:
                g = t._groups[k]
                if len(g) != 1:
                    raise Unsupported("flat index into a composed dimension")
                flat.append(IExpr.of(i))
        return T.numfn(t)(tuple(flat))

    def build(self, shape, fn, dtype=torch.float32, device="cpu"):
        groups = self._groups(shape)

        def f(i):
            args, pos = [], 0
            for g in groups:
                part = [mkint(x) for x in i[pos : pos + len(g)]]
                pos += len(g)
                args.append(part[0] if len(g) == 1 else tuple(part))
            return to_term(fn(*args))

        return T.new(groups, f, dtype, device)

    def sum(self, lo, hi, fn):
        v = IVar("s")
        lo, hi = IExpr.of(lo), IExpr.of(hi)
        return tsum(v, lo, hi, to_term(fn(mkint(IExpr.var(v)))))

    def ite(self, c, a, b):
        c = self._b(c)
        if c == TRUE:
            return to_term(a() if callable(a) else a)
        if c == FALSE:
            return to_term(b() if callable(b) else b)
        return ite(
            c, to_term(a() if callable(a) else a), to_term(b() if callable(b) else b)
        )

    def mm(self, *ts):
        r = ts[0]
        for t in ts[1:]:
            r = r @ t
        return r

    def lin(self, *terms):
        """Sum of (coefficient, tensor) pairs."""
        r = None
        for c, t in terms:
            x = t if isinstance(c, (int, float)) and not isinstance(c, SymReal) and c == 1 else t * c
            r = x if r is None else r + x
        return r

    def tr(self, t):
        return t.T

    def identity(self, n):
        return torch.eye(n)

    def avgtr(self, t):
        return t.diag().mean().item()

    def maxabs(self, t):
        return t.abs().max().item()

    def max(self, *xs):
        from vcgen import ops

        return ops.sym_max(*xs)

    def scalar(self, x):
        """0-d tensor holding a number."""
        e = to_term(x)
        return T.new([], lambda i: e, torch.float32, "cpu")

    def quiet(self):
        return _quiet()

    def all(self, *cs):
        return SymBool(conj([self._b(c) for c in cs]))

    def any(self, *cs):
        return SymBool(disj([self._b(c) for c in cs]))

    def not_(self, c):
        return SymBool(neg(self._b(c)))

    def prod(self, xs):
        r = 1
        for x in xs:
            r = r * x
        return r

    def num(self, x):
        return to_term(x)

    def sqrt(self, x):
        from vcgen.term import power
        from fractions import Fraction

        return power(to_term(x), Fraction(1, 2))

    def _b(self, c):
        if isinstance(c, SymBool):
            if c.real is not None:
                return TRUE if bool(c) else FALSE
            return c.b
        if isinstance(c, bool):
            return TRUE if c else FALSE
        if c is None:
            return FALSE
        raise Unsupported(f"condition {c!r}")

    # obligations
    def _ob(self, label, status, backend="", why="", model=None):
        if status == "refuted" and model is None:
            model = self.p.model() or {}
        if model is not None:
            model = dict(model)
            model["_choices"] = dict(self.choices)
        self.obs.append(Ob(label, status, backend, why, model))

    def fail(self, label, why=""):
        self._ob(label, "refuted", "path", why)

    def check(self, label, cond, why=""):
        if isinstance(cond, SymBool) and cond.real is None:
            self._prove_bool(label, cond.b)
            return
        if bool(cond):
            self._ob(label, "proved", "execution")
        else:
            self.fail(label, why or "is false on a feasible path")

    def _prove_bool(self, label, b):
        p = self.p
        z = p.conv.b(neg(b))
        p._side()
        p.solver.push()
        p.solver.add(z)
        import time as _t

        t = _t.time()
        r = p.solver.check()
        ctx.STATS.z3_time += _t.time() - t
        ctx.STATS.z3_queries += 1
        if r == ctx.z3.unsat:
            ctx.STATS.z3_unsat += 1
            p.solver.pop()
            self._ob(label, "proved", "z3")
            return
        model = p.small_model(p.solver) if r == ctx.z3.sat else None
        p.solver.pop()
        self._ob(label, "refuted" if r == ctx.z3.sat else "unknown", "z3", "", model)

    def eq(self, label, actual, expected, dtype=None, device=None):
        """Same shape and the same value at every index."""
        if isinstance(expected, (int, float, Term)) and not isinstance(expected, torch.Tensor):
            expected = T.new([], lambda i, e=to_term(expected): e, torch.float32, "cpu")
        if not isinstance(actual, torch.Tensor):
            if isinstance(actual, (int, float)):
                actual = T.new([], lambda i, e=to_term(actual): e, torch.float32, "cpu")
            else:
                self.fail(label, f"is {type(actual).__name__}, not a tensor")
                return False
        actual, expected = T.as_sym(actual), T.as_sym(expected)
        if dtype is not None:
            self.check(label + ":dtype", actual._dtype == dtype, f"{actual._dtype}")
        if device is not None:
            self.check(
                label + ":device", str(actual._device) == str(device), f"{actual._device}"
            )
        if T.rank(actual) != T.rank(expected):
            self.fail(label + ":shape", f"{T.rank(actual)} vs {T.rank(expected)} dimensions")
            return False
        for k, (a, b) in enumerate(zip(T.sizes(actual), T.sizes(expected))):
            if a != b:
                n = len(self.obs)
                self._prove_bool(label + f":shape[{k}]", eq(a, b))
                if self.obs[n].status != "proved":
                    return False
        try:
            groups, (ma, mb) = T.broadcast(actual._groups, expected._groups)
        except RuntimeError as e:
            self.fail(label + ":shape", str(e))
            return False
        idx, extra = [], []
        for g in groups:
            for s in g:
                v = IExpr.var(IVar("i"))
                idx.append(v)
                extra += [le(IExpr.const(0), v), lt(v, s)]
        idx = tuple(idx)
        t = T.numfn(actual)(ma(idx)) - T.numfn(expected)(mb(idx))
        r = Prover(self.p).zero(t, extra)
        self._ob(label, r.status, r.backend, r.why, r.model)
        return r.status == "proved"

    def dtype(self, label, t, dtype):
        self.check(label, t.dtype == dtype, f"{t.dtype} instead of {dtype}")

    def on(self, label, t, device):
        self.check(label, str(t.device) == str(device), f"on {t.device} instead of {device}")

    def raises(self, label, exc, fn):
        try:
            fn()
        except (Unsupported, ctx.PathAbort):
            raise
        except exc:
            self._ob(label, "proved", "execution")
            return True
        except Exception as e:
            self.fail(label, f"raises {type(e).__name__}: {e}")
            return False
        self.fail(label, "no error raised")
        return False

    def succeeds(self, label, fn):
        try:
            r = fn()
        except (Unsupported, ctx.PathAbort):
            raise
        except Exception as e:
            self.fail(label, f"raises {type(e).__name__}: {e}")
            return None
        self._ob(label, "proved", "execution")
        return r

    # frames
    def snapshot(self, *ts):
        return [(t, T.clone(t), t._st) for t in ts]

    def freeze(self, t):
        return T.clone(t)

    def wide(self, t):
        """Copy in a precision that loses nothing."""
        return T.clone(t.detach()).to(torch.float32)

    def unchanged(self, label, snap):
        for k, (t, c, _) in enumerate(snap):
            self.eq(f"{label}[{k}]", t, c)

    def no_alias(self, label, results, operands):
        ops_ = list(operands)
        for r in results:
            for o in ops_:
                if not isinstance(r, T.SymTensor) or not isinstance(o, T.SymTensor):
                    continue
                if r._st is o._st:
                    if r._amb or o._amb:
                        self._ob(label, "refuted", "storage", "may share memory")
                    else:
                        self.fail(label, "shares memory")
                    return
                if r._st.ptr == o._st.ptr:
                    self.fail(label, "shares memory")
                    return
        self._ob(label, "proved", "storage")

    def havoc(self, t, name):
        """Overwrite a tensor by arbitrary values, in place."""
        s = self._sym(name)
        with torch.no_grad():
            T.write(t, lambda i: TAtom(s, i))


# ------------------------------------------------------------------ concrete
class ConEnv:
    symbolic = False

    def __init__(self, seed, hints=None, near=()):
        self.seed = seed
        self.hints = dict(hints or {})
        self.hint_choices = self.hints.pop("_choices", {}) if hints else {}
        self.near = list(near)
        self.used = {}
        self.comp = {}
        self.failures = []
        self.checked = 0
        self.big = 0
        self.relax = 1.0

    def _rng(self, name):
        return random.Random(zlib.crc32(f"{self.seed}/{name}".encode()))

    def int(self, name, lo=None, hi=None):
        r = self._rng(name)
        if name in self.hints:
            v = self.hints[name]
            if v > SIZE_CAP:
                raise TooLarge(f"{name}={v}")
        else:
            base = 0 if lo is None else lo
            if lo is None:
                v = r.randint(-3, 3)
            elif self.near and self.big < 1 and r.random() < 0.5:
                v = max(base, r.choice(self.near) + r.choice([-1, 0, 1]))
                self.big += 1
            else:
                v = base + r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6])
            if hi is not None and v > hi:
                v = r.randint(base, hi)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        self.used[name] = v
        return v

    def real(self, name, positive=False, nonneg=False):
        r = self._rng(name)
        if name in self.hints:
            v = float(self.hints[name])
            if abs(v) > 1e6 or (v != 0 and abs(v) < 1e-6):
                v = 1.0 if v > 0 else -1.0
        else:
            v = r.choice([0.5, 2.0, 0.25, 1.5, 3.0, 1.0])
            if nonneg and r.random() < 0.2:
                v = 0.0
            elif not (positive or nonneg):
                v = r.choice([v, -v, 0.0])
        self.used[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        k = self.hint_choices.get(name)
        if k is None or k >= len(options):
            k = self._rng(name).randrange(len(options))
        self.used["choice:" + name] = k
        return options[k]

    def device(self, name="dev"):
        return torch.device("meta")

    def assume(self, cond):
        if not cond:
            raise Skip()

    def world(self):
        from vcgen.world import PairWorld

        return PairWorld(self)

    def processes(self):
        from vcgen.world import ThreadWorld

        return ThreadWorld(self)

    @staticmethod
    def _size(shape):
        out = []
        for x in shape:
            if isinstance(x, tuple):
                n = 1
                for y in x:
                    n *= y
                out.append(n)
            else:
                out.append(int(x))
        return out

    def tensor(self, name, shape, dtype=torch.float32, device="cpu", grad=False, param=False):
        spec, shape = shape, self._size(shape)
        n = 1
        for s in shape:
            n *= s
        if n > 400000:
            raise TooLarge(name)
        r = self._rng(name)
        g = torch.Generator().manual_seed(zlib.crc32(f"{self.seed}/{name}".encode()))
        lim = 4 if dtype in (torch.float32, torch.float64) else 2
        x = torch.randint(-lim + 1, lim, shape, generator=g).to(dtype)
        if not param and len(shape) >= 1 and r.random() < 0.4:
            if len(shape) >= 2:
                a = 1 if len(shape) > 2 and r.random() < 0.5 else -2
                x = x.transpose(-1, a).contiguous().transpose(-1, a)
            else:
                y = torch.zeros(2 * shape[0], dtype=dtype)
                y[::2] = x
                x = y[::2]
        x = x.to(device)
        if any(isinstance(y, tuple) for y in spec):
            self.comp[id(x)] = (x, spec)
        if param:
            x = torch.nn.Parameter(x, requires_grad=grad)
        elif grad:
            x.requires_grad_(True)
        return x

    def at(self, t, *idx):
        if t.device.type == "meta":  # no values; only shapes and kinds are compared
            return 0.0
        flat = []
        for k, i in enumerate(idx):
            if isinstance(i, tuple):
                n = 0
                for y, size in zip(i, self.comp[id(t)][1][k]):
                    n = n * size + y
                i = n
            flat.append(i)
        return t[tuple(flat)].double().item() if t.dim() else t.double().item()

    def build(self, shape, fn, dtype=torch.float32, device="cpu"):
        size = self._size(shape)
        n = 1
        for s in size:
            n *= s
        if n > 100000:
            raise TooLarge("reference result")
        x = torch.zeros(size, dtype=torch.float64)
        import itertools

        for idx in itertools.product(*[range(s) for s in size]):
            args = []
            for k, i in zip(shape, idx):
                if isinstance(k, tuple):
                    parts = []
                    for y in reversed(k):
                        parts.append(i % y)
                        i //= y
                    args.append(tuple(reversed(parts)))
                else:
                    args.append(i)
            x[idx] = float(fn(*args))
        return x

    def sum(self, lo, hi, fn):
        return sum((fn(i) for i in range(lo, hi)), 0.0)

    def ite(self, c, a, b):
        return (a() if callable(a) else a) if c else (b() if callable(b) else b)

    def mm(self, *ts):
        r = ts[0].double()
        for t in ts[1:]:
            r = r @ t.double()
        return r

    def lin(self, *terms):
        r = None
        for c, t in terms:
            if isinstance(c, torch.Tensor):
                c = c.double()
            x = t.double() * c
            r = x if r is None else r + x
        return r

    def tr(self, t):
        return t.T

    def identity(self, n):
        return torch.eye(n, dtype=torch.float64)

    def avgtr(self, t):
        return t.double().diag().mean().item()

    def maxabs(self, t):
        return t.double().abs().max().item()

    def max(self, *xs):
        return max(*xs)

    def scalar(self, x):
        return torch.tensor(float(x))

    def quiet(self):
        return _quiet()

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def prod(self, xs):
        r = 1
        for x in xs:
            r *= x
        return r

    def num(self, x):
        return float(x)

    def sqrt(self, x):
        return float(x) ** 0.5

    def share(self):
        pass

    # checks
    def fail(self, label, why=""):
        self.failures.append((label, str(why)[:500]))

    def check(self, label, cond, why=""):
        self.checked += 1
        if not cond:
            self.fail(label, why)

    def eq(self, label, actual, expected, dtype=None, device=None):
        self.checked += 1
        if isinstance(actual, (int, float)):
            actual = torch.tensor(float(actual), dtype=torch.float64)
        if isinstance(expected, (int, float)):
            expected = torch.tensor(float(expected), dtype=torch.float64)
        if not isinstance(actual, torch.Tensor):
            self.fail(label, f"is {type(actual).__name__}, not a tensor")
            return False
        if dtype is not None:
            self.check(label + ":dtype", actual.dtype == dtype, f"{actual.dtype}")
        if device is not None:
            self.check(label + ":device", str(actual.device) == str(device), f"{actual.device}")
        if tuple(actual.shape) != tuple(expected.shape):
            self.fail(label, f"shape {tuple(actual.shape)} instead of {tuple(expected.shape)}")
            return False
        if actual.device.type == "meta" or expected.device.type == "meta":
            return True
        half = (torch.float16, torch.bfloat16)
        tol = 4e-2 if actual.dtype in half or expected.dtype in half else 2e-4
        if actual.dtype == expected.dtype == torch.float64:
            tol = 1e-8
        tol *= self.relax
        with torch.no_grad():
            a, e = actual.detach().double(), expected.detach().double()
            if a.numel() == 0:
                return True
            same_nan = torch.isnan(a) == torch.isnan(e)
            inf_ok = (a == e) | ~(torch.isinf(a) | torch.isinf(e))
            fin = torch.isfinite(e)
            scale = 1 + (e[fin].abs().max().item() if fin.any() else 0.0)
            d = (a - e).abs()
            bad = ~same_nan | ~inf_ok | (torch.isfinite(d) & (d > tol * scale))
            if bad.any():
                k = bad.nonzero()[0].tolist()
                self.fail(
                    label,
                    f"at {k}: {a[tuple(k)].item()} instead of {e[tuple(k)].item()} (shape {tuple(a.shape)})",
                )
                return False
        return True

    def dtype(self, label, t, dtype):
        self.check(label, t.dtype == dtype, f"{t.dtype} instead of {dtype}")

    def on(self, label, t, device):
        self.check(label, str(t.device) == str(device), f"on {t.device} instead of {device}")

    def raises(self, label, exc, fn):
        self.checked += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(label, f"raises {type(e).__name__}: {e}")
            return False
        self.fail(label, "no error raised")
        return False

    def succeeds(self, label, fn):
        self.checked += 1
        try:
            return fn()
        except Exception as e:
            self.fail(label, f"raises {type(e).__name__}: {e}")
            return None

    def snapshot(self, *ts):
        return [(t, t.detach().clone(), None) for t in ts]

    def freeze(self, t):
        return t.detach().clone()

    def wide(self, t):
        return t.detach().clone().double()

    def unchanged(self, label, snap):
        for k, (t, c, _) in enumerate(snap):
            self.eq(f"{label}[{k}]", t, c)

    def no_alias(self, label, results, operands):
        self.checked += 1
        for r in results:
            for o in operands:
                if r.numel() == 0 or o.numel() == 0 or r.device.type == "meta":
                    continue
                if r.untyped_storage().data_ptr() == o.untyped_storage().data_ptr():
                    # sharing is a violation when an update of one can reach the other
                    self.fail(label, "shares memory")
                    return

    def havoc(self, t, name):
        g = torch.Generator().manual_seed(zlib.crc32(f"{self.seed}/{name}".encode()))
        with torch.no_grad():
            t.copy_(torch.randint(-3, 4, tuple(t.shape), generator=g).to(t.dtype) / 2)


# ------------------------------------------------------------------ runs
class TimeUp(Exception):
    pass


def prove(scn, params, time_limit=100.0, max_paths=400):
    """All obligations of a contract on all paths."""
    import time

    from vcgen import ops, patches

    obs, work, npaths, dead, restarts = [], [()], 0, 0, 0
    CARRIED.clear()
    t0 = time.time()
    why = None
    while work:
        prefix = work.pop()
        if npaths >= max_paths or time.time() - t0 > time_limit:
            obs.append(Ob("exploration", "unknown", "", "path or time limit"))
            break
        npaths += 1
        p = Path(prefix)
        ctx.CUR[0] = p
        env = SymEnv(p, obs)
        nobs = len(obs)
        try:
            with patches.applied(), ops.Mode():
                scn.fn(env, **params)
            if getattr(p, "bad_loop", False):
                env._ob("loop", "unknown", "", "a summarised loop was left early")
        except ctx.PathAbort:
            dead += 1
        except LoopRestart:
            del obs[nobs:]
            npaths -= 1
            restarts += 1
            if restarts > 50:
                raise RuntimeError("loop analysis does not settle")
            work.append(prefix)
            continue
        except Unsupported as e:
            env._ob("subset", "unknown", "", f"{e} [{_where(e)}]")
        except RecursionError as e:
            env._ob("subset", "unknown", "", "recursion limit")
        except (KeyboardInterrupt, TimeUp):
            raise
        except Exception as e:
            if p.sat(TRUE) == ctx.z3.unsat:
                dead += 1
            else:
                env._ob(
                    "no exception",
                    "refuted",
                    "path",
                    f"{type(e).__name__}: {str(e)[:200]} [{_where(e)}]",
                )
        finally:
            ctx.CUR[0] = None
        work.extend(p.alternates)
    return dict(obs=obs, paths=npaths, dead=dead, time=time.time() - t0)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if "/singd/" in f.filename or "/contracts/" in f.filename:
            return f"{f.filename.split('/')[-1]}:{f.lineno} {f.name}"
    return f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}" if tb else ""


@contextlib.contextmanager
def _alarm(seconds):
    """Give up (TooLarge) on a run with large sizes after some time."""
    if not seconds or threading.current_thread() is not threading.main_thread():
        yield
        return

    def stop(*_):
        raise TooLarge("time")

    old = signal.signal(signal.SIGALRM, stop)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run_concrete(scn, params, seed, hints=None, near=None):
    """One concrete execution.  Returns (status, env); status in ok, fail, skip, large."""
    env = ConEnv(seed, hints, scn.near if near is None else near)
    torch.manual_seed(seed)
    try:
        with _alarm(20 if hints and max([0, *(v for v in hints.values() if type(v) is int)]) > 60 else 0):
            scn.fn(env, **params)
    except Skip:
        return "skip", env
    except TooLarge:
        return "large", env
    except (KeyboardInterrupt, TimeUp):
        raise
    except Exception as e:
        env.fail("no exception", f"{type(e).__name__}: {str(e)[:300]} [{_where(e)}]")
    return ("fail" if env.failures else "ok"), env
