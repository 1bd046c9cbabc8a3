"""The process group seen by the code under test.

Symbolically: one arbitrary process of an arbitrary number of processes, with every tensor
of the scenario carrying the process number as an extra index.  Concretely: either an
element-wise stand-in for one peer process (``pair``), or real threads, one per process.
"""

import contextlib
import threading

import torch
import torch.distributed as dist

from vcgen.iexpr import IExpr, IVar, le, lt
from vcgen.term import tsum, to_term


def layout(t):
    """Strides of the dimensions longer than one."""
    return tuple((n, s) for n, s in zip(t.shape, t.stride()) if n != 1)


def is_dense(t):
    if t.numel() == 0:
        return True
    expected = 1
    for n, s in sorted(layout(t), key=lambda x: (x[1], x[0])):
        if s != expected:
            return False
        expected *= n
    return True


class SymWorld:
    def __init__(self, env):
        from vcgen import patches
        from vcgen.ctx import mkint

        self.env, self.W = env, patches.WORLD
        self.size = env.int("world", 1)
        self.rank_var = IVar("rank")
        self.rank = IExpr.var(self.rank_var)
        env.p.assume(le(IExpr.const(0), self.rank))
        env.p.assume(lt(self.rank, IExpr.of(self.size)))
        self.mk = mkint

    def __enter__(self):
        self.W.reset()
        self.W.active = True
        self.W.calls = []
        self.W.size, self.W.rank = self.size, self.rank
        return self

    def __exit__(self, *a):
        self.W.reset()

    @property
    def calls(self):
        return [(op, group, async_op) for _, op, group, async_op in self.W.calls]

    def tensor(self, name, shape, dtype=torch.float32):
        return self.env.sharded(name, shape, self.rank, dtype)

    def batch(self, name, shape, dtype=torch.float32):
        """The joint batch and a function giving the part of one process."""
        from vcgen import tensor as T
        from vcgen.term import TAtom

        s = self.env._sym(name)
        B, *rest = shape
        joint = T.new(
            self.env._groups([(self.size, B), *rest]), lambda i: TAtom(s, i), dtype, "cpu"
        )
        r = self.rank

        def part(_):
            t = T.new(
                self.env._groups([B, *rest]), lambda i: TAtom(s, (r,) + tuple(i)), dtype, "cpu"
            )
            t._st.gappy = True
            return t

        joint._st.gappy = True
        return joint, part

    def each(self, name, shape, op, dtype=torch.float32):
        """One tensor per process, and their reduction."""
        local = self.env.sharded(name, shape, self.rank, dtype)
        return self.reduced(local, op), lambda _: local

    def run(self, fn):
        """Run fn(process) as one arbitrary process."""
        with self:
            return [fn(0)]

    def alone(self, fn):
        self.W.reset()
        r = fn()
        self.env.check("nothing is communicated without a process group", not self.W.calls)
        return r

    def components(self, cls, tag, ds):
        from contracts import structs

        outer = self

        class E:
            def tensor(self, name, shape):
                return outer.tensor(name, shape)

        return structs.components(E(), cls, tag, ds)

    def reduced(self, comps, op):
        from vcgen import tensor as T

        if isinstance(comps, list):
            return [self.reduced(c, op) for c in comps]
        f = T.fnof(comps)
        R = IExpr.of(self.size)

        def g(i):
            v = IVar("q")
            t = tsum(v, IExpr.const(0), R, f(i).subst({self.rank_var: IExpr.var(v)}))
            return t if op == dist.ReduceOp.SUM else t / to_term(self.size)

        return T.new([list(x) for x in comps._groups], g, comps._dtype, comps._device)

    def finish(self, handles):
        for h in handles or ():
            h.wait()


class _Handle:
    def __init__(self, f):
        self.f, self.done = f, False

    def wait(self, *a):
        if not self.done:
            self.done = True
            self.f()
        return True


class PairWorld:
    """Two processes; the other one holds 2 x + 1 wherever this one holds x."""

    def __init__(self, env):
        self.env = env
        self.calls = []
        self.size = 2

    def __enter__(self):
        self.saved = {}
        for k, v in {
            "is_initialized": lambda: True,
            "all_reduce": self.all_reduce,
            "get_world_size": lambda group=None: 2,
        }.items():
            self.saved[k] = getattr(dist, k)
            setattr(dist, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(dist, k, v)

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        self.calls.append((op, group, async_op))
        if not is_dense(tensor):
            raise ValueError("Tensors must be contiguous")

        def act():
            with torch.no_grad():
                x = tensor.detach().clone()
                y = 3 * x + 1
                tensor.detach().copy_(y if op == dist.ReduceOp.SUM else y / 2)

        if async_op:
            return _Handle(act)
        act()

    def tensor(self, name, shape, dtype=torch.float32):
        return self.env.tensor(name, shape, dtype)

    def components(self, cls, tag, ds):
        from contracts import structs

        return structs.components(self.env, cls, tag, ds)

    def reduced(self, comps, op):
        if isinstance(comps, list):
            return [self.reduced(c, op) for c in comps]
        y = 3 * comps.double() + 1
        return y if op == dist.ReduceOp.SUM else y / 2

    def finish(self, handles):
        for h in handles or ():
            h.wait()


class ThreadWorld:
    """Some processes, each a thread, with blocking reductions."""

    def __init__(self, env):
        self.env, self.size = env, env.int("world", 1, 3)
        self.local = threading.local()

    def batch(self, name, shape, dtype=torch.float32):
        B, *rest = shape
        joint = self.env.tensor(name, ((self.size, B), *rest), dtype)
        return joint, lambda r: joint[r * B : (r + 1) * B]

    def each(self, name, shape, op, dtype=torch.float32):
        every = self.env.tensor(name, (self.size, *shape), dtype)
        total = every.sum(0) if op == dist.ReduceOp.SUM else every.mean(0)
        return total, lambda r: every[r].clone()

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        if not is_dense(tensor):
            raise ValueError("Tensors must be contiguous")
        slots, barrier, n = self.slots, self.barrier, self.size
        with torch.no_grad():
            slots[self.local.rank] = (tensor.detach().clone(), op)
            barrier.wait()
            ts, ops = zip(*slots)
            if len(set(map(str, ops))) != 1 or len({(t.shape, layout(t)) for t in ts}) != 1:
                raise RuntimeError("the processes reduce different tensors")
            r = torch.stack([t.double() for t in ts]).sum(0)
            if op == dist.ReduceOp.AVG:
                r = r / n
            elif op != dist.ReduceOp.SUM:
                raise RuntimeError(f"unexpected {op}")
            barrier.wait()
            tensor.detach().copy_(r)
        return _Handle(lambda: None) if async_op else None

    def run(self, fn):
        n = self.size
        self.slots, self.barrier = [None] * n, threading.Barrier(n, timeout=30)
        out, errors = [None] * n, []

        def main(r):
            self.local.rank = r
            try:
                out[r] = fn(r)
            except BaseException as e:  # noqa: BLE001
                errors.append(e)
                self.barrier.abort()

        saved = {}
        for k, v in {
            "is_initialized": lambda: True,
            "is_available": lambda: True,
            "all_reduce": self.all_reduce,
            "get_world_size": lambda group=None: n,
            "get_rank": lambda group=None: self.local.rank,
        }.items():
            saved[k] = getattr(dist, k)
            setattr(dist, k, v)
        try:
            ts = [threading.Thread(target=main, args=(r,)) for r in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            for k, v in saved.items():
                setattr(dist, k, v)
        if errors:
            real = [e for e in errors if not isinstance(e, threading.BrokenBarrierError)]
            raise (real or [RuntimeError("the processes do not reduce equally often")])[0]
        return out

    def alone(self, fn):
        calls = []
        saved = dist.all_reduce
        dist.all_reduce = lambda *a, **k: calls.append(a)
        try:
            r = fn()
        finally:
            dist.all_reduce = saved
        self.env.check("nothing is communicated without a process group", not calls)
        return r
