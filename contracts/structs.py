"""Inputs and mathematical view of every structured matrix class.

``make`` builds an arbitrary instance from its components (public constructor) together
with its abstract view: the represented dense matrix as a function of the components, and
``project`` the projection of a dense symmetric matrix onto the structure, both taken from
the class documentation and independent of the code.
"""

import torch

from singd.structures.blockdiagonal import (
    Block3DiagonalMatrix,
    Block30DiagonalMatrix,
    BlockDiagonalMatrixTemplate,
)
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.hierarchical import (
    Hierarchical3_2Matrix,
    Hierarchical15_15Matrix,
    HierarchicalMatrixTemplate,
)
from singd.structures.recursive import (
    RecursiveBottomLeftMatrixTemplate,
    RecursiveTopRightMatrixTemplate,
)
from singd.structures.trilbottomrightdiag import TrilBottomRightDiagonalMatrix
from singd.structures.triltoeplitz import TrilToeplitzMatrix
from singd.structures.triltopleftdiag import TrilTopLeftDiagonalMatrix
from singd.structures.triubottomrightdiag import TriuBottomRightDiagonalMatrix
from singd.structures.triutoeplitz import TriuToeplitzMatrix
from singd.structures.triutopleftdiag import TriuTopLeftDiagonalMatrix

INF = float("inf")


class Block2DiagonalMatrix(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 2


class Block1DiagonalMatrix(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 1


class Hierarchical1_4Matrix(HierarchicalMatrixTemplate):
    MAX_K1 = 1
    MAX_K2 = 4


class Hierarchical4_0Matrix(HierarchicalMatrixTemplate):
    MAX_K1 = 4
    MAX_K2 = 0


class TopRightDiagDense(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (3, INF)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


class BottomLeftDiagDense(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (INF, 2)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


class TopRightDenseDiag(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (1, INF)
    CLS_A = DenseMatrix
    CLS_C = DiagonalMatrix


class NestedTopRight(RecursiveTopRightMatrixTemplate):
    """A recursive matrix in a recursive matrix."""

    MAX_DIMS = (2, INF)
    CLS_A = DenseMatrix
    CLS_C = BottomLeftDiagDense


class NestedBottomLeft(RecursiveBottomLeftMatrixTemplate):
    """Substructures with several components each."""

    MAX_DIMS = (INF, 3)
    CLS_A = Block2DiagonalMatrix
    CLS_C = TopRightDenseDiag


CLASSES = {
    "dense": DenseMatrix,
    "diagonal": DiagonalMatrix,
    "block3": Block3DiagonalMatrix,
    "block30": Block30DiagonalMatrix,
    "block2": Block2DiagonalMatrix,
    "block1": Block1DiagonalMatrix,
    "hier3_2": Hierarchical3_2Matrix,
    "hier15_15": Hierarchical15_15Matrix,
    "hier1_4": Hierarchical1_4Matrix,
    "hier4_0": Hierarchical4_0Matrix,
    "triltoeplitz": TrilToeplitzMatrix,
    "triutoeplitz": TriuToeplitzMatrix,
    "trilbottomright": TrilBottomRightDiagonalMatrix,
    "triltopleft": TrilTopLeftDiagonalMatrix,
    "triubottomright": TriuBottomRightDiagonalMatrix,
    "triutopleft": TriuTopLeftDiagonalMatrix,
    "rec_topright": TopRightDiagDense,
    "rec_bottomleft": BottomLeftDiagDense,
    "rec_nested_topright": NestedTopRight,
    "rec_nested_bottomleft": NestedBottomLeft,
}
ALL = list(CLASSES)
REGISTERED = ["dense", "diagonal", "block30", "hier15_15", "triltoeplitz", "triutoeplitz"]
NEAR = {"block30": (30, 60), "hier15_15": (15, 30)}


def near(key):
    return NEAR.get(key, ())


class View:
    """Abstract view: dimension and entry function."""

    def __init__(self, env, dim, at):
        self.env, self.dim, self.at = env, dim, at

    def dense(self):
        return self.env.build((self.dim, self.dim), self.at)


def kind(key_or_cls):
    cls = CLASSES[key_or_cls] if isinstance(key_or_cls, str) else key_or_cls
    if issubclass(cls, DenseMatrix):
        return "dense"
    if issubclass(cls, DiagonalMatrix):
        return "diagonal"
    if issubclass(cls, BlockDiagonalMatrixTemplate):
        return "block"
    if issubclass(cls, HierarchicalMatrixTemplate):
        return "hier"
    if issubclass(cls, TrilToeplitzMatrix):
        return "tril"
    if issubclass(cls, TriuToeplitzMatrix):
        return "triu"
    if issubclass(cls, RecursiveTopRightMatrixTemplate):
        return "topright"
    if issubclass(cls, RecursiveBottomLeftMatrixTemplate):
        return "bottomleft"
    raise AssertionError(cls)


def least(key_or_cls):
    """Smallest dimension: a Toeplitz matrix has at least its main diagonal."""
    return 1 if kind(key_or_cls) in ("tril", "triu") else 0


def dims(env, cls, tag="", lo=1):
    """Arbitrary valid component sizes (a dict) of a matrix of dimension >= lo."""
    k = kind(cls)
    if k in ("dense", "diagonal"):
        return {"d": env.int(tag + "d", lo)}
    if k in ("tril", "triu"):
        return {"d": env.int(tag + "d", max(lo, least(cls)))}
    if k == "block":
        D = cls.BLOCK_DIM
        n = env.int(tag + "n", 0)
        last = env.int(tag + "last", 0, D - 1) if D > 1 else 0
        if lo:
            env.assume(n * D + last >= lo)
        return {"n": n, "last": last}
    if k == "hier":
        K1 = env.int(tag + "K1", 0, cls.MAX_K1)
        c = env.int(tag + "c", 0)
        K2 = env.int(tag + "K2", 0, cls.MAX_K2) if cls.MAX_K2 else 0
        if lo:
            env.assume(K1 + c + K2 >= lo)
        return {"K1": K1, "c": c, "K2": K2}
    a_max, c_max = cls.MAX_DIMS
    A = sub_dims(env, cls.CLS_A, tag, "a", a_max)
    C = sub_dims(env, cls.CLS_C, tag, "c", c_max)
    ds = {"a": total(cls.CLS_A, A), "c": total(cls.CLS_C, C), "A": A, "C": C}
    if lo:
        env.assume(ds["a"] + ds["c"] >= lo)
    return ds


def sub_dims(env, cls, tag, name, limit):
    """Arbitrary sizes of a substructure of at most the given dimension."""
    k = kind(cls)
    if k in ("dense", "diagonal", "tril", "triu"):
        lo = least(cls)
        return {"d": env.int(tag + name, lo, None if limit == INF else limit)}
    ds = dims(env, cls, tag + name.upper() + ".", 0)
    if limit != INF:
        env.assume(total(cls, ds) <= limit)
    return ds


def dims_of(env, cls, dim):
    """Component sizes the class documentation prescribes for a matrix of dimension dim."""
    k = kind(cls)
    if k in ("dense", "diagonal", "tril", "triu"):
        return {"d": dim}
    if k == "block":
        return {"n": dim // cls.BLOCK_DIM, "last": dim % cls.BLOCK_DIM}
    if k == "hier":
        if dim <= cls.MAX_K1:
            return {"K1": dim, "c": 0, "K2": 0}
        if dim <= cls.MAX_K1 + cls.MAX_K2:
            return {"K1": cls.MAX_K1, "c": 0, "K2": dim - cls.MAX_K1}
        return {"K1": cls.MAX_K1, "c": dim - cls.MAX_K1 - cls.MAX_K2, "K2": cls.MAX_K2}
    a_max, c_max = cls.MAX_DIMS
    if c_max == INF:
        a, c = (dim, 0) if dim <= a_max else (a_max, dim - a_max)
    else:
        a, c = (0, dim) if dim <= c_max else (dim - c_max, c_max)
    return {"a": a, "c": c, "A": dims_of(env, cls.CLS_A, a), "C": dims_of(env, cls.CLS_C, c)}


def total(cls, ds):
    k = kind(cls)
    if k == "block":
        return ds["n"] * cls.BLOCK_DIM + ds["last"]
    if k == "hier":
        return ds["K1"] + ds["c"] + ds["K2"]
    if k in ("topright", "bottomleft"):
        return ds["a"] + ds["c"]
    return ds["d"]


def components(env, cls, tag, ds, **kw):
    """Arbitrary component tensors (nested list for recursive classes)."""
    k = kind(cls)
    t = lambda n, shape: env.tensor(tag + n, shape, **kw)
    if k == "dense":
        return [t("mat", (ds["d"], ds["d"]))]
    if k in ("diagonal", "tril", "triu"):
        return [t("vec", (ds["d"],))]
    if k == "block":
        D = cls.BLOCK_DIM
        return [t("blocks", (ds["n"], D, D)), t("last", (ds["last"], ds["last"]))]
    if k == "hier":
        a, c, e = ds["K1"], ds["c"], ds["K2"]
        return [
            t("A", (a, a)),
            t("B", (a, c + e)),
            t("C", (c,)),
            t("D", (e, c)),
            t("E", (e, e)),
        ]
    shape = (ds["a"], ds["c"]) if k == "topright" else (ds["c"], ds["a"])
    return [
        components(env, cls.CLS_A, tag + "A.", ds["A"], **kw),
        t("B", shape),
        components(env, cls.CLS_C, tag + "C.", ds["C"], **kw),
    ]


def construct(cls, comps):
    if kind(cls) in ("topright", "bottomleft"):
        return cls(construct(cls.CLS_A, comps[0]), comps[1], construct(cls.CLS_C, comps[2]))
    return cls(*comps)


def flat(comps):
    out = []
    for c in comps:
        out += flat(c) if isinstance(c, list) else [c]
    return out


def view_of(env, cls, ds, comps):
    """The documented dense matrix of given components (their present values)."""
    k = kind(cls)
    at = env.at
    comps = [c if isinstance(c, list) else env.freeze(c) for c in comps]
    if k == "dense":
        (m,) = comps
        return View(env, ds["d"], lambda i, j: at(m, i, j))
    if k == "diagonal":
        (v,) = comps
        return View(env, ds["d"], lambda i, j: env.ite(i == j, lambda: at(v, i), 0))
    if k == "tril":
        (v,) = comps
        return View(env, ds["d"], lambda i, j: env.ite(i >= j, lambda: at(v, i - j), 0))
    if k == "triu":
        (v,) = comps
        return View(env, ds["d"], lambda i, j: env.ite(i <= j, lambda: at(v, j - i), 0))
    if k == "block":
        b, l = comps
        D, n = cls.BLOCK_DIM, ds["n"]
        s = n * D

        def f(i, j):
            return env.ite(
                env.all(i < s, j < s),
                lambda: env.ite(
                    i // D == j // D, lambda: at(b, i // D, i % D, j % D), 0
                ),
                lambda: env.ite(env.all(i >= s, j >= s), lambda: at(l, i - s, j - s), 0),
            )

        return View(env, total(cls, ds), f)
    if k == "hier":
        A, B, C, D_, E = comps
        K1, c = ds["K1"], ds["c"]
        m = K1 + c

        def f(i, j):
            return env.ite(
                i < K1,
                lambda: env.ite(j < K1, lambda: at(A, i, j), lambda: at(B, i, j - K1)),
                lambda: env.ite(
                    j < K1,
                    0,
                    lambda: env.ite(
                        i < m,
                        lambda: env.ite(i == j, lambda: at(C, i - K1), 0),
                        lambda: env.ite(
                            j < m,
                            lambda: at(D_, i - m, j - K1),
                            lambda: at(E, i - m, j - m),
                        ),
                    ),
                ),
            )

        return View(env, total(cls, ds), f)
    a = ds["a"]
    VA = view_of(env, cls.CLS_A, ds["A"], comps[0])
    VC = view_of(env, cls.CLS_C, ds["C"], comps[2])
    B = comps[1]

    def f(i, j):
        if k == "topright":
            off = lambda: env.ite(i < a, lambda: at(B, i, j - a), 0)
        else:
            off = lambda: env.ite(i >= a, lambda: at(B, i - a, j), 0)
        return env.ite(
            env.all(i < a, j < a),
            lambda: VA.at(i, j),
            lambda: env.ite(env.all(i >= a, j >= a), lambda: VC.at(i - a, j - a), off),
        )

    return View(env, total(cls, ds), f)


def make(env, key, tag="M.", ds=None, lo=1, **kw):
    """(instance, view, components, sizes) of an arbitrary structured matrix."""
    cls = CLASSES[key] if isinstance(key, str) else key
    if ds is None:
        ds = dims(env, cls, tag, lo)
    comps = components(env, cls, tag, ds, **kw)
    M = construct(cls, comps)
    return M, view_of(env, cls, ds, comps), flat(comps), ds


def project(env, cls, ds, S):
    """The projection of the symmetric S (function of two indices) onto the structure, as
    the represented dense matrix."""
    k = kind(cls)
    n = total(cls, ds)
    if k == "dense":
        return View(env, n, lambda i, j: S(i, j))
    if k == "diagonal":
        return View(env, n, lambda i, j: env.ite(i == j, lambda: S(i, i), 0))
    if k in ("tril", "triu"):

        def diag_avg(m):  # m >= 0: average over both m-th diagonals, doubled off the main one
            t = env.sum(0, n - m, lambda q: S(q, q + m) + S(q + m, q))
            return env.ite(m == 0, lambda: t / env.num(2 * n), lambda: t / env.num(n - m))

        if k == "tril":
            return View(env, n, lambda i, j: env.ite(i >= j, lambda: diag_avg(i - j), 0))
        return View(env, n, lambda i, j: env.ite(i <= j, lambda: diag_avg(j - i), 0))
    if k == "block":
        D, s = cls.BLOCK_DIM, ds["n"] * cls.BLOCK_DIM

        def f(i, j):
            return env.ite(
                env.any(
                    env.all(i < s, j < s, i // D == j // D), env.all(i >= s, j >= s)
                ),
                lambda: S(i, j),
                0,
            )

        return View(env, n, f)
    if k == "hier":
        K1, m = ds["K1"], ds["K1"] + ds["c"]

        def f(i, j):
            return env.ite(
                i < K1,
                lambda: env.ite(j < K1, lambda: S(i, j), lambda: 2 * S(i, j)),
                lambda: env.ite(
                    j < K1,
                    0,
                    lambda: env.ite(
                        i < m,
                        lambda: env.ite(i == j, lambda: S(i, j), 0),
                        lambda: env.ite(j < m, lambda: 2 * S(i, j), lambda: S(i, j)),
                    ),
                ),
            )

        return View(env, n, f)
    a = ds["a"]
    PA = project(env, cls.CLS_A, ds["A"], S)
    PC = project(env, cls.CLS_C, ds["C"], lambda i, j: S(i + a, j + a))

    def f(i, j):
        if k == "topright":
            off = lambda: env.ite(i < a, lambda: S(i, j) + S(j, i), 0)
        else:
            off = lambda: env.ite(i >= a, lambda: S(i, j) + S(j, i), 0)
        return env.ite(
            env.all(i < a, j < a),
            lambda: PA.at(i, j),
            lambda: env.ite(env.all(i >= a, j >= a), lambda: PC.at(i - a, j - a), off),
        )

    return View(env, n, f)


def read(env, cls, M, ds):
    """View of an existing instance, from its component tensors in constructor order."""
    return view_of(env, cls, ds, _nest(cls, iter([t for _, t in M.named_tensors()])))


def _nest(cls, ts):
    k = kind(cls)
    if k in ("topright", "bottomleft"):  # own tensor first, then the two substructures
        B = next(ts)
        return [_nest(cls.CLS_A, ts), B, _nest(cls.CLS_C, ts)]
    return [next(ts) for _ in range({"block": 2, "hier": 5}.get(k, 1))]
