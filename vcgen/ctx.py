"""Path conditions, symbolic Python scalars, and the prover for equalities of terms."""

import itertools
import os
import time
from fractions import Fraction

import z3

from vcgen import term
from vcgen.iexpr import (
    FACTORED,
    FALSE,
    TRUE,
    IExpr,
    IVar,
    IDiv,
    Unsupported,
    Z3Conv,
    bsubst,
    bvars_of,
    conj,
    divexact,
    eq,
    eq0,
    floordiv,
    ge0,
    le,
    lt,
    mod,
    neg,
)
from vcgen.term import (
    Summand,
    Sym,
    TAtom,
    TFn,
    TMax,
    TNum,
    TPow,
    TInt,
    Term,
    TMul,
    canon,
    nonneg,
    TAdd,
    add,
    expand,
    fkey_subst,
    ite,
    merge,
    mul,
    num,
    power,
    tint,
    to_term,
)

Z3_TIMEOUT = int(os.environ.get("VCGEN_Z3_TIMEOUT", "15000"))
MAX_PATHS = 400


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Stats:
    def __init__(self):
        self.z3_queries = 0
        self.z3_time = 0.0
        self.z3_unsat = 0
        self.syntactic = 0
        self.cvc5_checked = 0
        self.cvc5_disagree = 0
        self.queries = []  # smt2 texts for the second back end (thorough tier)


STATS = Stats()
KEEP_SMT = False


class Path:
    """One control-flow path of the code under test."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alternates = []
        self.facts = []
        self.real_subst = {}
        self.real_dec = []  # (kind, term, value)
        self.opaque = []  # (shape, summand, z3 real)
        self.loop_vars = []  # open loop variables
        self.closed_vars = set()  # loop variables whose loop is over
        self.loops = []
        self.memo = {}
        self.hints = {}  # name -> IVar of declared ints
        self.reals = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", Z3_TIMEOUT)
        self.conv = Z3Conv()
        self.n_side = 0
        self.fps = {}
        self.opaque_n = itertools.count()

    def assume(self, b):
        if b == TRUE:
            return
        self.facts.append(b)
        self.solver.add(self.conv.b(b))
        self._side()

    def _side(self):
        while self.n_side < len(self.conv.side):
            self.solver.add(self.conv.side[self.n_side])
            self.n_side += 1

    def sat(self, b):
        z = self.conv.b(b)
        self._side()
        self.solver.push()
        self.solver.add(z)
        t = time.time()
        r = self.solver.check()
        STATS.z3_time += time.time() - t
        STATS.z3_queries += 1
        self.solver.pop()
        return r

    def known(self, b):
        """True if the path condition implies b."""
        if b == TRUE:
            return True
        if b == FALSE:
            return False
        key = ("known", b, len(self.facts))
        if key not in self.memo:
            self.memo[key] = self.sat(neg(b)) == z3.unsat
        return self.memo[key]

    def fork(self):
        """Next boolean of this path's decision list (both outcomes possible)."""
        n = len(self.taken)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.alternates.append(self.taken + [False])
        self.taken.append(v)
        if n > 60:
            raise Unsupported("more than 60 branches on one path")
        return v

    def decide(self, b):
        if b == TRUE:
            return True
        if b == FALSE:
            return False
        if self.known(b):
            return True
        if self.known(neg(b)):
            return False
        if self.loop_vars and (bvars_of(b) & set(self.loop_vars)):
            raise Unsupported("branch on the variable of a summarised loop")
        v = self.fork()
        self.assume(b if v else neg(b))
        return v

    # -- reals
    def decide_real(self, kind, t):
        """Decide t == 0 ('eq') or t < 0 ('lt') or t <= 0 ('le')."""
        ex = apply_real_subst(merge(expand(t)), self)
        ex = merge(ex)
        if not ex:
            return kind in ("eq", "le")
        if len(ex) == 1 and not ex[0].factors and not ex[0].conds and not ex[0].bvars:
            c = ex[0].coef
            return {"eq": c == 0, "lt": c < 0, "le": c <= 0}[kind]
        if all(not s.factors or all(k[0] == "int" for k in s.factors) for s in ex):
            # integer-valued comparison (sizes)
            e = IExpr.const(0)
            for s in ex:
                if s.conds or s.bvars or s.coef.denominator != 1:
                    break
                m = IExpr.const(int(s.coef))
                for k, p in s.factors.items():
                    if p.denominator != 1 or p < 0:
                        m = None
                        break
                    for _ in range(int(p)):
                        m = m * k[1]
                if m is None:
                    break
                e = e + m
            else:
                return self.decide(
                    {"eq": eq0(e), "lt": ge0(-e - 1), "le": ge0(-e)}[kind]
                )
        z = self._real(ex)
        zb = {"eq": z == 0, "lt": z < 0, "le": z <= 0}[kind]
        t_ok = self._zsat(zb)
        f_ok = self._zsat(z3.Not(zb))
        if t_ok == z3.unsat:
            return False
        if f_ok == z3.unsat:
            return True
        if self.loop_vars and (t.fv() & set(self.loop_vars)):
            raise Unsupported("branch on the variable of a summarised loop")
        v = self.fork()
        self.solver.add(zb if v else z3.Not(zb))
        self.real_dec.append((kind, t, v))
        if kind == "eq" and v:
            self._learn_eq(ex)
        return v

    def _learn_eq(self, ex):
        # linear in one scalar atom: atom = constant
        cand = None
        const = Fraction(0)
        for s in ex:
            if s.conds or s.bvars:
                return
            if not s.factors:
                const += s.coef
                continue
            if len(s.factors) != 1 or cand is not None:
                return
            (k, e) = next(iter(s.factors.items()))
            if k[0] != "atom" or k[2] or e <= 0:
                return
            cand = (k[1], e, s.coef)
        if cand is None:
            return
        sym, e, c = cand
        v = -const / c
        if e == 1:
            self.real_subst[sym] = v
        elif sym.nonneg and v in (0, 1):
            self.real_subst[sym] = v

    def _zsat(self, zb):
        self.solver.push()
        self.solver.add(zb)
        t = time.time()
        r = self.solver.check()
        STATS.z3_time += time.time() - t
        STATS.z3_queries += 1
        self.solver.pop()
        return r

    def _real(self, ex):
        """z3 real of a list of summands (opaque where outside polynomial arithmetic)."""
        tot = z3.RealVal(0)
        for s in ex:
            if s.conds or s.bvars:
                u = Summand(Fraction(1), s.factors, s.bvars, s.conds)
                tot = tot + z3.RealVal(str(s.coef)) * self._opaque_real(("summand", canon(u)), u)
                continue
            p = z3.RealVal(str(s.coef))
            for k, e in s.factors.items():
                if k[0] == "atom" and not k[2]:
                    b = z3.Real(f"r_{k[1].name}!{k[1].uid}")
                    if k[1].uid not in self.fps:
                        self.fps[k[1].uid] = b
                        if k[1].positive:
                            self.solver.add(b > 0)
                        elif k[1].nonneg:
                            self.solver.add(b >= 0)
                elif k[0] == "int":
                    b = z3.ToReal(self.conv.i(k[1]))
                    self._side()
                else:
                    u = Summand(Fraction(1), {k: Fraction(1)})
                    b = self._opaque_real(
                        ("factor", canon(k)), u, nonneg=_nonneg_key(k), pos=_positive_key(k)
                    )
                if e.denominator == 1 and e > 0:
                    for _ in range(int(e)):
                        p = p * b
                elif e.denominator == 1:
                    for _ in range(int(-e)):
                        p = p / b
                else:
                    p = p * self._opaque_real(("pow", canon(k), e), nonneg=True)
            tot = tot + p
        return tot

    def _opaque_real(self, key, summand=None, nonneg=False, pos=False):
        """A z3 real for a value outside polynomial arithmetic: the same one for values proved
        equal."""
        if key not in self.memo:
            r = None
            if summand is not None:
                shape = sorted(_shape(k, e) for k, e in summand.factors.items())
                for shape2, s2, r2 in self.opaque:
                    if shape2 == shape and self._same_value(summand, s2):
                        r = r2
                        break
            if r is None:
                r = z3.Real(f"o!{len(self.memo)}")
                if pos:
                    self.solver.add(r > 0)
                if nonneg:
                    self.solver.add(r >= 0)
                if summand is not None:
                    self.opaque.append((shape, summand, r))
            self.memo[key] = r
        return self.memo[key]

    def _same_value(self, a, b):
        minus = Summand(-b.coef, b.factors, b.bvars, b.conds)
        try:
            return Prover(self).zero_list(merge([a, minus])).status == "proved"
        except Unsupported:
            return False

    def resolve_max(self, t):
        """The alternative of max(number, rest) that the path's decisions single out."""
        one = [x for x in t.alts if not x[0] and x[1] == TRUE]
        rest = [x for x in t.alts if x[0] or x[1] != TRUE]
        if len(one) == 1 and rest:
            a, b = one[0][2], TMax(rest)
        elif len(one) == 2 and not rest:
            a, b = one[0][2], one[1][2]
        else:
            return None
        key = ("max", canon(t), len(self.real_dec))
        if key not in self.memo:
            z = self._real(merge(apply_real_subst(merge(expand(a - b)), self)))
            self.memo[key] = (
                b if self._zsat(z > 0) == z3.unsat else a if self._zsat(z < 0) == z3.unsat else None
            )
        return self.memo[key]

    def decide_opaque(self, key):
        """A boolean about which nothing is known (stable per key on this path)."""
        k = ("opaque", key)
        if k not in self.memo:
            self.memo[k] = self.fork()
        return self.memo[k]

    def model(self):
        """Values of declared sizes and scalars satisfying the path condition."""
        r = self.solver.check()
        return self.small_model(self.solver) if r == z3.sat else None

    def small_model(self, s):
        """The model of a satisfiable solver state, with small sizes when there is one."""
        best = s.model()
        for cap in (6, 14, 40):
            s.push()
            s.add([self.conv.i(IExpr.var(v)) <= cap for v in self.hints.values()])
            r = s.check()
            if r == z3.sat:
                best = s.model()
            s.pop()
            if r == z3.sat:
                break
        return self.read_model(best)

    def read_model(self, m):
        out = {}
        for name, v in self.hints.items():
            z = m.eval(z3.Int(v.z3name()), model_completion=True)
            try:
                out[name] = z.as_long()
            except Exception:
                pass
        for name, sym in self.reals.items():
            z = m.eval(z3.Real(f"r_{sym.name}!{sym.uid}"))
            try:
                if z3.is_rational_value(z):
                    out[name] = float(Fraction(z.numerator_as_long(), z.denominator_as_long()))
                elif z3.is_algebraic_value(z):
                    out[name] = float(z.approx(20).as_fraction())
            except Exception:
                pass
        return out


CUR = [None]


def _known_nonneg(e):
    c = e.const_value()
    if c is not None:
        return c >= 0
    p = CUR[0]
    if p is None:
        return False
    f = FACTORED.get(e)
    if f is not None and _known_nonneg(f[0]) and _known_nonneg(f[1]):
        return True
    if p.known(ge0(e)):
        return True
    vs = e.vars()
    scope = [b for b in term.SCOPE if bvars_of(b) & vs]
    if not scope:
        return False
    key = ("nonneg", e, tuple(scope), len(p.facts))
    if key not in p.memo:
        p.memo[key] = p.sat(conj(scope + [neg(ge0(e))])) == z3.unsat
    return p.memo[key]


term.KNOWN_NONNEG = _known_nonneg


def path():
    p = CUR[0]
    if p is None:
        raise Unsupported("symbolic value used outside a verification run")
    return p


# ------------------------------------------------------------------ Python scalars
class SymBool:
    def __init__(self, b, real=None):
        self.b, self.real = b, real

    def __bool__(self):
        if self.real is not None:
            kind, t, flip = self.real
            return path().decide_real(kind, t) != flip
        return path().decide(self.b)

    def __invert__(self):
        if self.real is not None:
            k, t, f = self.real
            return SymBool(None, (k, t, not f))
        return SymBool(neg(self.b))

    def item(self):
        return bool(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return id(self)


_HUGE = 10**40


def is_symint(x):
    return isinstance(x, SymInt)


class SymInt(int):
    """A Python int with a symbolic value (the stored machine value is a trap)."""

    def __new__(cls, e):
        e = IExpr.of(e)
        self = int.__new__(cls, _HUGE + 7 * (id(e) % 1000003))
        self.iexpr = e
        self.group = None
        return self

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self  # noqa: E731

    @property
    def term(self):
        return tint(self.iexpr)

    def _bin(self, o, f):
        if isinstance(o, SymReal) or isinstance(o, float) or isinstance(o, Fraction):
            return NotImplemented
        if not isinstance(o, int):
            return NotImplemented
        return mkint(f(self.iexpr, IExpr.of(o)))

    def __add__(self, o):
        if isinstance(o, float):
            return mkreal(self.term + to_term(o))
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, float):
            return mkreal(self.term - to_term(o))
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if isinstance(o, float):
            return mkreal(to_term(o) - self.term)
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, float):
            return mkreal(self.term * to_term(o))
        if isinstance(o, (list, tuple, str)):
            raise Unsupported("sequence repeated a symbolic number of times")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.iexpr)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if self >= 0 else -self

    @staticmethod
    def _div(a, b):
        if path().decide(eq0(b)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if path().decide(ge0(b)):
            return a, b
        return -a, -b

    def __floordiv__(self, o):
        if isinstance(o, float):
            raise Unsupported("floor division by a float")
        a, b = SymInt._div(self.iexpr, IExpr.of(o))
        return mkint(floordiv(a, b))

    def __rfloordiv__(self, o):
        a, b = SymInt._div(IExpr.of(o), self.iexpr)
        return mkint(floordiv(a, b))

    def __mod__(self, o):
        b = IExpr.of(o)
        return mkint(self.iexpr - b * IExpr.of(self // o))

    def __rmod__(self, o):
        return mkint(IExpr.of(o) - self.iexpr * IExpr.of(o // self))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        if bool(o == 0):
            raise ZeroDivisionError("division by zero")
        return mkreal(self.term / to_term(o))

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        return mkreal(to_term(o) / self.term)

    def __pow__(self, o):
        if isinstance(o, int) and not is_symint(o) and 0 <= o <= 4:
            r = mkint(IExpr.const(1))
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, (int, float)) and not isinstance(o, (SymInt, SymReal)):
            return mkreal(power(self.term, Fraction(o)))
        raise Unsupported("power with symbolic exponent")

    def __rpow__(self, o):
        raise Unsupported("power with symbolic exponent")

    def _cmp(self, o, f, fr):
        if isinstance(o, float) and not isinstance(o, SymReal) and o in (
            float("inf"),
            float("-inf"),
        ):
            return fr(o)
        if isinstance(o, (SymReal, float)):
            return None
        if not isinstance(o, int):
            return NotImplemented
        return SymBool(f(self.iexpr, IExpr.of(o)))

    def __eq__(self, o):
        r = self._cmp(o, eq, lambda x: False)
        if r is None:
            return SymBool(None, ("eq", self.term - to_term(o), False))
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        r = self._cmp(o, lt, lambda x: x > 0)
        if r is None:
            return SymBool(None, ("lt", self.term - to_term(o), False))
        return r

    def __le__(self, o):
        r = self._cmp(o, le, lambda x: x > 0)
        if r is None:
            return SymBool(None, ("le", self.term - to_term(o), False))
        return r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: lt(b, a), lambda x: x < 0)
        if r is None:
            return SymBool(None, ("lt", to_term(o) - self.term, False))
        return r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: le(b, a), lambda x: x < 0)
        if r is None:
            return SymBool(None, ("le", to_term(o) - self.term, False))
        return r

    def __bool__(self):
        return not path().decide(eq0(self.iexpr))

    def __hash__(self):
        return hash(self.iexpr)

    def __float__(self):
        raise Unsupported("float() of a symbolic integer")

    def __int__(self):
        return self

    def __index__(self):
        raise Unsupported("symbolic integer used as a machine index")

    def __repr__(self):
        return f"SymInt({self.iexpr})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __and__(self, o):
        raise Unsupported("bit operation on a symbolic integer")

    __or__ = __xor__ = __lshift__ = __rshift__ = __rand__ = __ror__ = __and__

    def bit_length(self):
        raise Unsupported("bit_length of a symbolic integer")


def mkint(e):
    """Python int if constant, SymInt otherwise."""
    e = IExpr.of(e)
    c = e.const_value()
    return c if c is not None else SymInt(e)


class SymReal(float):
    """A Python float with a symbolic value."""

    def __new__(cls, t):
        self = float.__new__(cls, float("nan"))
        self.term = to_term(t)
        return self

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self  # noqa: E731

    def _b(self, o, f):
        if getattr(o, "_is_symtensor", False):
            return NotImplemented
        if not isinstance(o, (int, float, Fraction)):
            return NotImplemented
        return mkreal(f(self.term, to_term(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not getattr(o, "_is_symtensor", False) and isinstance(o, (int, float)):
            if bool(o == 0):
                raise ZeroDivisionError("float division by zero")
        return self._b(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if bool(self == 0):
            raise ZeroDivisionError("float division by zero")
        return self._b(o, lambda a, b: b / a)

    def __neg__(self):
        return mkreal(-self.term)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(TFn("abs", (self.term,)))

    def __pow__(self, o):
        if isinstance(o, (SymReal, SymInt)):
            raise Unsupported("power with symbolic exponent")
        return mkreal(power(self.term, Fraction(o)))

    def __rpow__(self, o):
        raise Unsupported("power with symbolic exponent")

    def _c(self, o, kind, swap, flip):
        if getattr(o, "_is_symtensor", False) or not isinstance(o, (int, float)):
            return NotImplemented
        if not isinstance(o, (SymInt, SymReal)) and float(o) in (
            float("inf"),
            float("-inf"),
        ):
            lessthan = float(o) > 0
            return {"eq": False, "lt": lessthan != swap, "le": lessthan != swap}[kind] != flip
        t = self.term - to_term(o)
        return SymBool(None, (kind, -t if swap else t, flip))

    def __eq__(self, o):
        r = self._c(o, "eq", False, False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._c(o, "eq", False, True)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._c(o, "lt", False, False)

    def __le__(self, o):
        return self._c(o, "le", False, False)

    def __gt__(self, o):
        return self._c(o, "lt", True, False)

    def __ge__(self, o):
        return self._c(o, "le", True, False)

    def __bool__(self):
        return not path().decide_real("eq", self.term)

    def __hash__(self):
        return id(self)

    def __float__(self):
        return self

    def __int__(self):
        raise Unsupported("int() of a symbolic float")

    __trunc__ = __floor__ = __ceil__ = __round__ = __int__

    def __floordiv__(self, o):
        raise Unsupported("floor division of a symbolic float")

    __rfloordiv__ = __mod__ = __rmod__ = __divmod__ = __rdivmod__ = __floordiv__

    def is_integer(self):
        raise Unsupported("is_integer of a symbolic float")

    def __repr__(self):
        return f"SymReal({self.term!r})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def mkreal(t):
    return SymReal(t)


def is_sym_scalar(x):
    return isinstance(x, (SymInt, SymReal))


# ------------------------------------------------------------------ proving
def _nonneg_key(k):
    return k[0] == "fn" and isinstance(k[1], Term) and nonneg(k[1])


def _positive_key(k):
    """A maximum of which one element is a positive number."""
    return (
        k[0] == "fn"
        and isinstance(k[1], TMax)
        and any(not b and c == TRUE and isinstance(t, TNum) and t.c > 0 for b, c, t in k[1].alts)
    )


def apply_real_subst(summands, p):
    if not p.real_subst:
        return summands
    out = []
    for s in summands:
        hit = [k for k in s.factors if k[0] == "atom" and not k[2] and k[1] in p.real_subst]
        if not hit:
            out.append(s)
            continue
        coef, f = s.coef, dict(s.factors)
        dead = False
        for k in hit:
            e = f[k]
            v = p.real_subst[k[1]]
            if v == 0:
                if e > 0:
                    dead = True
                continue
            if e.denominator == 1:
                coef *= v ** int(e)
                f.pop(k)
            elif v == 1:
                f.pop(k)
        if not dead:
            out.append(Summand(coef, f, s.bvars, s.conds))
    return out


class Result:
    def __init__(self, status, backend="", model=None, why=""):
        self.status = status  # 'proved' | 'refuted' | 'unknown'
        self.backend = backend
        self.model = model
        self.why = why

    def __repr__(self):
        return f"{self.status}({self.backend}{', ' + self.why if self.why else ''})"


def _solve(bvars, eqs, conds, ints):
    """Eliminate bound variables determined by equations (unit coefficients)."""
    bvars = list(bvars)
    eqs = [e for e in eqs if e.terms]
    conds = list(conds)
    changed = True
    mp_all = {}
    while changed and bvars:
        changed = False
        for i, e in enumerate(eqs):
            for v in bvars:
                c = e.terms.get((v,))
                if c in (1, -1):
                    rest = IExpr({m: k for m, k in e.terms.items() if m != (v,)})
                    if v in rest.vars():
                        continue
                    sol = -rest if c == 1 else rest
                    mp = {v: sol}
                    eqs = [x.subst(mp) for j, x in enumerate(eqs) if j != i]
                    eqs = [x for x in eqs if x.terms]
                    conds = [bsubst(b, mp) for b in conds]
                    ints = [(x.subst(mp), p) for x, p in ints]
                    mp_all = {k: x.subst(mp) for k, x in mp_all.items()}
                    mp_all[v] = sol
                    bvars.remove(v)
                    changed = True
                    break
            if changed:
                break
    conds = conds + [eq0(e) for e in eqs]
    c = conj(conds)
    if c == FALSE:
        return None
    return bvars, c, ints, mp_all


def _witness(free, eqs, rng):
    """Candidate values of the variables ``free`` satisfying the equations."""
    eqs = [e for e in eqs if e.terms]
    free = list(free)
    sol = {}
    while True:
        pick = None
        for j, e in enumerate(eqs):
            us = set(free)
            us |= {x for x in e.vars() if isinstance(x, IDiv) and x.num.vars() & us}
            # floor divisions first: they are determined by their value
            for u in sorted(us, key=lambda x: (not isinstance(x, IDiv), x.uid)):
                k = e.terms.get((u,))
                if k not in (1, -1):
                    continue
                rest = IExpr({m: c for m, c in e.terms.items() if m != (u,)})
                if u in rest.vars():
                    continue
                pick = (j, u, -rest if k == 1 else rest)
                break
            if pick:
                break
        if pick is None:
            break
        j, u, val = pick
        mp = {u: val}
        eqs = [x.subst(mp) for i, x in enumerate(eqs) if i != j]
        eqs = [x for x in eqs if x.terms]
        sol = {k: x.subst(mp) for k, x in sol.items()}
        if not isinstance(u, IDiv):
            sol[u] = val
            free.remove(u)
    sol = {k: x for k, x in sol.items()}
    if not free:
        return [sol]
    cands = [IExpr.const(0)]
    for b in rng:
        if b[0] == "ge":
            for v in free:
                k = b[1].terms.get((v,))
                rest = IExpr({m: c for m, c in b[1].terms.items() if m != (v,)})
                if k == 1 and not rest.vars() & set(free) and -rest not in cands:
                    cands.append(-rest)
                if k == -1 and not rest.vars() & set(free) and rest not in cands:
                    cands.append(rest)
    out = []
    for vals in itertools.islice(itertools.product(cands, repeat=len(free)), 16):
        mp = dict(zip(free, vals))
        out.append({**{k: x.subst(mp) for k, x in sol.items()}, **mp})
    return out


def _count(left, c, ints):
    """Replace summation variables that occur only in linear bounds by their number of values:
    a list of (left, condition, integer factors, multiplicity)."""
    for v in left:
        if any(v in e.vars() for e, _ in ints):
            continue
        cl = list(c[1]) if c[0] == "and" else ([] if c == TRUE else [c])
        about = [b for b in cl if v in bvars_of(b)]
        los, his, ok = [], [], bool(about)
        for b in about:
            k = b[1].terms.get((v,)) if b[0] == "ge" else None
            if k not in (1, -1):
                ok = False
                break
            rest = IExpr({m: x for m, x in b[1].terms.items() if m != (v,)})
            if v in rest.vars():
                ok = False
                break
            new, bound = (los, -rest) if k == 1 else (his, rest + 1)
            for i, o in enumerate(new):
                d = (bound - o).const_value()
                if d is not None:
                    if (d > 0) == (k == 1):
                        new[i] = bound
                    break
            else:
                new.append(bound)
        if not ok or not los or not his or len(los) * len(his) > 12:
            continue
        others = [b for b in cl if b not in about]
        rest_left = [x for x in left if x is not v]
        out = []
        for i, lo in enumerate(los):
            gl = [lt(x, lo) if j < i else le(x, lo) for j, x in enumerate(los) if j != i]
            for k, hi in enumerate(his):
                gh = [lt(hi, x) if j < k else le(hi, x) for j, x in enumerate(his) if j != k]
                n = hi - lo
                g = conj(others + gl + gh + [ge0(n)])
                if g == FALSE:
                    continue
                cv = n.const_value()
                if cv is not None:
                    for l2, c2, i2, m in _count(rest_left, g, ints):
                        out.append((l2, c2, i2, m * cv))
                else:
                    out += _count(rest_left, g, list(ints) + [(n, Fraction(1))])
        return out
    return [(left, c, ints, 1)]


def _shape(k, e):
    """What a factor must share with another one to have a chance of being equal."""
    if k[0] == "atom":
        return f"{k[1].name}#{k[1].uid}^{e}"
    if k[0] == "fn":
        return f"{type(k[1]).__name__} {getattr(k[1], 'name', '')}^{e}"
    return k[0]


class Prover:
    def __init__(self, p):
        self.p = p
        self.reps = []

    # -- public
    def zero(self, t, extra=()):
        """Prove that t == 0 for all values of atoms and all free index variables in ``extra``."""
        bad = t.fv() & self.p.closed_vars
        if bad:
            raise Unsupported("value of a loop variable escapes a summarised loop")
        return self.zero_list(merge(apply_real_subst(merge(expand(t)), self.p)), extra)

    def zero_list(self, ex, extra=()):
        """The same for a list of summands."""
        if not ex:
            STATS.syntactic += 1
            return Result("proved", "normal form")
        ex = merge([self._resolve_max(s) for s in ex])
        ex = [self._presolve(s) for s in ex]
        ex = merge([s for s in ex if s is not None])
        if not ex:
            STATS.syntactic += 1
            return Result("proved", "normal form")
        groups = {}
        for s in ex:
            key, occs, ints = self._classify(s)
            groups.setdefault(key, []).append((s, occs, ints))
        backend = "normal form"
        worst = None
        for key, members in groups.items():
            r = self._group(key, members, extra)
            if r.status == "proved":
                if r.backend != "normal form":
                    backend = r.backend
                continue
            if worst is None or r.status == "refuted":
                worst = r
            if r.status == "refuted" and r.model is not None:
                return r
        if worst is not None:
            return worst
        return Result("proved", backend)

    # -- internals
    def _resolve_max(self, s):
        """A maximum whose order an earlier branch of the path decided is that alternative."""
        if not self.p.real_dec or not any(k[0] == "fn" and isinstance(k[1], TMax) for k in s.factors):
            return s
        f, coef, conds, bvars = {}, s.coef, s.conds, s.bvars
        for k, e in s.factors.items():
            if k[0] == "fn" and isinstance(k[1], TMax) and e.denominator == 1:
                r = self.p.resolve_max(k[1])
                if r is not None:
                    rx = merge(expand(power(r, e)))
                    if len(rx) == 1 and not rx[0].bvars:
                        for k2, e2 in rx[0].factors.items():
                            f[k2] = f.get(k2, 0) + e2
                        coef *= rx[0].coef
                        conds += tuple(c for c in rx[0].conds if c not in conds)
                        continue
            f[k] = f.get(k, 0) + e
        return Summand(coef, {k: e for k, e in f.items() if e}, bvars, conds)

    def _presolve(self, s):
        """Use equalities in the guard to remove bound variables; count trivial ones."""
        if not s.bvars and all(b[0] != "false" for b in s.conds):
            return s
        for _ in range(4):
            t = self._split_div(s)
            if t is None:
                break
            s = t
        eqs = [b[1] for b in s.conds if b[0] == "eq"]
        conds = [b for b in s.conds if b[0] != "eq"]
        r = _solve(s.bvars, eqs, conds, [])
        if r is None:
            return None
        bvars, c, _, mp = r
        f = {}
        for k, e in s.factors.items():
            k2 = fkey_subst(k, mp) if mp else k
            f[k2] = f.get(k2, 0) + e
        f = {k: e for k, e in f.items() if e}
        cl = c[1] if c[0] == "and" else (() if c == TRUE else (c,))
        s = Summand(s.coef, f, bvars, cl)
        t = self._window(s)
        if t is not None:
            return self._presolve(t)
        # counting variables: not in factors, only simple bounds
        for v in list(s.bvars):
            infac = False
            for k in s.factors:
                if k[0] == "atom" and any(v in e.vars() for e in k[2]):
                    infac = True
                elif k[0] == "int" and v in k[1].vars():
                    infac = True
                elif k[0] == "fn" and v in k[1].fv():
                    infac = True
            if infac:
                continue
            about = [b for b in s.conds if v in bvars_of(b)]
            if all(b[0] == "ge" for b in about) and len(about) == 2:
                lo = hi = None
                for b in about:
                    c1 = b[1].terms.get((v,))
                    rest = IExpr({m: k for m, k in b[1].terms.items() if m != (v,)})
                    if v in rest.vars():
                        continue
                    if c1 == 1:
                        lo = -rest
                    elif c1 == -1:
                        hi = rest + 1
                if lo is not None and hi is not None:
                    n = hi - lo
                    f = dict(s.factors)
                    coef = s.coef
                    c = n.const_value()
                    if c is not None:
                        if c <= 0:
                            return None
                        coef *= c
                    else:
                        f[("int", n)] = f.get(("int", n), 0) + 1
                        if not f[("int", n)]:
                            f.pop(("int", n))
                    conds = tuple(b for b in s.conds if b not in about)
                    g = ge0(n)
                    if g != TRUE and g not in conds:
                        conds += (g,)
                    s = Summand(coef, f, tuple(x for x in s.bvars if x is not v), conds)
        return s

    def _window(self, s):
        """0 <= e - c * v < c determines the bound variable v = floor(e / c)."""
        lows, highs = [], []
        for b in s.conds:
            if b[0] != "ge":
                continue
            for v in s.bvars:
                c = b[1].terms.get((v,))
                if c is None or abs(c) < 2:
                    continue
                rest = IExpr({m: k for m, k in b[1].terms.items() if m != (v,)})
                if v in rest.vars():
                    continue
                (lows if c < 0 else highs).append((v, abs(c), rest))
        for v, c, e in lows:
            for w, d, r in highs:
                # c v + r >= 0 with r = c - 1 - e
                if w is v and d == c and (r + e - (c - 1)).terms == {}:
                    mp = {v: floordiv(e, IExpr.const(c))}
                    f = {}
                    for k, x in s.factors.items():
                        k2 = fkey_subst(k, mp)
                        f[k2] = f.get(k2, 0) + x
                    f = {k: x for k, x in f.items() if x}
                    g = conj([bsubst(b, mp) for b in s.conds])
                    cl = g[1] if g[0] == "and" else (() if g == TRUE else (g,))
                    return Summand(s.coef, f, tuple(y for y in s.bvars if y is not v), cl)
        return None

    def _split_div(self, s):
        """A bound variable v with floor((v + e) / c) becomes v = c * b + r - e, 0 <= r < c."""
        nodes = set()
        for b in s.conds:
            nodes |= {x for x in bvars_of(b) if isinstance(x, IDiv)}
        for k in s.factors:
            if k[0] == "atom":
                for e in k[2]:
                    nodes |= {x for x in e.vars() if isinstance(x, IDiv)}
            elif k[0] == "int":
                nodes |= {x for x in k[1].vars() if isinstance(x, IDiv)}
            elif k[0] == "fn":
                nodes |= {x for x in k[1].fv() if isinstance(x, IDiv)}
        for x in sorted(nodes, key=lambda x: x.uid):
            d = x.den.const_value()
            if d is not None and d <= 1:
                continue
            if d is None:
                if x.den.vars() & set(s.bvars) or not self.p.known(ge0(x.den - 1)):
                    continue
                d = x.den
            for v in s.bvars:
                if x.num.terms.get((v,)) != 1:
                    continue
                rest = IExpr({m: k for m, k in x.num.terms.items() if m != (v,)})
                if v in rest.vars():
                    continue
                b, r = IVar("b"), IVar("r")
                er = IExpr.var(r)
                mp = {v: d * IExpr.var(b) + er - rest}
                d = IExpr.of(d)
                z = {IDiv(er, d): IExpr.const(0)}
                f = {}
                for k, e in s.factors.items():
                    k2 = fkey_subst(fkey_subst(k, mp), z)
                    f[k2] = f.get(k2, 0) + e
                f = {k: e for k, e in f.items() if e}
                conds = []
                for c in s.conds:
                    c = bsubst(bsubst(c, mp), z)
                    if c[0] == "ge":
                        # d X + r >= 0 iff X >= 0, and d X - 1 - r >= 0 iff X >= 1
                        q = divexact(c[1] - er, d)
                        if q is not None:
                            c = ge0(q)
                        else:
                            q = divexact(c[1] + er + 1, d)
                            if q is not None:
                                c = ge0(q - 1)
                    conds.append(c)
                conds += [ge0(er), lt(er, d)]
                c = conj(conds)
                if c == ("false",):
                    return Summand(0, f, (), (("false",),))
                cl = c[1] if c[0] == "and" else (() if c[0] == "true" else (c,))
                bv = tuple(y for y in s.bvars if y is not v) + (b, r)
                return Summand(s.coef, f, bv, cl)
        return None

    def _rep(self, t):
        for i, r in enumerate(self.reps):
            if self._fn_equal(t, r):
                return i
        self.reps.append(t)
        return len(self.reps) - 1

    def _fn_equal(self, a, b):
        if type(a) is not type(b):
            return False
        if canon(a) == canon(b):
            return True
        if isinstance(a, TFn):
            if a.name != b.name or len(a.args) != len(b.args):
                return False
            return all(
                Prover(self.p).zero(x - y).status == "proved" for x, y in zip(a.args, b.args)
            )
        if isinstance(a, TMax):
            return self._max_same(a, b) or (self._max_cover(a, b) and self._max_cover(b, a))
        return False

    def _max_same(self, a, b):
        """The families agree one by one, over the same index ranges."""
        if len(a.alts) != len(b.alts) or len(a.alts) > 4:
            return False
        rest = list(b.alts)
        for x in a.alts:
            for i, y in enumerate(rest):
                if self._family_same(x, y):
                    rest.pop(i)
                    break
            else:
                return False
        return True

    def _family_same(self, x, y):
        (bx, cx, tx), (by, cy, ty) = x, y
        if len(bx) != len(by):
            return False
        mx, my, facts = {}, {}, []
        for (v, lo, hi), (w, lo2, hi2) in zip(bx, by):
            for e, f in ((lo.subst(mx), lo2.subst(my)), (hi.subst(mx), hi2.subst(my))):
                if e != f and not self.p.known(eq(e, f)):
                    return False
            u = IExpr.var(IVar(v.name))
            facts += [le(lo.subst(mx), u), lt(u, hi.subst(mx))]
            mx[v] = my[w] = u
        cx, cy = bsubst(cx, mx), bsubst(cy, my)
        if cx != cy and not (self._unsat(facts + [cx, neg(cy)]) and self._unsat(facts + [cy, neg(cx)])):
            return False
        tx, ty = tx.subst(mx), ty.subst(my)
        if isinstance(tx, TFn) and isinstance(ty, TFn) and tx.name == ty.name == "abs":
            tx, ty = tx.args[0], ty.args[0]
        return Prover(self.p).zero(tx - ty, facts + [cx]).status == "proved"

    def _max_cover(self, a, b):
        """Every non-zero element of the family a is an element of the family b."""
        for bvs, cond, t in a.alts:
            # rename a's bound variables to fresh free ones
            ren, facts = {}, []
            for v, lo, hi in bvs:
                w = IExpr.var(IVar(v.name))
                lo, hi = lo.subst(ren), hi.subst(ren)
                ren[v] = w
                facts += [le(lo, w), lt(w, hi)]
            t = t.subst(ren)
            facts.append(bsubst(cond, ren))
            inner = t.args[0] if isinstance(t, TFn) and t.name == "abs" else t
            ex = merge(apply_real_subst(merge(expand(inner)), self.p))
            for s in ex:
                if s.bvars:
                    s2 = self._presolve(s)
                    if s2 is None:
                        continue
                    s = s2
                    if s.bvars:
                        return False
                g = facts + list(s.conds)
                if self._unsat(g):
                    continue
                if not self._cover_one(s, inner, g, b):
                    return False
        return True

    def _cover_one(self, s, inner, g, b):
        akey = self._classify(s)
        for bvs, cond, t in b.alts:
            inner_b = t.args[0] if isinstance(t, TFn) and t.name == "abs" else t
            ren = {v: IExpr.var(IVar(v.name)) for v, _, _ in bvs}
            rng = []
            for v, lo, hi in bvs:
                rng += [le(lo.subst(ren), ren[v]), lt(ren[v], hi.subst(ren))]
            rng.append(bsubst(cond, ren))
            inner_r = inner_b.subst(ren)
            free = [next(iter(e.vars())) for e in ren.values()]
            for s2 in merge(expand(inner_r)):
                s2 = self._presolve(s2)
                if s2 is None or s2.bvars:
                    continue
                k2 = self._classify(s2)
                if k2[0] != akey[0]:
                    continue
                eqs = []
                for (c1, i1), (c2, i2) in zip(akey[1], k2[1]):
                    eqs += [x - y for x, y in zip(i1, i2)]
                eqs += [x[1] for x in s2.conds if x[0] == "eq"]
                for mp in _witness(free, eqs, rng):
                    c = conj([bsubst(x, mp) for x in rng])
                    diff = ite(conj(g), inner_r.subst(mp) - inner, num(0))
                    if self._unsat(g + [neg(c)]) and (
                        Prover(self.p).zero(diff).status == "proved"
                    ):
                        return True
        return False

    def _unsat(self, bs):
        b = conj(bs)
        if b == FALSE:
            return True
        return self._check(lambda conv: conv.b(b), bvars_of(b)).status == "proved"

    def _classify(self, s):
        cls, occs, ints = [], [], []
        for k, e in s.factors.items():
            if k[0] == "int":
                ints.append((k[1], e))
            elif k[0] == "num":
                cls.append(("num", k[1], e))
            elif k[0] == "fn":
                cls.append(("fn", self._rep(k[1]), e))
            else:
                if not k[2]:
                    cls.append(("scalar", k[1].uid, e))
                elif e.denominator == 1 and e > 0:
                    for _ in range(int(e)):
                        occs.append(((k[1].uid, Fraction(1)), k[2]))
                else:
                    occs.append(((k[1].uid, e), k[2]))
        occs.sort(key=lambda o: (o[0][0], o[0][1]))
        key = (tuple(sorted(cls, key=repr)), tuple(o[0] for o in occs))
        return key, occs, ints

    def _group(self, key, members, extra):
        occ_classes = key[1]
        us, eqn = [], []
        for c, i in zip(occ_classes, members[0][1]):
            us.append(tuple(IExpr.var(IVar("u")) for _ in i[1]))
        # permutations of equal classes
        blocks = {}
        for n, c in enumerate(occ_classes):
            blocks.setdefault(c, []).append(n)
        perms = [list(range(len(occ_classes)))]
        for c, pos in blocks.items():
            if len(pos) > 1:
                if len(pos) > 5:
                    return Result("unknown", why="too many equal factors")
                new = []
                for base in perms:
                    for q in itertools.permutations(pos):
                        b = list(base)
                        for x, y in zip(pos, q):
                            b[x] = y
                        new.append(b)
                perms = new
        entries = {}
        leftover_flag = False
        for s, occs, ints in members:
            seen_local = {}
            for pm in perms:
                eqs = []
                for n, (c, idx) in enumerate(occs):
                    eqs += [x - y for x, y in zip(idx, us[pm[n]])]
                ceqs = [b[1] for b in s.conds if b[0] == "eq"]
                conds = [b for b in s.conds if b[0] != "eq"]
                r = _solve(s.bvars, eqs + ceqs, conds, ints)
                if r is None:
                    continue
                left, c, ints2, _ = r
                for left, c, ints2, mult in _count(left, c, ints2):
                    ints2 = _merge_ints(ints2)
                    if left:
                        leftover_flag = True
                    ent = (tuple(left), c, ints2)
                    seen_local[ent] = seen_local.get(ent, 0) + mult
            for ent, n in seen_local.items():
                entries.setdefault(len(ent[0]), []).append(
                    (ent, s.coef * Fraction(n, len(perms)))
                )
        used_z3 = False
        for nleft, lst in entries.items():
            # align leftovers
            ws = [IExpr.var(IVar("w")) for _ in range(nleft)]
            table = {}
            for (left, c, ints), coef in lst:
                best = None
                for q in itertools.permutations(range(nleft)):
                    mp = {v: ws[q[i]] for i, v in enumerate(left)}
                    k = (
                        _ckey(bsubst(c, mp)),
                        frozenset((e.subst(mp), p) for e, p in ints),
                    )
                    if best is None:
                        best = (k, mp)
                    if k in table:
                        best = (k, mp)
                        break
                k, mp = best
                if k in table:
                    table[k][1] += coef
                else:
                    table[k] = [
                        (bsubst(c, mp), [(e.subst(mp), p) for e, p in ints]),
                        coef,
                    ]
            rest = [(x, co) for x, co in table.values() if co]
            if not rest:
                continue
            used_z3 = True
            r = self._pointwise(rest, extra)
            if r.status != "proved" and nleft > 1 and len(rest) <= 4:
                # other ways to match the summation variables of the members
                perms_w = list(itertools.permutations(range(nleft)))
                for combo in itertools.islice(
                    itertools.product(perms_w, repeat=len(rest) - 1), 1, 24
                ):
                    alt = [rest[0]]
                    for ((c, ints), co), q in zip(rest[1:], combo):
                        mp = {next(iter(ws[i].vars())): ws[q[i]] for i in range(nleft)}
                        alt.append(((bsubst(c, mp), [(e.subst(mp), x) for e, x in ints]), co))
                    r2 = self._pointwise(alt, extra)
                    if r2.status == "proved":
                        r = r2
                        break
            if r.status != "proved":
                if leftover_flag and r.status == "refuted":
                    r.why = "sum not in closed form"
                    r.status = "unknown"
                return r
        if used_z3:
            return Result("proved", "z3")
        return Result("proved", "normal form")

    def _pointwise(self, rest, extra):
        """The weighted guarded members add up to zero for all free variables."""

        def build(conv, rest=rest, axioms=False):
            tot = None
            fns = {}
            for (c, ints), co in rest:
                w = z3.RealVal(str(co))
                for e, pw in ints:
                    w = w * _zpow(conv, e, pw, fns)
                t = z3.If(conv.b(c), w, z3.RealVal(0))
                tot = t if tot is None else tot + t
            if axioms:
                seen, ax = set(), []
                for (_, ints), _ in rest:
                    for e, pw in ints:
                        if pw != -1 or e in seen or e.const_value() is not None:
                            continue
                        seen.add(e)
                        z = conv.i(e)
                        ax.append(
                            z3.Implies(z >= 1, z3.ToReal(z) * _zpow(conv, e, pw, fns) == 1)
                        )
                return z3.And(tot != 0, *ax)
            return tot != 0

        vs = set()
        for (c, ints), _ in rest:
            vs |= bvars_of(c)
            for e, _p in ints:
                vs |= e.vars()
        r = self._check(build, vs, extra, want_model=True)
        if r.status != "proved" and any(
            pw == -1 and any(q > 0 for _, q in ints) for (_, ints), _ in rest for _, pw in ints
        ):
            r = self._check(
                lambda conv: build(conv, axioms=True), vs, extra, want_model=True
            )
        return r

    def _check(self, build, vs, extra=(), want_model=False):
        """Is ``build`` unsatisfiable together with the path condition?"""
        p = self.p
        conv = p.conv
        facts = list(p.facts) + list(extra)
        z = build(conv)
        s = z3.Solver()
        s.set("timeout", Z3_TIMEOUT)
        for b in facts:
            s.add(conv.b(b))
        for side in conv.side:
            s.add(side)
        s.add(z)
        t = time.time()
        r = s.check()
        STATS.z3_time += time.time() - t
        STATS.z3_queries += 1
        if r == z3.unsat:
            STATS.z3_unsat += 1
            if KEEP_SMT:
                STATS.queries.append(s.to_smt2())
            return Result("proved", "z3")
        if r == z3.sat:
            return Result("refuted", "z3", p.small_model(s) if want_model else None)
        return Result("unknown", "z3", why=s.reason_unknown())


def _ckey(c):
    if c[0] == "and":
        return ("and", frozenset(c[1]))
    return c


def _merge_ints(ints):
    d = {}
    for e, p in ints:
        c = e.const_value()
        d[e] = d.get(e, 0) + p
    return tuple(sorted(((e, p) for e, p in d.items() if p), key=repr))


def _zpow(conv, e, pw, fns):
    z = conv.i(e)
    if pw.denominator == 1 and pw > 0:
        r = z3.ToReal(z)
        out = r
        for _ in range(int(pw) - 1):
            out = out * r
        return out
    c = e.const_value()
    if c is not None and c > 0 and pw.denominator == 1:
        return z3.RealVal(str(Fraction(c) ** int(pw)))
    key = str(pw)
    f = fns.get(key)
    if f is None:
        f = fns[key] = z3.Function(f"pow_{key}", z3.IntSort(), z3.RealSort())
    return f(z)
