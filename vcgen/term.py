"""Real-valued terms (entries of symbolic tensors) and their sum-of-products normal form."""

import math
from collections import Counter
from fractions import Fraction

from vcgen.iexpr import (
    FACTORED,
    FALSE,
    TRUE,
    IExpr,
    IDiv,
    IVar,
    Unsupported,
    bsubst,
    bvars_of,
    conj,
    eq0,
    le,
    lt,
    neg,
)


class Term:
    __slots__ = ("_fv",)

    def fv(self):
        """Free integer variables."""
        try:
            return self._fv
        except AttributeError:
            self._fv = self._free()
            return self._fv

    def subst(self, mp):
        if not mp or not (self.fv() & mp.keys()):
            return self
        return self._subst(mp)

    def __add__(self, o):
        return add([self, to_term(o)])

    __radd__ = __add__

    def __neg__(self):
        return mul([num(-1), self])

    def __sub__(self, o):
        return add([self, mul([num(-1), to_term(o)])])

    def __rsub__(self, o):
        return add([to_term(o), mul([num(-1), self])])

    def __mul__(self, o):
        return mul([self, to_term(o)])

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul([self, power(to_term(o), Fraction(-1))])

    def __rtruediv__(self, o):
        return mul([to_term(o), power(self, Fraction(-1))])

    def __pow__(self, e):
        return power(self, Fraction(e))


class TNum(Term):
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def _free(self):
        return frozenset()

    def _subst(self, mp):
        return self

    def __repr__(self):
        return str(self.c)


class TInt(Term):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def _free(self):
        return frozenset(self.e.vars())

    def _subst(self, mp):
        return tint(self.e.subst(mp))

    def __repr__(self):
        return f"<{self.e}>"


class Sym:
    """Declaration of an uninterpreted tensor / scalar (the name of an atom)."""

    _n = 0

    def __init__(self, name, positive=False, nonneg=False, real_constraints=()):
        Sym._n += 1
        self.uid = Sym._n
        self.name = name
        self.positive = positive
        self.nonneg = nonneg or positive
        self.sort_perm = None  # e.g. "sym": entries invariant under index swap

    def __repr__(self):
        return self.name


class TAtom(Term):
    __slots__ = ("sym", "idx")

    def __init__(self, sym, idx=()):
        self.sym, self.idx = sym, tuple(idx)

    def _free(self):
        out = frozenset()
        for e in self.idx:
            out |= e.vars()
        return out

    def _subst(self, mp):
        return TAtom(self.sym, tuple(e.subst(mp) for e in self.idx))

    def __repr__(self):
        return f"{self.sym}{list(self.idx)}" if self.idx else f"{self.sym}"


class TAdd(Term):
    __slots__ = ("args",)

    def __init__(self, args):
        self.args = args

    def _free(self):
        return frozenset().union(*[a.fv() for a in self.args])

    def _subst(self, mp):
        return add([a.subst(mp) for a in self.args])

    def __repr__(self):
        return "(" + " + ".join(map(repr, self.args)) + ")"


class TMul(Term):
    __slots__ = ("args",)

    def __init__(self, args):
        self.args = args

    def _free(self):
        return frozenset().union(*[a.fv() for a in self.args])

    def _subst(self, mp):
        return mul([a.subst(mp) for a in self.args])

    def __repr__(self):
        return "(" + " * ".join(map(repr, self.args)) + ")"


class TPow(Term):
    __slots__ = ("base", "e")

    def __init__(self, base, e):
        self.base, self.e = base, e

    def _free(self):
        return self.base.fv()

    def _subst(self, mp):
        return power(self.base.subst(mp), self.e)

    def __repr__(self):
        return f"({self.base!r})^{self.e}"


class TIte(Term):
    __slots__ = ("cond", "a", "b")

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def _free(self):
        return frozenset(bvars_of(self.cond)) | self.a.fv() | self.b.fv()

    def _subst(self, mp):
        return ite(bsubst(self.cond, mp), self.a.subst(mp), self.b.subst(mp))

    def __repr__(self):
        return f"if({self.cond},{self.a!r},{self.b!r})"


class TSum(Term):
    """sum over lo <= v < hi of body."""

    __slots__ = ("v", "lo", "hi", "body")

    def __init__(self, v, lo, hi, body):
        self.v, self.lo, self.hi, self.body = v, lo, hi, body

    def _free(self):
        return (self.body.fv() - {self.v}) | frozenset(self.lo.vars() | self.hi.vars())

    def _subst(self, mp):
        if self.v in mp:
            mp = {k: e for k, e in mp.items() if k is not self.v}
        return tsum(self.v, self.lo.subst(mp), self.hi.subst(mp), self.body.subst(mp))

    def __repr__(self):
        return f"sum[{self.v!r} in {self.lo}..{self.hi}]({self.body!r})"


class TFn(Term):
    """Uninterpreted function of terms (abs, exp, ...)."""

    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def _free(self):
        return frozenset().union(*[a.fv() for a in self.args])

    def _subst(self, mp):
        return TFn(self.name, [a.subst(mp) for a in self.args])

    def __repr__(self):
        return f"{self.name}({', '.join(map(repr, self.args))})"


class TMax(Term):
    """Largest element of a finite union of families.

    ``alts`` is a tuple of (bound variables with ranges, condition, term).
    """

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def _free(self):
        out = frozenset()
        for bvs, cond, t in self.alts:
            f = t.fv() | frozenset(bvars_of(cond))
            for v, lo, hi in bvs:
                f |= frozenset(lo.vars() | hi.vars())
            out |= f - {v for v, _, _ in bvs}
        return out

    def _subst(self, mp):
        alts = []
        for bvs, cond, t in self.alts:
            m = {k: e for k, e in mp.items() if k not in {v for v, _, _ in bvs}}
            alts.append(
                (
                    tuple((v, lo.subst(m), hi.subst(m)) for v, lo, hi in bvs),
                    bsubst(cond, m),
                    t.subst(m),
                )
            )
        return TMax(alts)

    def __repr__(self):
        return "max{" + "; ".join(repr(t) for _, _, t in self.alts) + "}"


T0, T1 = TNum(Fraction(0)), TNum(Fraction(1))


def num(c):
    return TNum(Fraction(c))


def tint(e):
    c = e.const_value()
    return num(c) if c is not None else TInt(e)


def to_term(x):
    if isinstance(x, Term):
        return x
    t = getattr(x, "term", None)
    if t is not None:
        return t
    if isinstance(x, bool):
        return num(int(x))
    if getattr(x, "iexpr", None) is not None:
        return tint(x.iexpr)
    if isinstance(x, IExpr):
        return tint(x)
    if isinstance(x, int):
        return num(x)
    if isinstance(x, Fraction):
        return TNum(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite scalar {x}")
        # read 1/3 etc. as the decimal the programmer wrote
        f = Fraction(repr(x))
        return TNum(f)
    raise Unsupported(f"not a term: {type(x)}")


def add(args):
    out, c = [], Fraction(0)
    for a in args:
        if isinstance(a, TAdd):
            sub = a.args
        else:
            sub = (a,)
        for s in sub:
            if isinstance(s, TNum):
                c += s.c
            else:
                out.append(s)
    if c:
        out.append(TNum(c))
    if not out:
        return T0
    if len(out) == 1:
        return out[0]
    return TAdd(tuple(out))


def mul(args):
    out, c = [], Fraction(1)
    for a in args:
        sub = a.args if isinstance(a, TMul) else (a,)
        for s in sub:
            if isinstance(s, TNum):
                c *= s.c
            else:
                out.append(s)
    if c == 0:
        return T0
    if c != 1:
        out.insert(0, TNum(c))
    if not out:
        return T1
    if len(out) == 1:
        return out[0]
    return TMul(tuple(out))


def power(b, e):
    e = Fraction(e)
    if e == 1:
        return b
    if e == 0:
        return T1
    if isinstance(b, TNum):
        if b.c == 0 and e > 0:
            return T0
        if b.c == 1:
            return T1
        if e.denominator == 1 and b.c != 0:
            return TNum(b.c ** int(e))
    return TPow(b, e)


def ite(cond, a, b):
    if cond[0] == "true":
        return a
    if cond[0] == "false":
        return b
    return TIte(cond, a, b)


def tsum(v, lo, hi, body):
    if isinstance(body, TNum) and body.c == 0:
        return T0
    n = (hi - lo).const_value()
    if n is not None and n <= 0:
        return T0
    if n == 1:
        return body.subst({v: lo})
    return TSum(v, lo, hi, body)


def sum_over(lo, hi, fn, name="k"):
    lo, hi = IExpr.of(lo), IExpr.of(hi)
    n = (hi - lo).const_value()
    if n is not None and n <= 0:
        return T0
    if n == 1:
        return fn(lo)
    v = IVar(name)
    return tsum(v, lo, hi, fn(IExpr.var(v)))


# ------------------------------------------------------------------ normal form
class Summand:
    """coef * [conds] * sum over bvars of prod factor^exponent.

    ``factors`` is a dict mapping ('atom', Sym, idx) / ('int', IExpr) / ('num', Fraction) /
    ('fn', TFn-like term) to an exponent (Fraction).
    """

    __slots__ = ("coef", "factors", "bvars", "conds")

    def __init__(self, coef, factors=None, bvars=(), conds=()):
        self.coef = coef
        self.factors = factors or {}
        self.bvars = tuple(bvars)
        self.conds = tuple(conds)

    def __repr__(self):
        return f"{self.coef} {self.factors} over {self.bvars} if {self.conds}"


def _mul_summands(a, b):
    f = dict(a.factors)
    for k, e in b.factors.items():
        if k not in f and k[0] == "fn" and isinstance(k[1], TFn):
            for q in f:
                if q[0] == "fn" and repr_eq(q[1], k[1]):
                    k = q
                    break
        n = f.get(k, 0) + e
        if n:
            f[k] = n
        else:
            f.pop(k)
    conds = a.conds + tuple(c for c in b.conds if c not in a.conds)
    return Summand(a.coef * b.coef, f, a.bvars + b.bvars, conds)


MAX_SUMMANDS = 60000


def expand(t):
    """Sum-of-products normal form: list of Summand."""
    if isinstance(t, TNum):
        return [Summand(t.c)] if t.c else []
    if isinstance(t, TInt):
        c = 0
        for k in t.e.terms.values():
            c = math.gcd(c, k)
        e = t.e
        if c > 1:
            e = IExpr({m: k // c for m, k in e.terms.items()})
        return [Summand(Fraction(c), {("int", e): Fraction(1)})]
    if isinstance(t, TAtom):
        return [Summand(Fraction(1), {("atom", t.sym, t.idx): Fraction(1)})]
    if isinstance(t, TAdd):
        out = []
        for a in t.args:
            out.extend(expand(a))
        return out
    if isinstance(t, TMul):
        acc = None
        for a in t.args:
            ex = expand(a)
            if not ex:
                return []
            if acc is None:
                acc = ex
                continue
            if len(acc) * len(ex) > MAX_SUMMANDS:
                raise Unsupported("normal form too large")
            acc = [_mul_summands(x, y) for x in acc for y in ex]
        return [y for x in acc for y in _unparen(x)]
    if isinstance(t, TIte):
        out = []
        for c, s in ((t.cond, t.a), (neg(t.cond), t.b)):
            SCOPE.append(c)
            try:
                ex = expand(s)
            finally:
                SCOPE.pop()
            for x in ex:
                if c[0] == "and":
                    cs = c[1]
                else:
                    cs = (c,)
                out.append(
                    Summand(
                        x.coef,
                        x.factors,
                        x.bvars,
                        x.conds + tuple(k for k in cs if k not in x.conds),
                    )
                )
        return out
    if isinstance(t, TSum):
        v = IVar(t.v.name)
        body = t.body.subst({t.v: IExpr.var(v)})
        rng = [c for c in (le(t.lo, IExpr.var(v)), lt(IExpr.var(v), t.hi)) if c != TRUE]
        out = []
        SCOPE.extend(rng)
        try:
            ex = expand(body)
        finally:
            del SCOPE[len(SCOPE) - len(rng) :]
        for x in ex:
            out.append(
                Summand(
                    x.coef,
                    x.factors,
                    x.bvars + (v,),
                    x.conds + tuple(k for k in rng if k not in x.conds),
                )
            )
        return out
    if isinstance(t, TPow):
        return _expand_pow(t)
    if isinstance(t, (TFn, TMax)):
        return [Summand(Fraction(1), {("fn", t): Fraction(1)})]
    raise AssertionError(type(t))


def nonneg(t):
    """Syntactic: the term is never negative."""
    if isinstance(t, TNum):
        return t.c >= 0
    if isinstance(t, TAtom):
        return t.sym.nonneg
    if isinstance(t, TAdd):
        return all(nonneg(a) for a in t.args)
    if isinstance(t, TMul):
        rest = []
        for a in t.args:
            for i, b in enumerate(rest):
                if a is b or repr_eq(a, b):
                    rest.pop(i)
                    break
            else:
                if not nonneg(a):
                    rest.append(a)
        return not rest
    if isinstance(t, TPow):
        if t.e.denominator % 2 == 0:
            return True
        return t.e.numerator % 2 == 0 or nonneg(t.base)
    if isinstance(t, TIte):
        return nonneg(t.a) and nonneg(t.b)
    if isinstance(t, TSum):
        return nonneg(t.body)
    if isinstance(t, TFn):
        return t.name in ("abs", "exp") or (t.name == "paren" and nonneg(t.args[0]))
    if isinstance(t, TMax):
        return all(nonneg(x) for _, _, x in t.alts)
    return False


def repr_eq(a, b):
    """Structural equality (variables by identity)."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, TSum):
        return (
            a.lo == b.lo
            and a.hi == b.hi
            and repr_eq(a.body, b.body.subst({b.v: IExpr.var(a.v)}))
        )
    if isinstance(a, TNum):
        return a.c == b.c
    if isinstance(a, TInt):
        return a.e == b.e
    if isinstance(a, TAtom):
        return a.sym is b.sym and a.idx == b.idx
    if isinstance(a, (TAdd, TMul)):
        return len(a.args) == len(b.args) and all(map(repr_eq, a.args, b.args))
    if isinstance(a, TPow):
        return a.e == b.e and repr_eq(a.base, b.base)
    if isinstance(a, TIte):
        return a.cond == b.cond and repr_eq(a.a, b.a) and repr_eq(a.b, b.b)
    if isinstance(a, TFn):
        return a.name == b.name and len(a.args) == len(b.args) and all(map(repr_eq, a.args, b.args))
    return False


def _unparen(s):
    """(x^1/2)^2 = x for x >= 0."""
    for k, e in s.factors.items():
        if (
            k[0] == "fn"
            and isinstance(k[1], TFn)
            and k[1].name == "paren"
            and e.denominator == 1
            and 1 <= e <= 4
            and nonneg(k[1].args[0])
        ):
            f = dict(s.factors)
            f.pop(k)
            base = Summand(s.coef, f, s.bvars, s.conds)
            ex = expand(mul_raw([k[1].args[0]] * int(e)))
            return [y for x in ex for y in _unparen(_mul_summands(base, x))]
    return [s]


SCOPE = []  # conditions under which the term being expanded is evaluated


def KNOWN_NONNEG(e):
    """Whether an integer expression is never negative; set by ``ctx``."""
    return False


def _split_ints(factors):
    """Split integer monomials off the integer factors."""
    out = {}
    for k, v in factors.items():
        parts = [k]
        f = FACTORED.get(k[1]) if k[0] == "int" else None
        if f is not None and KNOWN_NONNEG(f[0]) and KNOWN_NONNEG(f[1]):
            for g in f:
                for q, w in _split_ints({("int", g): v}).items():
                    out[q] = out.get(q, 0) + w
            continue
        if k[0] == "int" and len(k[1].terms) > 0:
            common = None
            for m in k[1].terms:
                c = Counter(m)
                common = c if common is None else common & c
            if common and (len(k[1].terms) > 1 or sum(common.values()) > 1):
                rest = {}
                for m, c in k[1].terms.items():
                    left = Counter(m) - common
                    key = tuple(x for x in m if left[x] > 0 and not left.subtract([x]))
                    rest[key] = c
                parts = [("int", IExpr.var(x)) for x in common.elements()]
                if rest != {(): 1}:
                    parts.append(("int", IExpr(rest)))
        for q in parts:
            out[q] = out.get(q, 0) + v
    return {q: v for q, v in out.items() if v}


def _nonneg_factor(k, e):
    if k[0] == "atom":
        return k[1].nonneg or (e.denominator == 1 and e % 2 == 0 and False)
    if k[0] == "num":
        return k[1] >= 0
    if k[0] == "int":
        return KNOWN_NONNEG(k[1])
    if k[0] == "fn":
        return isinstance(k[1], TMax) or (isinstance(k[1], TFn) and k[1].name == "abs")
    return False


def _num_pow(c, e):
    """c^e for a positive rational: (rational part, remaining factor dict)."""
    if e.denominator == 1:
        return c ** int(e), {}
    # exact roots
    d = e.denominator
    if c > 0:
        rn = round(c.numerator ** (1.0 / d))
        rd = round(c.denominator ** (1.0 / d))
        if rn**d == c.numerator and rd**d == c.denominator:
            return Fraction(rn, rd) ** e.numerator, {}
        return Fraction(1), {("num", c): e}
    raise Unsupported("root of a negative number")


def _expand_pow(t):
    e = t.e
    if isinstance(t.base, TPow) and e.denominator == 1 and nonneg(t.base.base):
        return expand(power(t.base.base, t.base.e * e))
    if e.denominator == 1 and 1 < e <= 4:
        return expand(mul_raw([t.base] * int(e)))
    if isinstance(t.base, TIte):
        return expand(ite(t.base.cond, power(t.base.a, e), power(t.base.b, e)))
    ex = merge(expand(t.base))
    if not ex:
        if e > 0:
            return []
        return [Summand(Fraction(1), {("fn", TFn("inverse_of_zero", ())): Fraction(1)})]
    if len(ex) == 1:
        x = ex[0]
        signs = e.denominator == 1 or all(_nonneg_factor(k, v) for k, v in x.factors.items())
        if e.denominator != 1:
            f = _split_ints(x.factors)
            # a * b >= 0 and a >= 0: the other factor is non-negative (or irrelevant)
            neg_ = [k for k, v in f.items() if not _nonneg_factor(k, v)]
            signs = len(neg_) <= (1 if signs else 0)
            x = Summand(x.coef, f, x.bvars, x.conds)
        if (
            not x.bvars
            and (not x.conds or e > 0)
            and x.coef != 0
            and (x.coef > 0 or e.denominator == 1)
            and signs
        ):
            c, extra = _num_pow(x.coef, e)
            f = {k: v * e for k, v in x.factors.items()}
            for k, v in extra.items():
                f[k] = f.get(k, 0) + v
            return [Summand(c, f, (), x.conds)]
    return [Summand(Fraction(1), {("fn", TFn("paren", (t.base,))): e})]


def mul_raw(args):
    if len(args) == 1:
        return args[0]
    return TMul(tuple(args))


def merge(summands):
    """Combine structurally identical summands (cheap)."""
    table = {}
    order = []
    for s in summands:
        key = (frozenset(s.factors.items()), frozenset(s.conds), s.bvars)
        if key in table:
            table[key].coef += s.coef
        else:
            n = Summand(s.coef, s.factors, s.bvars, s.conds)
            table[key] = n
            order.append(n)
    return [s for s in order if s.coef]


def fkey_subst(k, mp):
    if k[0] == "atom":
        return ("atom", k[1], tuple(e.subst(mp) for e in k[2]))
    if k[0] == "int":
        return ("int", k[1].subst(mp))
    if k[0] == "fn":
        return ("fn", k[1].subst(mp))
    return k


def canon(x, mp=None):
    """Canonical text: equal texts mean equal values (free variables by identity, bound ones
    by position)."""
    mp = mp or {}
    if isinstance(x, IExpr):
        ms = []
        for m, c in x.terms.items():
            ms.append((sorted(canon(v, mp) for v in m), c))
        return "{" + "+".join(f"{c}*{'.'.join(m)}" for m, c in sorted(ms)) + "}"
    if isinstance(x, IVar):
        return mp.get(x) or f"{x.name}!{x.uid}"
    if isinstance(x, IDiv):
        return f"div({canon(x.num, mp)},{canon(x.den, mp)})"
    if isinstance(x, Sym):
        return f"{x.name}#{x.uid}"
    if isinstance(x, tuple):  # boolean expressions and factor keys
        return "(" + ",".join(canon(y, mp) for y in x) + ")"
    if isinstance(x, TNum):
        return str(x.c)
    if isinstance(x, TInt):
        return canon(x.e, mp)
    if isinstance(x, TAtom):
        return f"{canon(x.sym)}{canon(tuple(x.idx), mp)}"
    if isinstance(x, (TAdd, TMul)):
        return type(x).__name__ + "(" + ",".join(canon(a, mp) for a in x.args) + ")"
    if isinstance(x, TPow):
        return f"({canon(x.base, mp)})^{x.e}"
    if isinstance(x, TIte):
        return f"if({canon(x.cond, mp)},{canon(x.a, mp)},{canon(x.b, mp)})"
    if isinstance(x, TSum):
        m = {**mp, x.v: f"?{len(mp)}"}
        return f"sum({canon(x.lo, mp)},{canon(x.hi, mp)},{canon(x.body, m)})"
    if isinstance(x, TFn):
        return f"{x.name}({','.join(canon(a, mp) for a in x.args)})"
    if isinstance(x, TMax):
        out = []
        for bvs, cond, t in x.alts:
            m = dict(mp)
            rng = []
            for v, lo, hi in bvs:
                rng.append(f"{canon(lo, m)}..{canon(hi, m)}")
                m[v] = f"?{len(m)}"
            out.append(f"[{','.join(rng)}|{canon(cond, m)}]{canon(t, m)}")
        return "max{" + ";".join(out) + "}"
    if isinstance(x, Summand):
        m = dict(mp)
        for v in x.bvars:
            m[v] = f"?{len(m)}"
        fs = sorted(f"{canon(k, m)}^{e}" for k, e in x.factors.items())
        return f"{x.coef}*{fs} over {len(x.bvars)} if {sorted(canon(c, m) for c in x.conds)}"
    if x is None or isinstance(x, (str, int, Fraction)):
        return str(x)
    raise AssertionError(type(x))


def int_fn(e):
    return tint(e)


__all__ = [n for n in dir() if not n.startswith("__")]
