"""Symbolic integers: polynomials with integer coefficients over variables and floor divisions.

``IExpr`` is the integer expression language of the verification conditions, ``BExpr`` (plain
tuples built by the functions below) the formulas over it.
"""

import itertools

import z3

_uid = itertools.count(1)


class Unsupported(Exception):
    """The code under test left the subset the VC generator understands."""


class IVar:
    __slots__ = ("name", "uid")

    def __init__(self, name):
        self.uid = next(_uid)
        self.name = name

    def __repr__(self):
        return self.name

    def z3name(self):
        return f"{self.name}!{self.uid}"


class IDiv:
    """floor(num / den) that could not be simplified (interned)."""

    __slots__ = ("num", "den", "uid", "name")
    _table = {}

    def __new__(cls, num, den):
        key = (num.key(), den.key())
        self = cls._table.get(key)
        if self is None:
            self = object.__new__(cls)
            self.num, self.den, self.uid = num, den, next(_uid)
            self.name = f"(({num})//({den}))"
            cls._table[key] = self
        return self

    def __repr__(self):
        return self.name


FACTORED = {}  # products of sums: how they were computed (a hint for sign questions)


class IExpr:
    __slots__ = ("terms", "_key", "_hash")

    def __init__(self, terms):
        self.terms = terms
        self._key = None

    # -- constructors
    @staticmethod
    def const(c):
        return IExpr({(): c} if c else {})

    @staticmethod
    def var(v):
        return IExpr({(v,): 1})

    @staticmethod
    def of(x):
        if isinstance(x, IExpr):
            return x
        e = getattr(x, "iexpr", None)
        if e is not None:
            return e
        if isinstance(x, bool):
            return IExpr.const(int(x))
        if isinstance(x, int):
            return IExpr.const(int(x))
        raise Unsupported(f"not an integer expression: {x!r}")

    def key(self):
        if self._key is None:
            self._key = frozenset(
                (tuple(v.uid for v in m), c) for m, c in self.terms.items()
            )
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, other):
        return isinstance(other, IExpr) and self.key() == other.key()

    # -- arithmetic
    def __add__(self, other):
        other = IExpr.of(other)
        if not other.terms:
            return self
        t = dict(self.terms)
        for m, c in other.terms.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return IExpr(t)

    __radd__ = __add__

    def __neg__(self):
        return IExpr({m: -c for m, c in self.terms.items()})

    def __sub__(self, other):
        return self + (-IExpr.of(other))

    def __rsub__(self, other):
        return IExpr.of(other) + (-self)

    def __mul__(self, other):
        other = IExpr.of(other)
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in other.terms.items():
                m = tuple(sorted(m1 + m2, key=lambda v: v.uid))
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        r = IExpr(t)
        if len(t) > 2 and len(self.terms) > 0 and len(other.terms) > 0:
            c1, c2 = self.const_value(), other.const_value()
            if c1 is None and c2 is None and r not in FACTORED:
                FACTORED[r] = (self, other)
        return r

    __rmul__ = __mul__

    def const_value(self):
        """Integer value if constant, else None."""
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def vars(self, deep=True):
        out = set()
        for m in self.terms:
            for v in m:
                out.add(v)
                if deep and isinstance(v, IDiv):
                    out |= v.num.vars() | v.den.vars()
        return out

    def subst(self, mp):
        """Substitute variables (IVar -> IExpr), also inside floor divisions."""
        if not mp or not (self.vars() & mp.keys()):
            return self
        out = IExpr.const(0)
        for m, c in self.terms.items():
            t = IExpr.const(c)
            for v in m:
                if v in mp:
                    t = t * mp[v]
                elif isinstance(v, IDiv) and (
                    (v.num.vars() | v.den.vars()) & mp.keys()
                ):
                    t = t * floordiv(v.num.subst(mp), v.den.subst(mp))
                else:
                    t = t * IExpr.var(v)
            out = out + t
        return out

    def __repr__(self):
        if not self.terms:
            return "0"
        parts = []
        for m, c in sorted(self.terms.items(), key=lambda kv: [v.uid for v in kv[0]]):
            s = "*".join(v.name for v in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = f"{c}*{s}"
            parts.append(s)
        return " + ".join(parts).replace("+ -", "- ")


ZERO, ONE = IExpr.const(0), IExpr.const(1)


def _lead(e):
    return max(e.terms, key=lambda m: (len(m), [v.uid for v in m]))


def divmod_poly(a, b):
    """Polynomials (q, r) over the integers with a = b*q + r (q maximal for this order)."""
    q, r = ZERO, ZERO
    if not b.terms:
        raise ZeroDivisionError
    lb = _lead(b)
    cb = b.terms[lb]
    rest = a
    steps = 0
    while rest.terms and steps < 200:
        steps += 1
        lr = _lead(rest)
        cr = rest.terms[lr]
        rem = list(lr)
        ok = True
        for v in lb:
            if v in rem:
                rem.remove(v)
            else:
                ok = False
                break
        if ok and cr % cb == 0:
            t = IExpr({tuple(rem): cr // cb})
            q = q + t
            rest = rest - t * b
        elif ok and not lb and cr // cb:
            # constant divisor: pull out the multiple
            t = IExpr({tuple(rem): cr // cb})
            q = q + t
            left = IExpr({lr: cr % cb})
            r = r + left
            rest = rest - t * b - left
        else:
            left = IExpr({lr: cr})
            r = r + left
            rest = rest - left
    return q, r


def divexact(a, b):
    """a / b if b divides a as a polynomial, else None."""
    if a == b:
        return ONE
    if not b.terms:
        return None
    q, r = divmod_poly(a, b)
    return q if not r.terms else None


def floordiv(a, b):
    """floor(a / b); b must be known positive by the caller."""
    a, b = IExpr.of(a), IExpr.of(b)
    ca, cb = a.const_value(), b.const_value()
    if cb == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if ca is not None and cb is not None:
        return IExpr.const(ca // cb)
    if cb == 1:
        return a
    q, r = divmod_poly(a, b)
    if not r.terms:
        return q
    cr = r.const_value()
    if cr is not None and cb is not None:
        return q + IExpr.const(cr // cb)
    return q + IExpr.var(IDiv(r, b))


def mod(a, b):
    a, b = IExpr.of(a), IExpr.of(b)
    return a - b * floordiv(a, b)


# ------------------------------------------------------------------ formulas
TRUE, FALSE = ("true",), ("false",)


def ge0(e):
    c = e.const_value()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    return ("ge", e)


def eq0(e):
    c = e.const_value()
    if c is not None:
        return TRUE if c == 0 else FALSE
    # canonical sign
    lead = min(e.terms, key=lambda m: [v.uid for v in m])
    if e.terms[lead] < 0:
        e = -e
    return ("eq", e)


def le(a, b):
    return ge0(IExpr.of(b) - IExpr.of(a))


def lt(a, b):
    return ge0(IExpr.of(b) - IExpr.of(a) - 1)


def eq(a, b):
    return eq0(IExpr.of(a) - IExpr.of(b))


def neg(b):
    k = b[0]
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "not":
        return b[1]
    if k == "ge":
        return ge0(-b[1] - 1)
    if k == "and":
        return disj([neg(x) for x in b[1]])
    if k == "or":
        return conj([neg(x) for x in b[1]])
    return ("not", b)


def conj(bs):
    out = []
    for b in bs:
        if b[0] == "false":
            return FALSE
        if b[0] == "true":
            continue
        if b[0] == "and":
            out.extend(x for x in b[1] if x not in out)
        elif b not in out:
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ("and", tuple(out))


def disj(bs):
    out = []
    for b in bs:
        if b[0] == "true":
            return TRUE
        if b[0] == "false":
            continue
        if b[0] == "or":
            out.extend(x for x in b[1] if x not in out)
        elif b not in out:
            out.append(b)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ("or", tuple(out))


def bsubst(b, mp):
    k = b[0]
    if k in ("true", "false", "opaque"):
        return b
    if k == "ge":
        return ge0(b[1].subst(mp))
    if k == "eq":
        return eq0(b[1].subst(mp))
    if k == "not":
        return neg(bsubst(b[1], mp))
    if k == "and":
        return conj([bsubst(x, mp) for x in b[1]])
    if k == "or":
        return disj([bsubst(x, mp) for x in b[1]])
    raise AssertionError(k)


def bvars_of(b):
    k = b[0]
    if k in ("true", "false", "opaque"):
        return set()
    if k in ("ge", "eq"):
        return b[1].vars()
    if k == "not":
        return bvars_of(b[1])
    out = set()
    for x in b[1]:
        out |= bvars_of(x)
    return out


# ------------------------------------------------------------------ z3
class Z3Conv:
    """Conversion to z3 which collects the defining facts of symbolic floor divisions."""

    def __init__(self):
        self.side = []
        self._div = {}
        self._seen_vars = {}

    def i(self, e):
        tot = None
        for m, c in e.terms.items():
            t = z3.IntVal(c) if (c != 1 or not m) else None
            for v in m:
                zv = self.v(v)
                t = zv if t is None else t * zv
            tot = t if tot is None else tot + t
        return z3.IntVal(0) if tot is None else tot

    def v(self, v):
        if isinstance(v, IDiv):
            z = self._div.get(v.uid)
            if z is None:
                num = self.i(v.num)
                den = self.i(v.den)
                z = z3.Int(f"div!{v.uid}")
                self._div[v.uid] = z
                self.side.append(z3.And(den * z <= num, num < den * z + den))
            return z
        z = self._seen_vars.get(v.uid)
        if z is None:
            z = self._seen_vars[v.uid] = z3.Int(v.z3name())
        return z

    def b(self, b):
        k = b[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "ge":
            return self.i(b[1]) >= 0
        if k == "eq":
            return self.i(b[1]) == 0
        if k == "not":
            return z3.Not(self.b(b[1]))
        if k == "and":
            return z3.And([self.b(x) for x in b[1]])
        if k == "or":
            return z3.Or([self.b(x) for x in b[1]])
        if k == "opaque":
            return z3.Bool(b[1])
        raise AssertionError(k)
