"""Core of the deductive verifier: symbolic scalars, quantified facts, proof
obligations and path exploration.

A run executes the *real* source of /repo (see loader.py) on symbolic inputs.
Every value is a `Sc` (symbolic scalar: z3 term or exact rational, with flags
for nan/+inf/-inf) or an array of them (arr.py).  Branches on symbolic
conditions are explored by re-execution; loops are cut by invariants.
Universally quantified knowledge (preconditions, library contracts) is kept as
`Fact`s and instantiated on the ground index terms of the query (all of them, up
to a generation bound); goals are skolemised.  A goal is proved when z3 answers
unsat on its negation.
"""
import os
import time
from fractions import Fraction

import types

import z3


class Unsupported(Exception):
    """The code uses something outside the verified subset (no verdict)."""


class PathEnd(BaseException):
    """This path is infeasible or has been abandoned."""


class Budget(BaseException):
    """The time given to the verifier is used up."""


def unsupported(msg):
    raise Unsupported(msg)


def lib_raise(exc):
    """An exception that the *library contract* prescribes."""
    exc._lib = True
    raise exc


# ---------------------------------------------------------------- raw terms
# raw = python bool / int / Fraction, or a z3 expression

def isz(x):
    return isinstance(x, z3.ExprRef)


def tobool(x):
    return z3.BoolVal(bool(x)) if not isz(x) else x


def toint(x):
    return z3.IntVal(int(x)) if not isz(x) else x


def toreal(x):
    if not isz(x):
        return z3.RealVal(x if isinstance(x, int) else str(Fraction(x)))
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def AND(*xs):
    out = []
    for x in xs:
        if isz(x):
            if z3.is_true(x):
                continue
            if z3.is_false(x):
                return False
            out.append(x)
        elif not x:
            return False
    return True if not out else (out[0] if len(out) == 1 else z3.And(*out))


def OR(*xs):
    out = []
    for x in xs:
        if isz(x):
            if z3.is_false(x):
                continue
            if z3.is_true(x):
                return True
            out.append(x)
        elif x:
            return True
    return False if not out else (out[0] if len(out) == 1 else z3.Or(*out))


def NOT(x):
    if not isz(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if not isz(a):
        return b if a else NOT(b)
    if not isz(b):
        return a if b else NOT(a)
    return a == b


def ITE(c, a, b):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b):
        if type(a) is bool and type(b) is bool:
            return a if a == b else (c if a else NOT(c))
        if a == b:
            return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isinstance(a, bool) or (isz(a) and z3.is_bool(a)):
        return z3.If(c, tobool(a), tobool(b))
    ai = isinstance(a, int) or (isz(a) and a.sort() == z3.IntSort())
    bi = isinstance(b, int) or (isz(b) and b.sort() == z3.IntSort())
    if ai and bi:
        return z3.If(c, toint(a), toint(b))
    return z3.If(c, toreal(a), toreal(b))


def _pair(a, b):
    """Coerce two raw numbers to the same z3 sort."""
    if isz(a) and isz(b):
        if a.sort() == b.sort():
            return a, b
        return toreal(a), toreal(b)
    if isz(a):
        return (a, z3.IntVal(b)) if (a.sort() == z3.IntSort() and isinstance(b, int)) else (toreal(a), toreal(b))
    return (z3.IntVal(a), b) if (b.sort() == z3.IntSort() and isinstance(a, int)) else (toreal(a), toreal(b))


def ADD(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    a, b = _pair(a, b)
    return a + b


def SUB(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return 0
    a, b = _pair(a, b)
    return a - b


def MUL(a, b):
    if not isz(a) and not isz(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if not isz(p):
            if p == 0:
                return 0
            if p == 1:
                return q
    a, b = _pair(a, b)
    return a * b


def DIV(a, b):
    if not isz(a) and not isz(b):
        q = Fraction(a) / Fraction(b)
        return q
    if not isz(b) and b == 1:
        return a
    if not isz(a) and a == 0:
        return 0
    if not isz(b):
        return MUL(Fraction(1) / Fraction(b), a)
    return toreal(a) / toreal(b)


def NEG(a):
    return -a


def LT(a, b):
    if not isz(a) and not isz(b):
        return a < b
    if isz(a) and isz(b) and a.eq(b):
        return False
    a, b = _pair(a, b)
    return a < b


def LE(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    if isz(a) and isz(b) and a.eq(b):
        return True
    a, b = _pair(a, b)
    return a <= b


def EQ(a, b):
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        ab = isinstance(a, bool) or (isz(a) and z3.is_bool(a))
        bb = isinstance(b, bool) or (isz(b) and z3.is_bool(b))
        if ab and bb:
            return IFF(a, b)
        a = b2i(a) if ab else a
        b = b2i(b) if bb else b
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    a, b = _pair(a, b)
    return a == b


def NE(a, b):
    return NOT(EQ(a, b))


def b2i(x):
    return (1 if x else 0) if not isz(x) else z3.If(x, z3.IntVal(1), z3.IntVal(0))


def inr(i, n):
    return AND(LE(0, i), LT(i, n))


# --------------------------------------------------------- linear normal form

def lin(t):
    """Integer raw term -> (dict atom_id -> (atom, coeff), const) or None."""
    if not isz(t):
        return {}, t
    if z3.is_int_value(t):
        return {}, t.as_long()
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
        d, c = lin(t.arg(0))
        d = dict(d)
        for a in range(1, t.num_args()):
            e, f = lin(t.arg(a))
            s = 1 if k == z3.Z3_OP_ADD else -1
            c += s * f
            for key, (at, co) in e.items():
                o = d.get(key, (at, 0))[1] + s * co
                if o:
                    d[key] = (at, o)
                else:
                    d.pop(key, None)
        return d, c
    if k == z3.Z3_OP_UMINUS:
        d, c = lin(t.arg(0))
        return {q: (a, -co) for q, (a, co) in d.items()}, -c
    if k == z3.Z3_OP_MUL and t.num_args() == 2:
        for p, q in ((0, 1), (1, 0)):
            d, c = lin(t.arg(p))
            if not d:
                e, f = lin(t.arg(q))
                if c == 0:
                    return {}, 0
                return {key: (a, co * c) for key, (a, co) in e.items()}, f * c
    return {t.get_id(): (t, 1)}, 0


def unlin(d, c):
    out = None
    for key in sorted(d):
        a, co = d[key]
        x = a if co == 1 else co * a
        out = x if out is None else out + x
    if out is None:
        return int(c)
    return out if c == 0 else out + c


def norm(t):
    """Canonical form of an integer term."""
    if not isz(t):
        return int(t)
    return unlin(*lin(t))


def dkey(n):
    if not isz(n):
        return int(n)
    d, c = lin(n)
    for a, _ in d.values():
        keep(a)
    return (tuple(sorted((k, co) for k, (_, co) in d.items())), c)


def divmod_c(t, c):
    """(t div c, t mod c) for a positive static c, folding linear multiples."""
    if not isz(t):
        return t // c, t % c
    if c == 1:
        return t, 0
    d, k = lin(t)
    mul = {q: (a, co) for q, (a, co) in d.items() if co % c == 0}
    rest = {q: (a, co) for q, (a, co) in d.items() if co % c}
    qd = {q: (a, co // c) for q, (a, co) in mul.items()}
    if not rest:
        return unlin(qd, k // c), k % c
    r = unlin(rest, k)
    q0, r0 = toint(r) / z3.IntVal(c), toint(r) % z3.IntVal(c)
    q = ADD(unlin(qd, 0), q0)
    return q, r0


# ------------------------------------------------------------------- scalars
FIN = None


def osp(*c):
    """special-value triple (nan, +inf, -inf), None when surely finite."""
    return None if all((not isz(x) and not x) for x in c) else tuple(c)


class Sc:
    """Symbolic scalar. k: 'i','r','b'. sp: None or (nan,pinf,ninf)."""
    __slots__ = ("t", "k", "sp")
    __array_priority__ = 1000

    def __init__(self, t, k, sp=None):
        self.t, self.k, self.sp = t, k, sp

    # -- helpers
    @property
    def nan(self):
        return self.sp[0] if self.sp else False

    @property
    def pinf(self):
        return self.sp[1] if self.sp else False

    @property
    def ninf(self):
        return self.sp[2] if self.sp else False

    @property
    def fin(self):
        return True if not self.sp else NOT(OR(*self.sp))

    def __bool__(self):
        if self.k == "b":
            return ctx().decide(self.t)
        return ctx().decide(OR(NE(self.t, 0), NOT(self.fin)))

    def __hash__(self):
        return id(self)

    def __format__(self, spec):
        return "<sym>"

    def __repr__(self):
        return "Sc({}{})".format(self.t, "" if not self.sp else ", special {}".format(self.sp))

    def __index__(self):
        t = self.t
        if isz(t):
            t = z3.simplify(t)
            if z3.is_int_value(t):
                return t.as_long()
            raise Unsupported("a symbolic value where python needs a concrete integer")
        return int(t)

    __int__ = __index__

    def __float__(self):
        if not isz(self.t) and not self.sp:
            return float(self.t)
        raise Unsupported("float() of a symbolic value")

    # numpy-scalar api used by the code
    @property
    def dtype(self):
        from . import arr
        return arr.Dtype(self.k)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def real(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def astype(self, ty):
        from . import arr
        return cast(self, arr.Dtype.of(ty).k)

    # -- operators
    def __add__(self, o):
        return binop(add, self, o)

    def __radd__(self, o):
        return binop(add, o, self)

    def __sub__(self, o):
        return binop(sub, self, o)

    def __rsub__(self, o):
        return binop(sub, o, self)

    def __mul__(self, o):
        return binop(mul, self, o)

    def __rmul__(self, o):
        return binop(mul, o, self)

    def __truediv__(self, o):
        return binop(divtop, self, o)

    def __rtruediv__(self, o):
        return binop(divtop, o, self)

    def __floordiv__(self, o):
        return binop(floordiv, self, o)

    def __mod__(self, o):
        return binop(mod, self, o)

    def __pow__(self, o):
        return binop(power, self, o)

    def __rpow__(self, o):
        return binop(power, o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __invert__(self):
        if self.k == "b":
            return Sc(NOT(self.t), "b")
        raise Unsupported("~ on a number")

    def __and__(self, o):
        return binop(land, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return binop(lor, self, o)

    __ror__ = __or__

    def __lt__(self, o):
        return binop(lt, self, o)

    def __le__(self, o):
        return binop(le, self, o)

    def __gt__(self, o):
        return binop(gt, self, o)

    def __ge__(self, o):
        return binop(ge, self, o)

    def __eq__(self, o):
        return binop(eq, self, o)

    def __ne__(self, o):
        return binop(ne, self, o)


def lift(x):
    """python / numpy value -> Sc, or None if it is not a scalar."""
    if isinstance(x, Sc):
        return x
    if isinstance(x, bool):
        return Sc(x, "b")
    if isinstance(x, int):
        return Sc(x, "i")
    if isinstance(x, Fraction):
        return Sc(x, "r")
    if isinstance(x, float):
        if x != x:
            return Sc(0, "r", (True, False, False))
        if x in (float("inf"), float("-inf")):
            return Sc(0, "r", (False, x > 0, x < 0))
        return Sc(Fraction(repr(x)), "r")
    if isz(x):
        return Sc(x, "b" if z3.is_bool(x) else ("i" if x.sort() == z3.IntSort() else "r"))
    if type(x).__module__ == "numpy":
        return lift(x.item())
    return None


def binop(f, a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        if f is eq:
            return False if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) else NotImplemented
        if f is ne:
            return True if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) else NotImplemented
        return NotImplemented
    return f(x, y)


def num(a):
    """bool -> int raw"""
    return Sc(b2i(a.t), "i") if a.k == "b" else a


def kk(a, b):
    return "r" if "r" in (a.k, b.k) else "i"


def add(a, b):
    if a.k == "b" and b.k == "b":
        return Sc(OR(a.t, b.t), "b")
    a, b = num(a), num(b)
    sp = None
    if a.sp or b.sp:
        nan = OR(a.nan, b.nan, AND(a.pinf, b.ninf), AND(a.ninf, b.pinf))
        sp = osp(nan, AND(OR(a.pinf, b.pinf), NOT(nan)), AND(OR(a.ninf, b.ninf), NOT(nan)))
    return Sc(ADD(a.t, b.t), kk(a, b), sp)


def neg(a):
    a = num(a)
    t = a.t
    return Sc(-t, a.k, osp(a.nan, a.ninf, a.pinf) if a.sp else None)


def sub(a, b):
    a, b = num(a), num(b)
    if a.sp or b.sp:
        s = add(a, neg(b))
        return Sc(SUB(a.t, b.t), s.k, s.sp)
    return Sc(SUB(a.t, b.t), kk(a, b))


def mul(a, b):
    if a.k == "b" and b.k == "b":
        return Sc(AND(a.t, b.t), "b")
    a, b = num(a), num(b)
    sp = None
    if a.sp or b.sp:
        ai, bi = OR(a.pinf, a.ninf), OR(b.pinf, b.ninf)
        a0, b0 = AND(EQ(a.t, 0), a.fin), AND(EQ(b.t, 0), b.fin)
        nan = OR(a.nan, b.nan, AND(ai, b0), AND(bi, a0))
        anyi = AND(OR(ai, bi), NOT(nan))
        apos = OR(a.pinf, AND(a.fin, LT(0, a.t)))
        bpos = OR(b.pinf, AND(b.fin, LT(0, b.t)))
        same = IFF(apos, bpos)
        sp = osp(nan, AND(anyi, same), AND(anyi, NOT(same)))
    return Sc(MUL(a.t, b.t), kk(a, b), sp)


def divtop(a, b):
    """division met by the executed code: is the divisor known to be non-zero?"""
    b = num(b)
    b0 = AND(EQ(b.t, 0), b.fin)
    return div(a, b, isz(b0) and not ctx().possible(b0))


def div(a, b, clean=False):
    """numpy division; where the divisor may be 0 the result is flagged."""
    a, b = num(a), num(b)
    b0 = False if clean else AND(EQ(b.t, 0), b.fin)
    sp = None
    if a.sp or b.sp or isz(b0) or b0:
        ai, bi = OR(a.pinf, a.ninf), OR(b.pinf, b.ninf)
        a0 = AND(EQ(a.t, 0), a.fin)
        nan = OR(a.nan, b.nan, AND(ai, bi), AND(a0, b0))
        apos = OR(a.pinf, AND(a.fin, LT(0, a.t)))
        bpos = OR(b.pinf, AND(b.fin, LT(0, b.t)), b0)   # x/0 is taken as x/(+0)
        same = IFF(apos, bpos)
        inf = AND(OR(AND(ai, NOT(bi)), AND(b0, NOT(a0))), NOT(nan))
        sp = osp(nan, AND(inf, same), AND(inf, NOT(same)))
        if not isz(b.t) and b.t == 0:
            t = 0
        else:
            t = ITE(bi, 0, DIV(a.t, b.t))
        return Sc(t, "r", sp)
    return Sc(DIV(a.t, b.t), "r")


def floordiv(a, b):
    a, b = num(a), num(b)
    if a.k == "i" and b.k == "i" and not isz(b.t) and b.t > 0:
        return Sc(divmod_c(a.t, b.t)[0], "i")
    raise Unsupported("floor division")


def mod(a, b):
    a, b = num(a), num(b)
    if a.k == "i" and b.k == "i" and not isz(b.t) and b.t > 0:
        return Sc(divmod_c(a.t, b.t)[1], "i")
    raise Unsupported("modulo")


def power(a, b):
    a, b = num(a), num(b)
    if not isz(b.t) and not b.sp:
        if b.t == int(b.t) and 0 <= b.t <= 4:
            out = Sc(1, a.k)
            for _ in range(int(b.t)):
                out = mul(out, a)
            return out if b.k == "i" else cast(out, "r")
        if b.t == Fraction(1, 2):
            return sqrt(a)
        if b.t == int(b.t) and -3 <= b.t < 0:
            return div(Sc(1, "r"), power(a, Sc(-b.t, "i")))
    raise Unsupported("power with exponent {}".format(b))


def _cmp(f, infl, infr):
    def g(a, b):
        a, b = num(a), num(b)
        if not a.sp and not b.sp:
            return Sc(f(a.t, b.t), "b")
        nan = OR(a.nan, b.nan)
        return Sc(AND(NOT(nan), OR(infl(a, b), infr(a, b), AND(a.fin, b.fin, f(a.t, b.t)))), "b")
    return g


lt = _cmp(LT, lambda a, b: AND(a.ninf, NOT(b.ninf)), lambda a, b: AND(b.pinf, NOT(a.pinf)))
le = _cmp(LE, lambda a, b: a.ninf, lambda a, b: b.pinf)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if a.k == "b" and b.k == "b":
        return Sc(IFF(a.t, b.t), "b")
    a, b = num(a), num(b)
    if not a.sp and not b.sp:
        return Sc(EQ(a.t, b.t), "b")
    return Sc(AND(NOT(OR(a.nan, b.nan)), OR(AND(a.pinf, b.pinf), AND(a.ninf, b.ninf), AND(a.fin, b.fin, EQ(a.t, b.t)))), "b")


def ne(a, b):
    return Sc(NOT(eq(a, b).t), "b")


def ident(a, b):
    """raw Bool: a and b are the same value (nan is nan)."""
    if a.k == "b" and b.k == "b":
        return IFF(a.t, b.t)
    a, b = num(a), num(b)
    if not a.sp and not b.sp:
        return EQ(a.t, b.t)
    return AND(IFF(a.nan, b.nan), IFF(a.pinf, b.pinf), IFF(a.ninf, b.ninf), IMP(a.fin, EQ(a.t, b.t)))


def land(a, b):
    if a.k == b.k == "b":
        return Sc(AND(a.t, b.t), "b")
    raise Unsupported("& on numbers")


def lor(a, b):
    if a.k == b.k == "b":
        return Sc(OR(a.t, b.t), "b")
    raise Unsupported("| on numbers")


def absolute(a):
    a = num(a)
    t = a.t
    if not isz(t):
        t = abs(t)
    else:
        t = ITE(LE(0, t), t, -t)
    return Sc(t, a.k, osp(a.nan, OR(a.pinf, a.ninf), False) if a.sp else None)


def where(c, a, b):
    """c raw Bool, a/b Sc."""
    if not isz(c):
        return a if c else b
    if a.k != b.k:
        k = "r" if "r" in (a.k, b.k) else "i"
        a, b = cast(a, k), cast(b, k)
    sp = None
    if a.sp or b.sp:
        sp = osp(ITE(c, a.nan, b.nan), ITE(c, a.pinf, b.pinf), ITE(c, a.ninf, b.ninf))
    return Sc(ITE(c, a.t, b.t), a.k, sp)


def minimum(a, b):
    return where(lt(b, a).t, b, a)


def maximum(a, b):
    return where(lt(a, b).t, b, a)


def cast(a, k):
    """numpy astype between bool, int (truncation), real."""
    if a.k == k:
        return a
    if k == "r":
        a = num(a)
        t = a.t
        if isz(t):
            t = toreal(t)
        return Sc(t, "r", a.sp)
    if k == "i":
        if a.k == "b":
            return num(a)
        t = a.t
        if not isz(t):
            import math
            return Sc(math.trunc(t), "i", a.sp)
        if t.decl().kind() == z3.Z3_OP_TO_REAL:
            return Sc(t.arg(0), "i")
        if t.decl().kind() == z3.Z3_OP_ITE:
            def tr(u):
                if u.decl().kind() == z3.Z3_OP_TO_REAL:
                    return u.arg(0)
                if z3.is_rational_value(u) and u.denominator_as_long() == 1:
                    return z3.IntVal(u.numerator_as_long())
                if u.decl().name().startswith("round") and u.num_args() == 1:
                    return TRUNC(u)
                if u.decl().kind() == z3.Z3_OP_ITE:
                    p, q = tr(u.arg(1)), tr(u.arg(2))
                    return None if p is None or q is None else z3.If(u.arg(0), p, q)
                return None
            q = tr(t)
            if q is not None:
                return Sc(q, "i")
        if t.decl().name().startswith("round") and t.num_args() == 1:
            return Sc(TRUNC(t), "i", a.sp)
        f = z3.ToInt(t)
        return Sc(z3.If(t >= 0, f, -z3.ToInt(-t)), "i", a.sp)
    if k == "b":
        return Sc(OR(NE(a.t, 0), NOT(a.fin)), "b")
    if k == "o":
        return a
    raise Unsupported("cast to {}".format(k))


# uninterpreted functions with ground axioms (see Ctx.axioms)
R_, I_ = z3.RealSort(), z3.IntSort()
SQRT = z3.Function("sqrt", R_, R_)
COS = z3.Function("cos", R_, R_)
SIN = z3.Function("sin", R_, R_)
PI = z3.Real("pi")
TRUNC = z3.Function("trunc", R_, I_)          # integer part (towards zero)
TICKS = z3.Function("round_floor", R_, I_)     # the whole number below the argument of a rounding


def sqrt(a):
    a = num(a)
    if not isz(a.t) and a.t in (0, 1):
        return Sc(a.t, "r")
    return Sc(SQRT(toreal(a.t)), "r", osp(OR(a.nan, a.ninf), a.pinf, False) if a.sp else None)


def cos(a):
    a = num(a)
    if not isz(a.t) and a.t == 0:
        return Sc(1, "r")
    return Sc(COS(toreal(a.t)), "r")


def sin(a):
    a = num(a)
    if not isz(a.t) and a.t == 0:
        return Sc(0, "r")
    return Sc(SIN(toreal(a.t)), "r")


pi = Sc(PI, "r")

# ------------------------------------------------------------------- context
_cur = [None]
_keep = {}


def keep(a):
    _keep[a.get_id()] = a
    return a


def ctx():
    return _cur[0]


def freeze(fn, depth=4, memo=None):
    """The function with the present values of its free variables: facts are evaluated later, when
    loop variables of whoever stated them have moved on."""
    if not isinstance(fn, types.FunctionType) or not fn.__closure__ or depth == 0:
        return fn
    memo = {} if memo is None else memo
    if id(fn) in memo:
        return memo[id(fn)]
    try:
        cells = [c.cell_contents for c in fn.__closure__]
    except ValueError:
        return fn
    if any(x is fn for x in cells):
        return fn
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__ and tuple(freeze(x, depth - 1, memo) for x in fn.__defaults__),
                           tuple(types.CellType(freeze(x, depth - 1, memo)) for x in cells))
    g.__kwdefaults__ = fn.__kwdefaults__
    memo[id(fn)] = g
    return g


class Fact:
    __slots__ = ("dims", "fn", "name", "trig", "guard", "dead")

    def __init__(self, dims, fn, name, trig=None, guard=None):
        # guard: a Bool constant under which alone the fact says something
        self.dims, self.fn, self.name, self.trig, self.guard = dims, freeze(fn), name, trig and freeze(trig), guard
        self.dead = False        # superseded by something stronger


class Report:
    """Obligations of one property over all paths."""

    def __init__(self, deadline=None):
        self.obl = {}          # name -> dict(status, n, time, backend, detail)
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.solver_time = 0.
        self.functions = set()
        self.notes = []
        self.unsupported = []
        self.deadline = deadline
        self.trusted = set()
        self.models = []
        self.here = set()      # obligations met on this path
        self.livenames = set() # obligations met on a path whose hypotheses are satisfiable

    def record(self, name, status, secs, backend, detail=None):
        o = self.obl.setdefault(name, dict(status="proved", n=0, time=0., backend=backend, detail=None))
        o["n"] += 1
        o["time"] += secs
        if backend != "vacuous":
            self.here.add(name)
        rank = dict(proved=0, unknown=1, refuted=2)
        if rank[status] > rank[o["status"]]:
            o["status"], o["detail"] = status, detail


VERB = os.environ.get("DV_VERB")
DUMP = os.environ.get("DV_DUMP")


def callers():
    """the source positions that led to a decision, outside this file"""
    import sys
    f, out = sys._getframe(2), []
    here = os.path.dirname(__file__)
    while f is not None and len(out) < 40:
        n = f.f_code.co_filename
        if n != __file__:
            out.append((n, f.f_lineno))
            if not n.startswith(here):
                break
        f = f.f_back
    return tuple(out)


class Generic:
    """Evaluation for a generic element under temporary assumptions: decisions must
    be provable, nothing is assumed about the element afterwards."""

    def __init__(self, c, assumed, rec, play):
        self.c, self.rec, self.play = c, rec, play
        self.a = []
        for b in assumed:
            if isz(b):
                self.a += list(b.children()) if z3.is_and(b) else [b]

    def __enter__(self):
        c = self.c
        self.old = (c.rec, c.play)
        if self.rec is not None:
            c.rec = self.rec
        if self.play is not None:
            c.play = self.play
        c.quant += 1
        self.mine = []
        for b in self.a:
            if b.get_id() not in c.gset:
                c.gset.add(b.get_id())
                c.ground.append(b)
                c.temp.append(b.get_id())
                self.mine.append(b)
                c.alive.append(b)
        return self

    def __exit__(self, *e):
        c = self.c
        c.quant -= 1
        c.rec, c.play = self.old
        for b in self.mine:
            i = b.get_id()
            c.gset.discard(i)
            c.temp.remove(i)
            for k in range(len(c.ground) - 1, -1, -1):
                if c.ground[k].get_id() == i:
                    del c.ground[k]
                    break


class Ctx:
    DEPTH = 3            # generations of instantiation
    MAXINST = 6000
    TMO = 20000          # ms per query

    def __init__(self, report, prefix=()):
        self.rep = report
        self.prefix = list(prefix)
        self.trace = []          # decisions taken
        self.alts = []           # alternative prefixes
        self.ground = []
        self.facts = []
        self.names = {}
        self.leafdom = {}        # decl id -> list of dom keys (None: not an index)
        self.extra = []          # (key, term): index terms registered by hand
        self.uf = {}             # union-find on dom keys
        self.memo = {}
        self.cinst = {}          # instance cache
        self.log = []
        self.state = {}
        self.alive = []
        self.hints = []
        self.gset = set()
        self.temp = []           # temporary assumptions (generic elements)
        self.quant = 0           # > 0 while an expression is evaluated for a generic element
        self.rec = self.play = None
        self.inprog = set()
        self.lastdec = None

    def stamp(self):
        return (len(self.ground), len(self.facts), tuple(self.temp))

    def generic(self, *assumed, rec=None, play=None):
        return Generic(self, assumed, rec, play)

    # ---- names
    def fresh(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else "{}!{}".format(base, k)

    def int(self, name):
        return z3.Int(self.fresh(name))

    def real(self, name):
        return z3.Real(self.fresh(name))

    def bool(self, name):
        return z3.Bool(self.fresh(name))

    # ---- domains
    def find(self, k):
        while k in self.uf:
            k = self.uf[k]
        return k

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.uf[a] = b

    def leaf(self, name, dims, sort):
        """Fresh uninterpreted array over the dims (sizes)."""
        f = z3.Function(self.fresh(name), *([I_] * len(dims)), sort)
        self.leafdom[f.get_id()] = [dkey(d) for d in dims]
        self.alive.append(f)
        return f

    def touch(self, size, term, owner=None):
        """owner: a Bool constant; the term is of no use where it holds"""
        if isz(term) or isz(size):
            self.extra.append((dkey(size), toint(term), owner))

    def literals(self):
        """ids of the ground formulas, for pruning"""
        key = (len(self.ground), tuple(self.temp))
        if self.memo.get("lits", (None,))[0] != key:
            S = set()
            for g in self.ground:
                S.add(g.get_id())
                if z3.is_not(g):
                    S.add(("no", g.arg(0).get_id()))
            live = [g for g in self.ground if not (z3.is_or(g) and any(x.get_id() in S for x in g.children()))]
            self.memo["lits"] = (key, S, live)
        return self.memo["lits"][1:]

    # ---- knowledge
    def assume(self, b):
        if not isz(b):
            if not b:
                raise PathEnd()
            return
        if z3.is_and(b):
            for c in b.children():
                self.assume(c)
            return
        if b.get_id() in self.gset:
            return
        self.gset.add(b.get_id())
        self.ground.append(b)

    def forall(self, dims, fn, name="fact", trig=None, guard=None):
        """fn(*idx) -> raw Bool, assumed for every index tuple in range.

        trig(idx, terms): optional filter of the instantiations."""
        static = [d for d in dims if not isz(d)]
        if static and len(static) == len(dims) and all(d <= 12 for d in dims):
            import itertools
            for ix in itertools.product(*[range(d) for d in dims]):
                self.assume(fn(*ix))
            return
        self.facts.append(Fact([(dkey(d), d) for d in dims], fn, name, trig, guard))

    # ---- saturation
    def collect(self, forms, terms, gen, seen):
        """ground index terms of the formulas, per domain."""
        st = list(forms)
        ld = self.leafdom
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            self.alive.append(e)
            n = e.num_args()
            if not n and z3.is_bool(e) and z3.is_const(e):
                seen.add(("bool", i))
            if n:
                dom = ld.get(e.decl().get_id()) if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
                for a in range(n):
                    c = e.arg(a)
                    if dom and dom[a] is not None:
                        self.addterm(terms, dom[a], c, gen)
                    st.append(c)

    def addterm(self, terms, key, t, gen):
        key = self.find(key)
        if isz(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            # the branches do as well (congruence), and are shared
            a = self.addterm(terms, key, t.arg(1), gen)
            b = self.addterm(terms, key, t.arg(2), gen)
            return a or b
        d = terms.setdefault(key, {})
        t = toint(norm(t))
        if t.get_id() not in d:
            self.alive.append(t)
            d[t.get_id()] = (t, gen)
            return True
        return False

    def saturate(self, goals, depth, touch=(), focus=False, sos=True, limit=None, only=None, pairs=None):
        """goals: ground formulas (negated goal...).  Returns the instances."""
        terms, seen, out, capped = {}, set(), [], False
        lits, live = self.literals()
        if not focus:
            self.collect(live, terms, 0, seen)
        self.collect(goals, terms, 0, seen)
        # ground clauses that the goals reduce
        lit, holds = set(), set()
        for q in flat(goals):
            lit.add(q.arg(0).get_id() if z3.is_not(q) else ("no", q.get_id()))
            holds.add(q.get_id())
        near = []
        for g in live:
            if z3.is_or(g) and any(q.get_id() in lit or z3.is_not(q) and ("no", q.arg(0).get_id()) in lit for q in g.children()):
                near.append(g)
        self.collect(near, terms, 0, seen)
        bymain = {}
        if focus:
            for g in live:
                if z3.is_or(g) and not any(q.get_id() in holds for q in g.children()):
                    for q in g.children():
                        if z3.is_const(q):
                            bymain.setdefault(q.get_id(), []).append(g)

        def pull(gen):
            """ground clauses about the Bool constants met so far"""
            ks = [k for k in bymain if ("bool", k) in seen]
            while ks:
                for k in ks:
                    self.collect(bymain.pop(k), terms, gen, seen)
                ks = [k for k in bymain if ("bool", k) in seen]
        pull(0)
        sup = {k: set(d) for k, d in terms.items()} if focus else {}
        if not focus:
            tt, ss = {}, set()
            self.collect(list(goals) + near, tt, 0, ss)
            sup = {k: set(d) for k, d in tt.items()}
        for d, t in touch:
            sup.setdefault(self.find(dkey(d)), set()).add(toint(norm(toint(t))).get_id())
        if not focus:
            for k, t, o in self.extra:
                if o is None or o.get_id() not in lits:
                    self.addterm(terms, k, t, 0)
        for d, t in touch:
            self.addterm(terms, dkey(d), toint(t), 0)
        used = set()
        for g in range(1, depth + 1):
            new, pend = [], []
            nf = len(self.facts)
            for fi in sorted(range(nf), key=lambda q: (len(self.facts[q].dims), -q)):
                f = self.facts[fi]
                if f.dead or only is not None and not only(f):
                    continue
                if f.guard is not None and ("no", f.guard.get_id()) in lits:
                    continue
                cand = []
                for key, size in f.dims:
                    if isinstance(key, int):
                        if key > 12:
                            raise Unsupported("fact over a large static dimension")
                        cand.append([(z3.IntVal(q), 0) for q in range(key)])
                    else:
                        cand.append(list(terms.get(self.find(key), {}).values()))
                if any(not c for c in cand):
                    continue
                multi = len(f.dims) > 1 and sos
                ss = [sup.get(self.find(key), ()) if not isinstance(key, int) else () for key, _ in f.dims]
                for tup in _prod(cand):
                    if max(q[1] for q in tup) >= g:
                        continue
                    ts = [q[0] for q in tup]
                    if multi and not any(t.get_id() in S_ or q[1] > 0 for t, q, S_ in zip(ts, tup, ss)):
                        continue
                    if f.trig is not None and not f.trig(*ts):
                        continue
                    kk_ = (fi,) + tuple(t.get_id() for t in ts)
                    if kk_ in used:
                        continue
                    used.add(kk_)
                    inst = self.cinst.get(kk_)
                    if inst is None:
                        if kk_ in self.inprog:
                            continue
                        guard = AND(*[inr(t, s) for t, (_, s) in zip(ts, f.dims)])
                        ix = [t.as_long() if z3.is_int_value(t) else t for t in ts]
                        self.inprog.add(kk_)
                        with self.generic(guard):
                            b, tch = f.fn(*ix), ()
                        self.inprog.discard(kk_)
                        if isinstance(b, tuple):
                            b, tch = b
                        inst = (tobool(IMP(guard, b)), [(dkey(s), toint(t)) for s, t in tch])
                        self.cinst[kk_] = inst
                    if not z3.is_true(inst[0]):
                        new.append(inst[0])
                    for q in inst[1]:
                        pend.append(q)
                    if len(out) + len(new) > (limit or self.MAXINST):
                        capped = True
                        break
                if capped:
                    break
            out += new
            before = sum(len(d) for d in terms.values())
            self.collect(new, terms, g, seen)
            pull(g)
            # instantiation may itself have added ground facts
            if not focus:
                lits, live = self.literals()
                self.collect(live, terms, g, seen)
                for k, t, o in self.extra:
                    if o is None or o.get_id() not in lits:
                        self.addterm(terms, k, t, g)
            for k, t in pend:
                self.addterm(terms, k, t, g)
            if capped or (not new and sum(len(d) for d in terms.values()) == before and nf == len(self.facts)):
                break
        if pairs is not None:
            # the remaining facts, on the terms of the first generations only
            for f in self.facts:
                if f.dead or only(f) or (f.guard is not None and ("no", f.guard.get_id()) in lits):
                    continue
                cand = [[z3.IntVal(q) for q in range(key)] if isinstance(key, int) else
                        [t for t, g_ in terms.get(self.find(key), {}).values() if g_ <= pairs] for key, _ in f.dims]
                if _size([len(x) for x in cand]) > 3000:
                    continue
                for ts in _prod(cand):
                    if f.trig is not None and not f.trig(*ts):
                        continue
                    guard = AND(*[inr(t, s) for t, (_, s) in zip(ts, f.dims)])
                    with self.generic(guard):
                        b = f.fn(*[t.as_long() if z3.is_int_value(t) else t for t in ts])
                    if isinstance(b, tuple):
                        b = b[0]
                    out.append(tobool(IMP(guard, b)))
        return out, capped

    def axioms(self, forms):
        """ground axioms of sqrt, cos, sin and pi for the terms that occur."""
        seen, st, ap = set(), list(forms), {}
        usepi, rnd, trc = False, {}, {}
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(e):
                nm = e.decl().name()
                if nm in ("sqrt", "cos", "sin") and e.num_args() == 1:
                    ap.setdefault(nm, {})[e.arg(0).get_id()] = e.arg(0)
                if e.eq(PI):
                    usepi = True
                if nm.startswith("round") and nm[5:].isdigit() and e.num_args() == 1:
                    rnd[i] = e
                if nm == "trunc" and e.num_args() == 1:
                    trc[i] = e
                    seen.add(e.arg(0).get_id())
                    rnd.pop(e.arg(0).get_id(), None)
                    st.append(e.arg(0).arg(0))
                    continue
                st.extend(e.children())
        ax = []
        for e in rnd.values():
            x, k = e.arg(0), z3.ToReal(TICKS(e))
            # whole numbers are unchanged, and never crossed
            ax += [k <= x, x < k + 1, k <= e, e <= k + 1, z3.Implies(x == k, e == k)]
        for e in trc.values():
            # the integer part of a rounded number
            x, n = e.arg(0).arg(0), TICKS(e.arg(0))
            k = z3.ToReal(n)
            ax += [k <= x, x < k + 1, z3.Or(e == n, e == n + 1), z3.Implies(x == k, e == n)]
        if usepi or "cos" in ap or "sin" in ap:
            ax += [PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000)]
        sq = list(ap.get("sqrt", {}).values())
        for x in sq:
            s = SQRT(x)
            ax += [s >= 0, z3.Implies(x >= 0, s * s == x)]
        args = dict(ap.get("cos", {}))
        args.update(ap.get("sin", {}))
        # arguments needed for monotonicity are those that occur
        args = list(args.values())
        ab = lambda x: z3.If(x >= 0, x, -x)
        for x in args:
            c, s = COS(x), SIN(x)
            ax += [c * c + s * s == 1, c <= 1, c >= -1, s <= 1, s >= -1,
                   z3.Implies(x == 0, z3.And(c == 1, s == 0)),
                   z3.Implies(z3.And(-PI <= 2 * x, 2 * x <= PI), c >= 0),
                   z3.Implies(z3.And(0 <= x, x <= PI), s >= 0),
                   z3.Implies(z3.And(-PI <= x, x <= 0), s <= 0)]
        for a in range(len(args)):
            for b in range(len(args)):
                if a == b:
                    continue
                x, y = args[a], args[b]
                ax.append(z3.Implies(z3.And(ab(x) <= ab(y), ab(y) <= PI), COS(x) >= COS(y)))
                ax.append(z3.Implies(z3.And(x <= y, -PI <= 2 * x, 2 * y <= PI), SIN(x) <= SIN(y)))
                ax.append(z3.Implies(z3.And(ab(x) <= ab(y), 2 * ab(y) <= PI), ab(SIN(x)) <= ab(SIN(y))))
                if a < b:
                    ax.append(z3.Implies(x + y == 0, z3.And(COS(x) == COS(y), SIN(x) == -SIN(y))))
                    ax.append(z3.Implies(x == y, z3.And(COS(x) == COS(y), SIN(x) == SIN(y))))
        return ax

    def query(self, forms, tmo, nl):
        s = z3.Solver()
        s.set("timeout", int(tmo))
        if not nl:
            s.set("arith.nl", False)
        s.add(*forms)
        self.rep.queries += 1
        if DUMP:
            with open(DUMP, "w") as f:
                f.write(s.to_smt2())
            t0 = time.time()
        r = s.check()
        if DUMP and time.time() - t0 > tmo / 1000. + 2:
            print("SLOW", time.time() - t0, tmo, nl, r, len(forms))
        return str(r), s

    def refute(self, neg, depth, tmo, touch=(), only=False, nl=True, limit=None):
        """Is ground+facts+neg unsatisfiable?  -> 'unsat'/'sat'/'unknown', model"""
        t0 = time.time()
        if self.rep.deadline and t0 > self.rep.deadline:
            raise Budget()
        neg = [tobool(x) for x in neg]
        res = "unknown"
        model = None
        rounds = [(depth, only == "focus")] if only else [(0, False)] + [(q, True) for q in range(1, depth + 1)] + [(q, False) for q in range(1, depth + 1)]
        if not only and any(len(f.dims) > 1 for f in self.facts):
            rounds.append((depth, False))    # without the set-of-support restriction
        lastcount, capped, wascapped = -1, False, False
        for rk, (d, focus) in enumerate(rounds):
            inst, capped = self.saturate(neg, d, touch, focus, only or rk < len(rounds) - 1 or len(rounds) == 1, limit) if d else ([], False)
            if capped and limit:
                res = "unknown"
                break
            if focus and not only and (len(inst) == lastcount or capped and wascapped):
                continue
            wascapped = capped
            if not focus and d == 1:
                lastcount = -1
            forms = self.literals()[1] + neg + inst
            forms = forms + self.axioms(forms)
            last = rk == len(rounds) - 1
            res, s = self.query(forms, tmo if last else min(tmo, 3000), False)
            if res == "unsat":
                break
            if nl and hasnl(forms):
                res, s = self.query(forms, tmo if last else min(tmo, 1500), True)
                if res == "unsat":
                    break
            if d and last and res == "sat":
                model = s.model()
            lastcount = len(inst)
        if res == "sat" and capped:
            res = "unknown"
        if VERB:
            print("refute", res, "facts", len(self.facts), "inst", len(inst), "ground", len(self.ground), "%.2fs" % (time.time() - t0), str(neg)[:150].replace("\n", " "), flush=True)
        self.rep.solver_time += time.time() - t0
        return res, model

    def refute_poly(self, neg, depth, touch=(), maxcases=400):
        """Polynomial identities: case split on the conditions met inside the goal, then
        linear reasoning over the monomials of the expanded formulas."""
        t0 = time.time()
        neg = [tobool(x) for x in neg]
        n0 = -1
        for d in range(1, depth + 1):
            inst, capped = self.saturate(neg, d, touch, True)
            if len(inst) == n0:
                break
            n0 = len(inst)
            if self.poly_round(neg, inst, maxcases):
                return "unsat"
            if capped:
                break
        return "unknown"

    def refute_chain(self, neg, depth, touch=()):
        """Long chains of instances of the facts over one index."""
        t0 = time.time()
        neg = [tobool(x) for x in neg]
        only = lambda f: len(f.dims) == 1 or f.name in ("triu-all",)
        n0, res = -1, "unknown"
        for d in range(1, depth + 1):
            inst, capped = self.saturate(neg, d, touch, True, only=only)
            if len(inst) == n0 or capped:
                break
            n0 = len(inst)
            for p in (None, 0, 1, 2):
                if p is not None:
                    if p > d or res == "unknown":
                        continue
                    inst, capped = self.saturate(neg, d, touch, True, only=only, pairs=p)
                    if len(inst) == n0 or len(inst) > 6000:
                        continue
                forms = self.literals()[1] + neg + inst
                res, s = self.query(forms + self.axioms(forms), 3000, False)
                if VERB:
                    print("chain", d, p, len(inst), res, "%.2fs" % (time.time() - t0), flush=True)
                if res == "unsat":
                    break
            if res == "unsat":
                break
        self.rep.solver_time += time.time() - t0
        return "unsat" if res == "unsat" else "unknown"

    def poly_round(self, neg, inst, maxcases):
        from . import poly
        return poly.attempt(self, neg, inst, maxcases)

    def possible(self, cond, depth=2, tmo=2000, nl=True, focus=False):
        """False when cond is impossible here (proved), True otherwise."""
        if not isz(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        key = ("possible", cond.get_id(), self.stamp(), depth, focus)
        if key not in self.memo:
            keep(cond)
            self.memo[key] = self.refute([cond], depth, tmo, only="focus" if focus else True, nl=nl, limit=1000)[0] != "unsat"
        return self.memo[key]

    def known(self, cond, depth=2, tmo=2000):
        for d in range(depth + 1):
            if not self.possible(NOT(cond), d, tmo):
                return True
        return False

    # ---- decisions
    def decide(self, cond):
        if not isz(cond):
            return bool(cond)
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.quant:
            return self.decide_generic(cond)
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.trace.append(v)
        else:
            pt = pf = True
            for d, tmo, nl, fo in ((0, 800, True, False), (1, 1000, False, True), (2, 1000, False, True), (1, 1000, False, False)):
                pf = self.possible(NOT(cond), d, tmo, nl, fo)
                if not pf:
                    break
                pt = self.possible(cond, d, tmo, nl, fo)
                if not pt:
                    break
            v = pt
            self.trace.append(v)
            if pt and pf:
                self.alts.append(self.trace[:-1] + [False])
        self.assume(cond if v else NOT(cond))
        self.lastdec = cond if v else NOT(cond)
        return v

    def decide_generic(self, cond):
        """A decision while evaluating for a generic element must come out the same for all."""
        where = None
        if self.play is not None or self.rec is not None:
            where = callers()
            if self.play is not None and self.play.get(where) is not None:
                return self.play[where]
        v = None
        for d, tmo, nl, fo in ((0, 800, True, False), (1, 1000, False, True), (2, 1000, False, True), (1, 1000, False, False), (2, 1500, False, False)):
            if not self.possible(NOT(cond), d, tmo, nl, fo):
                v = True
            elif not self.possible(cond, d, tmo, nl, fo):
                v = False
            if v is not None:
                break
        if v is None:
            raise Unsupported("a decision that depends on the element")
        if self.rec is not None:
            self.rec[where] = v if self.rec.get(where, v) == v else None
        return v

    def choice(self, name):
        """A free boolean choice of the specification (a case split)."""
        return self.decide(self.bool(name))

    # ---- obligations
    def prove(self, name, goal, dims=(), depth=None, tmo=None, hint=None, recent=False, poly=False, chain=0):
        """goal: raw Bool, or fn(*idx) over dims (skolemised).

        chain: follow chains of facts this deep; a failure is then never a refutation"""
        t0 = time.time()
        n0, f0 = len(self.ground), len(self.facts)
        neg = []
        if dims:
            sk = []
            for d in dims:
                if not isz(d) and d <= 0:
                    self.rep.record(name, "proved", 0., "vacuous")
                    return True
                s = self.int("sk")
                sk.append(s)
                neg.append(inr(s, d))
            tch = [(d, s) for s, d in zip(sk, dims)]
            g = goal(*sk)
        else:
            tch = []
            g = goal() if callable(goal) else goal
        if isz(g):
            neg.append(NOT(g))
        elif g:
            self.rep.record(name, "proved", time.time() - t0, "evaluation")
            return True
        if recent and self.lastdec is not None:
            neg.append(self.lastdec)
        if hint:
            for h in hint(*sk) if dims else hint():
                if isinstance(h, tuple):
                    tch.append(h)
                else:
                    neg.append(h)
        tmo = tmo or self.TMO
        lost = sum(1 for o in self.rep.obl.values() if o["status"] != "proved")
        if lost:
            tmo = min(tmo, 8000 if lost < 4 else 3000)      # the unit is broken or out of reach already
        res = model = None
        if poly:
            res = self.refute_poly(neg, depth or self.DEPTH, tch)
        if chain:
            res = self.refute_chain(neg, chain, tch)
        if res != "unsat" and not chain:
            res, model = self.refute(neg, depth or self.DEPTH, tmo, tch)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[res]
        detail = None
        if st != "proved":
            detail = "negated goal: {}; path: {}".format(str(z3.simplify(tobool(AND(*neg))))[:600], self.trace)
            if model is not None:
                detail += "; model: " + ", ".join("{}={}".format(d, model[d]) for d in model.decls() if d.arity() == 0)[:800]
                self.rep.models.append((name, self, model))
        self.rep.record(name, st, time.time() - t0, "z3 " + z3.get_version_string(), detail)
        return st == "proved"

    def lemma(self, goal, poly=False, depth=1, tmo=4000, assume=True):
        """A step on the way to an obligation: assumed when it is proved, dropped otherwise."""
        if not isz(goal):
            return bool(goal)
        if (poly and self.refute_poly([NOT(goal)], depth, []) == "unsat") or self.refute([NOT(goal)], depth, tmo)[0] == "unsat":
            if assume:
                self.assume(goal)
            return True
        return False

    def forall_bool(self, dims, fn, name="all"):
        """A raw Bool equivalent to: for all idx in range, fn(idx)."""
        dims = list(dims)
        if all(not isz(d) for d in dims) and _size(dims) <= 24:
            import itertools
            return AND(*[fn(*ix) for ix in itertools.product(*[range(d) for d in dims])])
        ck = [canon(dkey(d), a) for a, d in enumerate(dims)]
        with self.generic(*[inr(x, d) for x, d in zip(ck, dims)]):
            body = fn(*ck)
        if not isz(body):
            if body:
                return True
        key = ("all", tuple(dkey(d) for d in dims), body.get_id() if isz(body) else body)
        if isz(body):
            keep(body)
        if key in self.memo:
            return self.memo[key]
        B = self.bool(name)
        self.facts.append(Fact([(dkey(d), d) for d in dims], lambda *ix: IMP(B, fn(*ix)), name, None, B))
        w = [self.int(name + "_w") for _ in dims]
        for x, d in zip(w, dims):
            self.touch(d, x, B)
        rng = [inr(x, d) for x, d in zip(w, dims)]
        with self.generic(*rng):
            nb = NOT(fn(*w))
        self.assume(tobool(OR(B, AND(*rng, nb))))
        self.memo[key] = B
        return B

    def exists_bool(self, dims, fn, name="any"):
        return NOT(self.forall_bool(dims, lambda *ix: NOT(fn(*ix)), name))


def _size(dims):
    n = 1
    for d in dims:
        n *= d
    return n


def _prod(cand):
    import itertools
    return itertools.product(*cand)


def flat(forms):
    """the conjuncts of the formulas"""
    out = []
    for g in forms:
        if z3.is_and(g):
            out += flat(g.children())
        elif z3.is_not(g) and z3.is_or(g.arg(0)):
            out += flat([NOT(q) for q in g.arg(0).children()])
        elif z3.is_not(g) and z3.is_not(g.arg(0)):
            out += flat([g.arg(0).arg(0)])
        else:
            keep(g)
            out.append(g)
    return out


_canon = {}


def canon(key, slot=0):
    k = (str(key), slot)
    if k not in _canon:
        _canon[k] = z3.Int("canon:{}:{}".format(len(_canon), slot))
    return _canon[k]


def hasnl(forms):
    seen, st = set(), list(forms)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
                return True
            st.extend(e.children())
    return False


def explore(fn, rep, maxpaths=300):
    """Run fn(ctx) on every feasible path."""
    stack = [[]]
    while stack:
        if rep.paths >= maxpaths:
            rep.unsupported.append("more than {} paths".format(maxpaths))
            return
        prefix = stack.pop()
        c = Ctx(rep, prefix)
        old, _cur[0] = _cur[0], c
        rep.here = set()
        try:
            fn(c)
            rep.paths += 1
        except PathEnd:
            rep.infeasible += 1
        finally:
            _cur[0] = old
        stack.extend(c.alts)
