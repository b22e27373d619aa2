"""Common pieces of the specifications: symbolic inputs and callee contracts."""
from fractions import Fraction

import z3

from .. import core as K
from .. import arr as A
from .. import spd
from .. import loader
from ..core import (AND, OR, NOT, IMP, IFF, ITE, ADD, SUB, MUL, DIV, LT, LE, EQ, NE, NEG, Sc, lift, isz, inr, ctx, dkey, norm,
                    SQRT, COS, SIN, PI)
from ..arr import Arr

MATCOLS = list("lbhxyzuvwGE")
NETCOLS = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
MESHCOLS = ["fiber", "s", "x", "y", "z", "beam", "constraint"]
R = z3.RealSort()
I = z3.IntSort()
EPS1 = Fraction(1, 10 ** 5) + Fraction(1, 10 ** 8)     # np.allclose(x, 1): rtol + atol


class Unit:
    """One verification unit: a function of the code against its contract."""

    def __init__(self, name, fn, functions, mods=("mat", "net", "mesh"), deadline=None, canary=True, maxpaths=200):
        self.name, self.fn, self.functions, self.mods = name, fn, functions, mods
        self.deadline = deadline
        self.canary = canary
        self.maxpaths = maxpaths


UNITS = {}


def unit(pid, name, functions, mods=("mat", "net", "mesh"), **k):
    def d(f):
        UNITS.setdefault(pid, []).append(Unit(name, f, functions, mods, **k))
        return f
    return d


# ------------------------------------------------------------------- inputs
def rcol(c, name, n):
    f = c.leaf(name, [n], R)
    return Arr((n,), "r", lambda ix: Sc(f(K.toint(ix[0])), "r"))


def icol(c, name, n):
    f = c.leaf(name, [n], I)
    return Arr((n,), "i", lambda ix: Sc(f(K.toint(ix[0])), "i"))


def bcol(c, name, n):
    f = c.leaf(name, [n], z3.BoolSort())
    return Arr((n,), "b", lambda ix: Sc(f(K.toint(ix[0])), "b"))


def xcol(c, name, n, inf=True, nan=False):
    """a float column that may hold infinities / nan"""
    f = c.leaf(name, [n], R)
    B = z3.BoolSort()
    p = c.leaf(name + "_pinf", [n], B)
    q = c.leaf(name + "_ninf", [n], B) if nan else None
    r = c.leaf(name + "_nan", [n], B) if nan else None
    if nan:
        c.forall([n], lambda i: AND(NOT(AND(p(K.toint(i)), q(K.toint(i)))), NOT(AND(p(K.toint(i)), r(K.toint(i)))), NOT(AND(q(K.toint(i)), r(K.toint(i))))), "special")

    def fn(ix):
        i = K.toint(ix[0])
        return Sc(f(i), "r", (r(i) if nan else False, p(i), q(i) if nan else False))
    return Arr((n,), "r", fn)


def table(cls, cols, n, attrs, index=None):
    t = cls.__new__(cls)
    t.__dict__.update(_cols=cols, _idx=index if index is not None else spd.range_index(n), _attrs=attrs, _pres={})
    return t


def V(a):
    """element function of a column / Series / Arr: raw terms"""
    g = A.asarr(a).getter()
    return lambda *i: g(*i).t


def sym_mat(c, pkg, name="m", n=None, size=None, finite=True, unitdir=True, inf_moduli=False):
    """A table satisfying Mat.check (C04): the precondition `valid mat`."""
    if n is None:
        n = c.int("n_" + name)
        c.assume(n >= 0)
    S = size if size is not None else c.real("size_" + name)
    cols = {q: rcol(c, name + "." + q, n) for q in MATCOLS}
    if inf_moduli:
        cols["E"] = xcol(c, name + ".E", n)
        cols["G"] = xcol(c, name + ".G", n)
    g = {q: V(a) for q, a in cols.items()}
    c.forall([n], lambda i: AND(*[LT(0, g[q](i)) for q in "lbhGE"]), "positive dimensions")
    c.forall([n], lambda i: AND(*[AND(LE(NEG(DIV(S, 2)), g[q](i)), LE(g[q](i), DIV(S, 2))) for q in "xy"]), "in the box")
    if unitdir:
        def ud(i):
            s = SQRT(g["u"](i) * g["u"](i) + g["v"](i) * g["v"](i) + g["w"](i) * g["w"](i))
            return AND(LE(1 - EPS1, s), LE(s, 1 + EPS1))
        c.forall([n], ud, "unit directions")
    m = table(pkg.Mat, cols, n, {"n": Sc(n, "i") if isz(n) else n, "size": Sc(S, "r")})
    m.__dict__["_spec"] = dict(n=n, S=S, g=g)
    return m


def sym_net(c, pkg, name="net", n=None, m=None, size=None, periodic=None, cls=None, inside=True, ends=False):
    """A table satisfying Net.check (C05)."""
    if n is None:
        n = c.int("n_" + name)
        c.assume(n >= 0)
    if m is None:
        m = c.int("m_" + name)
        c.assume(m >= 0)
    S = size if size is not None else c.real("size_" + name)
    P = periodic if periodic is not None else Sc(c.bool("periodic_" + name), "b")
    cols = {q: (icol if q in "AB" else rcol)(c, name + "." + q, m) for q in NETCOLS}
    g = {q: V(a) for q, a in cols.items()}
    c.forall([m], lambda r: AND(LE(0, g["A"](r)), LE(g["A"](r), g["B"](r)), LT(g["B"](r), n)), "ordered labels")
    c.forall([m, m], lambda r, s: IMP(LT(r, s), NOT(AND(*[EQ(g[q](r), g[q](s)) for q in ("A", "B", "sA", "sB")]))), "distinct rows",
             trig=lambda a, b: a.get_id() != b.get_id())
    # rows index fibres
    if isz(n) and isz(m):
        c.facts.append(K.Fact([(dkey(m), m)], lambda r: (True, [(n, g["A"](r)), (n, g["B"](r))]), "labels are indices"))
    t = table(cls or pkg.Net, cols, m, {"n": Sc(n, "i") if isz(n) else n, "size": Sc(S, "r"), "periodic": P})
    t.__dict__["_spec"] = dict(n=n, m=m, S=S, g=g, P=P)
    return t


def snapshot(t):
    """columns, labels and metadata of a table, for frame conditions"""
    return dict(cols={k: a.getter() for k, a in t._cols.items()}, names=list(t._cols), kinds={k: a.k for k, a in t._cols.items()},
                idx=t.index._a.getter(), n=t._n, attrs=spd.deep(t.attrs), attrs_id=t.attrs)


def attr_same(a, b):
    if a is b:
        return True
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return a == b if not (x is None) ^ (y is None) else False
    if x.k == "b" and y.k != "b" or y.k == "b" and x.k != "b":
        x, y = K.num(x), K.num(y)
    return K.ident(x, y)


def prove_attrs(c, name, got, want):
    c.prove(name + ": same metadata keys", sorted(got) == sorted(want))
    for k in want:
        if k in got:
            c.prove("{}: metadata {}".format(name, k), attr_same(got[k], want[k]))


def prove_frame(c, name, t, snap, except_cols=(), attrs=True, extra_cols=()):
    """t is as it was when the snapshot was taken."""
    c.prove(name + ": same columns", [q for q in t._cols if q not in extra_cols] == snap["names"])
    n = snap["n"]
    c.prove(name + ": same number of rows", EQ(t._n, n))
    ix = t.index._a.getter()
    c.prove(name + ": same labels", lambda i: K.ident(ix(i), snap["idx"](i)), [n])
    for q in snap["names"]:
        if q in except_cols or q not in t._cols:
            continue
        g, h = t._cols[q].getter(), snap["cols"][q]
        c.prove("{}: column {} unchanged".format(name, q), lambda i: K.ident(g(i), h(i)), [n])
    if attrs:
        prove_attrs(c, name, t.attrs, snap["attrs"])


# ------------------------------------------------------------ callee contracts
def wf_mat(t):
    """raw Bool: Mat.check accepts (the postcondition proved by C04)"""
    c = ctx()
    if any(q not in t._cols for q in MATCOLS) or "n" not in t.attrs or "size" not in t.attrs:
        return False
    n = t._n
    S = lift(t.attrs["size"])
    g = {q: t._cols[q].getter() for q in MATCOLS}
    ix = t.index._a.getter()

    def row(i):
        f = [K.eq(ix(i), Sc(i, "i")).t]
        f += [K.lt(Sc(0, "i"), g[q](i)).t for q in "lbhGE"]
        half = K.mul(Sc(Fraction(1, 2), "r"), S)
        f += [AND(K.le(K.neg(half), g[q](i)).t, K.le(g[q](i), half).t) for q in "xy"]
        s = K.sqrt(K.add(K.add(K.mul(g["u"](i), g["u"](i)), K.mul(g["v"](i), g["v"](i))), K.mul(g["w"](i), g["w"](i))))
        f += [K.le(Sc(1 - EPS1, "r"), s).t, K.le(s, Sc(1 + EPS1, "r")).t]
        return AND(*f)
    return [("the count", EQ(lift(t.attrs["n"]).t, n), ()), ("every row", row, (n,))]


def wf_net(t):
    if any(q not in t._cols for q in NETCOLS) or any(q not in t.attrs for q in ("n", "size", "periodic")):
        return False
    m, n = t._n, lift(t.attrs["n"]).t
    g = {q: t._cols[q].getter() for q in NETCOLS}
    if t._cols["A"].k != "i" or t._cols["B"].k != "i":
        return False
    ix = t.index._a.getter()
    return [("rows", lambda i: AND(K.eq(ix(i), Sc(i, "i")).t, LE(0, g["A"](i).t), LE(g["A"](i).t, g["B"](i).t), LT(g["B"](i).t, n)), (m,)),
            ("distinct", lambda i, j: IMP(LT(i, j), NOT(AND(*[K.eq(g[q](i), g[q](j)).t for q in ("A", "B", "sA", "sB")]))), (m, m))]


def check_stub(kind, wf, trusted=()):
    """contract of X.check: requires a well-formed table (an obligation), returns True"""
    def check(self=None):
        c = ctx()
        if self is None:
            return True
        if "skip_check" in self.attrs and bool(self.attrs["skip_check"]):
            return True
        if any(self is t for t in c.state.get("valid", ())) and not c.state.get("dirty"):
            return True
        f = wf(self)
        if f is False or f is None:
            c.prove("precondition of {}.check".format(kind), False)
            return True
        for nm, g, dims in f:
            c.prove("precondition of {}.check: {}".format(kind, nm), g, dims)
        return True
    return staticmethod(check)


def stub_checks(c, pkg, *valid, mat=True, net=True, mesh=True):
    """Callees X.check are used by their contracts; the given tables are valid."""
    c.state["valid"] = list(valid)
    if mat:
        pkg.Mat.check = _meth(check_stub("Mat", wf_mat))
    if net:
        pkg.Net.check = _meth(check_stub("Net", wf_net))


def _meth(s):
    f = s.__func__

    def m(self=None):
        return f(self)
    return m


def used(c, *fs):
    for f in fs:
        c.rep.functions.add(f)
