from .pipeline import *

INTERP = ("interpolation",)


def data(c, kind, vec):
    N = c.int("N")
    c.assume(N >= 1)
    tail = []
    if vec:
        d = c.int("components")
        c.assume(d >= 1)
        tail = [d]
    f = c.leaf("y", [N] + tail, {"r": R, "i": I, "b": z3.BoolSort()}[kind])
    y = Arr(tuple([N] + tail), kind, lambda ix: Sc(f(*[K.toint(i) for i in ix]), kind))
    if vec:
        c.touch(tail[0], z3.IntVal(0))
    return N, tail, y, y.getter()


def Interpolate(pkg):
    return pkg.mods["fibermat.interpolation"].Interpolate


def same(a, b):
    return K.ident(a, b)


def times(c, pkg, N):
    """the pseudo-times k/(N-1)"""
    np_ = pkg.mods["fibermat.interpolation"].np
    return V(np_.linspace(0, 1, A.wrapint(N)))


def check_type(c, r, kind, shape):
    r = A.asarr(r)
    c.prove("the type of the recorded values", r.k == kind)
    c.prove("the shape of the recorded values", len(r._shape) == len(shape) and all(A.samedim(p, q) for p, q in zip(r._shape, shape)))
    if r.k != kind or len(r._shape) != len(shape):
        raise K.PathEnd()


CASES = [("r", True, "linear"), ("r", False, "linear"), ("i", False, "linear"), ("b", True, "previous"), ("r", False, "previous")]

for _kind, _vec, _how in CASES:
    _nm = "{} of {}, {}".format("vectors" if _vec else "scalars", {"r": "reals", "i": "integers", "b": "booleans"}[_kind], _how)

    @unit("C19", "Interpolate passes through the recorded values ({})".format(_nm), ["Interpolate.__init__", "Interpolate.__call__"], mods=INTERP)
    def through(c, pkg, kind=_kind, vec=_vec, how=_how):
        N, tail, y, yg = data(c, kind, vec)
        kw = {} if how == "linear" else {"kind": how}
        f = Interpolate(pkg)(y, **kw)
        tk = times(c, pkg, N)
        T = Arr((N,), "r", lambda ix: Sc(tk(ix[0]), "r"))
        r = f(T)
        check_type(c, r, kind, [N] + tail)
        g = A.asarr(r).getter()
        c.prove("the k-th value at k/(N-1)", lambda k, *q: same(g(k, *q), yg(k, *q)), [N] + tail)
        s = f()
        check_type(c, s, kind, [N] + tail)
        gs = A.asarr(s).getter()
        c.prove("without argument: the values at the sampling times", lambda k, *q: same(gs(k, *q), yg(k, *q)), [N] + tail)
        own = A.asarr(f.t)
        c.prove("the sampling times are the recording times", AND(EQ(own._shape[0], N), c.forall_bool([N], lambda k: EQ(own.getter()(k).t, tk(k)), "times")))
        out = Sc(c.real("outside"), "r")
        c.assume(OR(LT(out.t, 0), LT(1, out.t)))
        o = f(out)
        check_type(c, o, kind, tail)
        go = A.asarr(o).getter()
        c.prove("the last value outside [0, 1]", lambda *q: same(go(*q), yg(norm(SUB(N, 1)), *q)), tail)

    @unit("C19", "Interpolate of a single value is constant ({})".format(_nm), ["Interpolate.__init__", "Interpolate.__call__"], mods=INTERP)
    def single(c, pkg, kind=_kind, vec=_vec, how=_how):
        N, tail, y, yg = data(c, kind, vec)
        c.assume(EQ(N, 1))
        kw = {} if how == "linear" else {"kind": how}
        f = Interpolate(pkg)(y, **kw)
        t = Sc(c.real("any_time"), "r")
        o = f(t)
        check_type(c, o, kind, tail)
        go = A.asarr(o).getter()
        c.prove("the recorded value at any time", lambda *q: same(go(*q), yg(0, *q)), tail)


for _kind, _vec in (("r", True), ("r", False), ("i", False)):
    _nm = "{} of {}".format("vectors" if _vec else "scalars", {"r": "reals", "i": "integers"}[_kind])

    @unit("C19", "Interpolate resampled keeps the ends and the range ({})".format(_nm), ["Interpolate.__init__", "Interpolate.__call__"], mods=INTERP)
    def resampled(c, pkg, kind=_kind, vec=_vec):
        N, tail, y, yg = data(c, kind, vec)
        M = c.int("size")
        c.assume(M >= 2)
        f = Interpolate(pkg)(y, size=A.wrapint(M))
        lo = c.leaf("smallest", tail or [1], R if kind == "r" else I)
        hi = c.leaf("largest", tail or [1], R if kind == "r" else I)
        at = lambda h, q: h(*([K.toint(i) for i in q] or [z3.IntVal(0)]))
        c.forall([N] + tail, lambda k, *q: AND(LE(at(lo, q), yg(k, *q).t), LE(yg(k, *q).t, at(hi, q))), "range of the data")
        for nm, t, k in (("first", 0, 0), ("last", 1, norm(SUB(N, 1)))):
            o = f(Sc(t, "i"))
            check_type(c, o, kind, tail)
            go = A.asarr(o).getter()
            c.prove("the {} value at {}".format(nm, t), lambda *q: same(go(*q), yg(k, *q)), tail)
        t = Sc(c.real("any_time"), "r")
        o = f(t)
        go = A.asarr(o).getter()
        c.prove("values stay in the range of the data", lambda *q: AND(LE(at(lo, q), go(*q).t), LE(go(*q).t, at(hi, q))), tail)
        s = f()
        check_type(c, s, kind, [M] + tail)
        own = A.asarr(f.t)
        gs, ot = A.asarr(s).getter(), own.getter()
        c.prove("as many sampling times as asked", EQ(own._shape[0], M))
        at_t = A.asarr(f(f.t)).getter()
        c.prove("without argument: the values at its own sampling times", lambda k, *q: same(gs(k, *q), at_t(k, *q)), [M] + tail)
        c.prove("the sampled values stay in the range", lambda k, *q: AND(LE(at(lo, q), gs(k, *q).t), LE(gs(k, *q).t, at(hi, q))), [M] + tail)
