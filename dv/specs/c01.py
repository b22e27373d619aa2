from .base import *


def args(c, spread=True):
    n = c.int("n")
    c.assume(n >= 0)
    a = dict(n=n)
    for q in ("length", "width", "thickness", "size", "shear"):
        a[q] = c.real(q)
        c.assume(a[q] > 0)
    th, ps = c.real("theta"), c.real("psi")
    if spread:
        c.assume(AND(0 <= th, th <= 2 * PI))
        c.assume(AND(0 <= ps, ps <= PI))
    a.update(theta=th, psi=ps, seed=c.int("seed"))
    inf, t = c.bool("tensile_inf"), c.real("tensile")
    c.assume(OR(inf, t > 0))
    inf2 = c.bool("shear_inf")
    kw = {q: Sc(v, "i" if q in ("n", "seed") else "r") for q, v in a.items()}
    kw["tensile"] = Sc(t, "r", (False, inf, False))
    kw["shear"] = Sc(a["shear"], "r", (False, inf2, False))
    return n, kw


def post(c, m, n, kw):
    c.prove("number of fibres", EQ(m._n, n))
    c.prove("columns", list(m._cols) == MATCOLS)
    ix = m.index._a.getter()
    c.prove("labels 0..n-1 in order", lambda i: K.eq(ix(i), Sc(i, "i")).t, [n])
    g = {q: m._cols[q].getter() for q in MATCOLS}
    c.prove("non-decreasing heights", lambda i, j: IMP(LT(i, j), K.le(g["z"](i), g["z"](j)).t), [n, n])
    for q, k in zip("lbhGE", ("length", "width", "thickness", "shear", "tensile")):
        c.prove("column {} is {}".format(q, k), lambda i: K.ident(g[q](i), kw[k]), [n])
    S = kw["size"].t
    for q in "xyz":
        c.prove("{} inside the box".format(q), lambda i: AND(g[q](i).fin, LE(-S / 2, g[q](i).t), LE(g[q](i).t, S / 2)), [n])
    u, v, w = g["u"], g["v"], g["w"]
    c.prove("unit direction", lambda i: AND(EQ(u(i).t * u(i).t + v(i).t * v(i).t + w(i).t * w(i).t, 1), u(i).fin, v(i).fin, w(i).fin), [n])
    c.prove("metadata keys", AND("n" in m.attrs, "size" in m.attrs))
    if "n" in m.attrs and "size" in m.attrs:
        c.prove("metadata n", EQ(lift(m.attrs["n"]).t, n))
        c.prove("metadata size", EQ(lift(m.attrs["size"]).t, S))
        c.prove("no flag skips the check", "skip_check" not in m.attrs)


@unit("C01", "Mat.init", ["Mat.init"], mods=("mat",))
def init(c, pkg):
    n, kw = args(c, spread=False)
    post(c, pkg.Mat.init(**kw), n, kw)


@unit("C01", "Mat(...): constructor and validation", ["Mat.__init__", "Mat.init", "Mat.check", "Mat.attrs"], mods=("mat",))
def ctor(c, pkg):
    n, kw = args(c, spread=False)
    m = pkg.Mat(**kw)
    post(c, m, n, kw)
    r = pkg.Mat.check(m)
    c.prove("Mat.check accepts", r is True or (lift(r) is not None and lift(r).t))
