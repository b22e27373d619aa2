from .checks import *

LO = Fraction(1, 10 ** 7)
HI = Fraction(1, 10 ** 4)


def run(c, pkg, check, ints, flag):
    N = c.int("rows")
    c.assume(N >= 0)
    cols = {q: xcol(c, q, N, nan=True) for q in MATCOLS}
    pres = {q: c.bool("has_" + q) for q in MATCOLS}
    n, S, sk = c.int("n"), c.real("size"), c.bool("skip_value")
    ap = {k: c.bool("has_attr_" + k) for k in ("n", "size", "skip_check")}
    ap["skip_check"] = flag
    at = SymAttrs(ap, {"n": Sc(n, "i"), "size": Sc(S, "r"), "skip_check": Sc(sk, "b")})
    idx = sym_labels(c, N, ints)
    t = table(pkg.Mat, cols, N, at, idx)
    t.__dict__["_pres"] = dict(pres)
    g = {q: a.getter() for q, a in cols.items()}
    lab = idx._a.getter()
    skip = AND(ap["skip_check"], sk)
    allc = AND(*pres.values())
    half = K.mul(Sc(Fraction(1, 2), "r"), Sc(S, "r"))
    zero = Sc(0, "i")

    def nrm(i):
        return K.sqrt(K.add(K.add(K.mul(g["u"](i), g["u"](i)), K.mul(g["v"](i), g["v"](i))), K.mul(g["w"](i), g["w"](i))))

    def close(i, tol):
        d = K.absolute(K.sub(nrm(i), Sc(1, "r")))
        return K.le(d, Sc(tol, "r")).t

    positive = lambda i: AND(*[K.lt(zero, g[q](i)).t for q in "lbhGE"])
    inbox = lambda i: AND(*[AND(K.le(K.neg(half), g[q](i)).t, K.le(g[q](i), half).t) for q in "xy"])
    ordered = lambda i: K.eq(lab(i), Sc(i, "i")).t
    accepted = [("the eleven columns", allc), ("the metadata", AND(ap["n"], ap["size"])), ("the recorded count", EQ(N, n)),
                ("labels 0..n-1 in order", lambda: (ordered, [N])), ("positive dimensions and moduli", lambda: (positive, [N])),
                ("in-plane positions inside the box", lambda: (inbox, [N])), ("unit directions", lambda: (lambda i: close(i, HI), [N]))]
    defects = dict(
        KeyError=lambda: NOT(allc),
        AttributeError=lambda: NOT(AND(ap["n"], ap["size"])),
        IndexError=lambda: NOT(c.forall_bool([N], ordered, "spec_labels")),
        ValueError=lambda: OR(NE(N, n), NOT(c.forall_bool([N], positive, "spec_pos")), NOT(c.forall_bool([N], inbox, "spec_box")),
                              NOT(c.forall_bool([N], lambda i: close(i, LO), "spec_unit"))))
    verdict(c, "Mat.check", lambda: check(t), accepted, defects, skip)


for _ints in (True, False):
    for _flag in (True, False):
        def _f(c, pkg, i=_ints, f=_flag):
            run(c, pkg, pkg.Mat.check, i, f)
        unit("C04", "Mat.check on an arbitrary table ({} labels, flag {})".format("integer" if _ints else "any numeric", "present" if _flag else "absent"),
             ["Mat.check"], mods=("mat",))(_f)

ctor_unit("C04", "Mat", "Mat")
