from .stiff import *


def setup(c, pkg, lo, hi):
    m, mesh = mat_mesh(c, pkg)
    calls = capture_interp(c, pkg, False)
    kw = {}
    L = H = None
    if lo:
        L = c.real("lmin")
        c.assume(L > 0)
        kw["lmin"] = Sc(L, "r")
    if hi:
        H = c.real("lmax")
        c.assume(H > 0)
        kw["lmax"] = Sc(H, "r")
    pkg.stiffness(m, mesh, **kw)
    return m, mesh, calls, L, H


for _lo, _hi in ((1, 1), (1, 0), (0, 1)):
    @unit("C15", "stiffness: effective lengths ({})".format({(1, 1): "both bounds", (1, 0): "lower bound", (0, 1): "upper bound"}[_lo, _hi]), ["stiffness"], mods=MODEL)
    def bounds(c, pkg, lo=_lo, hi=_hi):
        m, mesh, calls, L, H = setup(c, pkg, lo, hi)
        N, G = mesh._n, mesh.__dict__["_spec"]["g"]
        beam = G["beam"]
        if not calls:
            # no beam
            c.prove("lengths are rescaled when there is a beam", NOT(c.exists_bool([N], lambda t: LT(t, beam(t)), "a beam")))
            return
        ne, l, le = calls[-1]["n"], calls[-1]["l"], calls[-1]["leff"]
        # the bounds in force
        np_ = pkg.mods["fibermat.model"].np
        arr = Arr((ne,), "r", lambda ix: Sc(l(ix[0]), "r"))
        if not lo:
            L = lift(np_.min(arr)).t
        if not hi:
            H = lift(np_.max(arr)).t
        c.assume(LE(L, H))
        c.prove("between the bounds", lambda e: AND(LE(L, le(e)), LE(le(e), H)), [ne])
        c.prove("monotone", lambda e, f: IMP(LE(l(e), l(f)), LE(le(e), le(f))), [ne, ne])
        # a lemma tried first: the map of [min(shortest, L), max(longest, H)] onto [L, H]
        x0, x1 = K.minimum(lift(np_.min(arr)), Sc(L, "r")).t, K.maximum(lift(np_.max(arr)), Sc(H, "r")).t
        k = DIV(SUB(H, L), SUB(x1, x0))
        line = lambda e, f: EQ(SUB(le(e), le(f)), MUL(k, SUB(l(e), l(f))))
        if c.known(c.forall_bool([ne, ne], line, "line")):
            kk = c.real("slope")
            le2, l2 = c.leaf("le'", [ne], R), c.leaf("l'", [ne], R)
            F, X = [lambda t, h=h: h(K.toint(t)) for h in (le2, l2)]
            c.prove("affine", lambda e, f, g: IMP(AND(EQ(SUB(F(e), F(f)), MUL(kk, SUB(X(e), X(f)))), EQ(SUB(F(g), F(f)), MUL(kk, SUB(X(g), X(f))))),
                                                  EQ(MUL(SUB(F(e), F(f)), SUB(X(g), X(f))), MUL(SUB(F(g), F(f)), SUB(X(e), X(f))))), [ne, ne, ne], poly=True)
        else:
            c.prove("affine", lambda e, f, g: EQ(MUL(SUB(le(e), le(f)), SUB(l(g), l(f))), MUL(SUB(le(g), le(f)), SUB(l(e), l(f)))), [ne, ne, ne], poly=True)
        exact = AND(EQ(L, lift(np_.min(arr)).t), EQ(H, lift(np_.max(arr)).t))
        c.prove("geometric lengths when the extremes are the bounds", lambda e: IMP(exact, EQ(le(e), l(e))), [ne], poly=True)


@unit("C15", "stiffness: geometric lengths without bounds", ["stiffness"], mods=MODEL)
def none(c, pkg):
    m, mesh, calls, L, H = setup(c, pkg, 0, 0)
    if not calls:
        raise K.PathEnd()
    ne, l, le = calls[-1]["n"], calls[-1]["l"], calls[-1]["leff"]
    c.prove("effective lengths are the geometric lengths", lambda e: EQ(le(e), l(e)), [ne])
