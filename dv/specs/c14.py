from .stiff import *


def setup(c, pkg, coupling=True):
    m, mesh = mat_mesh(c, pkg)
    calls = capture_interp(c, pkg, True)
    kw = {}
    k = Sc(1, "i")
    if coupling:
        k = Sc(c.real("coupling"), "r")
        c.assume(AND(k.t >= 0, k.t <= 1))
        kw["coupling"] = k
    out = pkg.stiffness(m, mesh, **kw)
    if not (isinstance(out, tuple) and len(out) == 5):
        c.prove("five results", False)
        raise K.PathEnd()
    return m, mesh, calls, out, K.num(k).t


def element(gm, i, f, le, kc):
    """the documented element matrix"""
    G, b, h, E = [gm[q](f) for q in "GbhE"]
    k0 = MUL(MUL(DIV(MUL(MUL(G, b), h), le), DIV(PI, 4)), DIV(1, ADD(1, MUL(DIV(G, E), MUL(DIV(le, h), DIV(le, h))))))
    sh = MUL(DIV(E, G), MUL(h, h))
    c1 = MUL(kc, MUL(k0, DIV(le, 2)))
    d = MUL(k0, ADD(DIV(MUL(le, le), 3), sh))
    o = MUL(k0, SUB(DIV(MUL(le, le), 6), sh))
    n = lambda x: SUB(0, x)
    return [[k0, c1, n(k0), c1], [c1, d, n(c1), o], [n(k0), n(c1), k0, n(c1)], [c1, o, n(c1), d]]


for _c in (True, False):
    @unit("C14", "stiffness: sum of the documented element matrices ({})".format("any coupling" if _c else "default coupling"), ["stiffness"], mods=MODEL)
    def assembly(c, pkg, coupling=_c):
        m, mesh, calls, (Km, u, F, du, dF), kc = setup(c, pkg, coupling)
        sp_ = mesh.__dict__["_spec"]
        N, G = mesh._n, sp_["g"]
        gm = m.__dict__["_spec"]["g"]
        if not isinstance(Km, ssp.Sparse):
            raise K.Unsupported("the stiffness matrix is not sparse")
        c.prove("shape of the matrix", AND(EQ(Km._shape[0], MUL(2, N)), EQ(Km._shape[1], MUL(2, N))))
        for nm, a in (("displacements", u), ("loads", F), ("displacement increments", du), ("load increments", dF)):
            g = V(a)
            c.prove("the {} are zeros".format(nm), AND(EQ(A.asarr(a)._shape[0], MUL(2, N)), A.asarr(a).ndim == 1))
            c.prove("every one of the {} is zero".format(nm), lambda t: EQ(g(t), 0), [MUL(2, N)])
        beam = G["beam"]
        el = elements(c, Km, N, G, lambda i: LT(i, beam(i)))
        if el is None:
            # no beam at all, or coefficients that are not those of the beams
            B = c.exists_bool([N], lambda t: LT(t, beam(t)), "a beam")
            c.prove("coefficients are those of the beams", AND(NOT(B), AND(*[EQ(n, 0) for n, _, _, _ in Km.blocks])))
            return
        ne, i = el
        j = lambda e: beam(i(e))
        c.prove("every beam counted once", lambda e, f: IMP(LT(e, f), NE(i(e), i(f))), [ne, ne])
        c.prove("every beam is counted", lambda t: IMP(LT(t, beam(t)), c.exists_bool([ne], lambda e: EQ(i(e), t), "element")), [N])
        c.prove("no coupling between fibres", lambda e: EQ(G["fiber"](i(e)), G["fiber"](j(e))), [ne])
        if not calls and c.known(EQ(ne, 0)):
            return
        need(calls, "interp1d")
        le = calls[-1]["leff"]
        lg = calls[-1]["l"]
        c.prove("as many lengths as beams", EQ(calls[-1]["n"], ne))
        c.prove("the geometric lengths", lambda e: EQ(lg(e), SUB(G["s"](j(e)), G["s"](i(e)))), [ne])
        dof = lambda p, e: ADD(MUL(2, (i(e) if p < 2 else j(e))), p % 2)
        cell = {}
        for b, (n, r, q, v) in enumerate(Km.blocks):
            c.prove("one coefficient per beam in each group", EQ(n, ne))
            pos = None
            for p in range(4):
                if quiet(c, lambda e: EQ(r(e).t, dof(p, e)), ne):
                    for s in range(4):
                        if quiet(c, lambda e: EQ(q(e).t, dof(s, e)), ne):
                            pos = (p, s)
                            break
                    break
            c.prove("coefficients couple the two nodes of a beam", pos is not None)
            if pos is None:
                raise K.PathEnd()
            cell.setdefault(pos, []).append(v)
        mat_e = [[(lambda e, vs=cell.get((p, s), []): _sum([K.num(v(e)).t for v in vs])) for s in range(4)] for p in range(4)]
        fib = lambda e: G["fiber"](i(e))
        for p in range(4):
            for s in range(4):
                c.prove("entry ({},{}) of the element matrix".format(p, s), lambda e: EQ(mat_e[p][s](e), element(gm, i(e), fib(e), le(e), kc)[p][s]), [ne], poly=True)


def _sum(l):
    s = 0
    for x in l:
        s = ADD(s, x)
    return s


@unit("C14", "the element matrix: symmetric, positive semi-definite, insensitive to translations (lemma)", ["stiffness"], mods=MODEL)
def lemma(c, pkg):
    G, b, h, E, le, kc = [c.real(q) for q in ("G", "b", "h", "E", "le", "coupling")]
    c.assume(AND(*[q > 0 for q in (G, b, h, E, le)]))
    c.assume(AND(kc >= 0, kc <= 1))
    M = element({q: (lambda t, v=v: v) for q, v in zip("GbhE", (G, b, h, E))}, 0, 0, le, kc)
    for p in range(4):
        for s in range(p):
            c.prove("symmetric", EQ(M[p][s], M[s][p]), poly=True)
        c.prove("insensitive to a translation", EQ(ADD(M[p][0], M[p][2]), 0), poly=True)
    x = [c.real("x{}".format(p)) for p in range(4)]
    Q = _sum([MUL(MUL(x[p], M[p][s]), x[s]) for p in range(4) for s in range(4)])
    k0 = M[0][0]
    sh = MUL(DIV(E, G), MUL(h, h))
    a, d = ADD(x[1], x[3]), SUB(x[1], x[3])
    w = SUB(x[0], x[2])
    t = ADD(w, MUL(MUL(kc, le), DIV(a, 2)))
    sq = lambda v: MUL(v, v)
    rest = ADD(MUL(MUL(SUB(1, sq(kc)), DIV(sq(le), 4)), sq(a)), MUL(ADD(DIV(sq(le), 12), sh), sq(d)))
    c.prove("the quadratic form is a sum of squares", EQ(Q, MUL(k0, ADD(sq(t), rest))), poly=True)
    # positivity of the factors
    c.prove("positive factor", LT(0, k0))
    k_, s1, c1, l1, h1 = [c.real(q) for q in ("k'", "t'", "c'", "l'", "h'")]
    c.assume(AND(k_ > 0, c1 >= 0, c1 <= 1, h1 > 0))
    a1, d1 = c.real("a'"), c.real("d'")
    c.prove("a weighted sum of squares is not negative", AND(LE(0, sq(s1)), LE(0, SUB(1, sq(c1))), LE(0, sq(l1)), LE(0, sq(a1)), LE(0, sq(d1))))
    y = [c.real("y{}".format(p)) for p in range(5)]
    c.assume(AND(*[v >= 0 for v in y]))
    c.prove("products and sums of non-negative numbers are not negative", LE(0, MUL(k_, ADD(y[0], ADD(MUL(MUL(y[1], DIV(y[2], 4)), y[3]), MUL(ADD(DIV(y[2], 12), h1), y[4]))))))
