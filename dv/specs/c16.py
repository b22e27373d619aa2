from .stiff import *


def setup(c, pkg, prep=None):
    m, mesh = mat_mesh(c, pkg)
    if prep:
        prep(c, m, mesh)
    out = pkg.constraint(m, mesh)
    if not (isinstance(out, tuple) and len(out) == 5):
        c.prove("five results", False)
        raise K.PathEnd()
    return m, mesh, out


def pairs(c, C, N, con):
    """e -> i(e), the node of the e-th connection (the rows 3e..3e+2 are its inequalities)"""
    for n, r, q, v in C.blocks:
        i = lambda e, f=q: K.divmod_c(f(e).t, 2)[0]
        row = lambda e, f=r: f(e).t
        if quiet(c, lambda e: AND(EQ(row(e), MUL(3, e)), inr(i(e), N), LE(i(e), con(i(e)))), n):
            return n, i
    return None


@unit("C16", "constraint: the three inequalities of every connected pair", ["constraint"], mods=MODEL)
def system(c, pkg):
    m, mesh, (C, f, H, df, dH) = setup(c, pkg)
    N, G = mesh._n, mesh.__dict__["_spec"]["g"]
    h = m.__dict__["_spec"]["g"]["h"]
    con, fib, z = G["constraint"], G["fiber"], G["z"]
    th = lambda t: h(fib(t))
    if not isinstance(C, ssp.Sparse):
        raise K.Unsupported("the constraint matrix is not sparse")
    pr = pairs(c, C, N, con)
    c.prove("the matrix has a lower-plate coefficient on the displacement of the lower node of each pair", pr is not None)
    if pr is None:
        raise K.PathEnd()
    nc, i = pr
    j = lambda e: con(i(e))
    c.prove("shape of the matrix", AND(EQ(C._shape[0], MUL(3, nc)), EQ(C._shape[1], MUL(2, N))))
    c.prove("each pair once", lambda e, g: IMP(LT(e, g), NE(i(e), i(g))), [nc, nc])
    c.prove("every pair has its inequalities", lambda t: IMP(LE(t, con(t)), c.exists_bool([nc], lambda e: EQ(i(e), t), "pair")), [N])
    # coefficients: sum of the values found at (3e + k, 2 node)
    coef = {0: [], 1: [], 2: []}
    for n, r, q, v in C.blocks:
        c.prove("one coefficient per pair in each group", EQ(n, nc))
        k = next((k for k in range(3) if quiet(c, lambda e: EQ(r(e).t, ADD(MUL(3, e), k)), nc)), None)
        c.prove("every coefficient is in the inequalities of its pair", k is not None)
        if k is None:
            raise K.PathEnd()
        coef[k].append((q, v))
    u = c.leaf("any_u", [MUL(2, N)], R)
    U = lambda t: u(K.toint(t))

    def lhs(k, e):
        s = 0
        for q, v in coef[k]:
            s = ADD(s, MUL(v(e).t, U(q(e).t)))
        return s
    ui, uj = (lambda e: U(MUL(2, i(e)))), (lambda e: U(MUL(2, j(e))))
    c.prove("ground inequality", lambda e: EQ(lhs(0, e), SUB(0, ui(e))), [nc])
    c.prove("mutual inequality", lambda e: EQ(lhs(1, e), SUB(ui(e), uj(e))), [nc])
    c.prove("upper-plate inequality", lambda e: EQ(lhs(2, e), uj(e)), [nc])
    hg = A.asarr(H).getter()
    for nm, a in (("forces", f), ("bounds", H), ("force increments", df), ("bound increments", dH)):
        c.prove("as many {} as inequalities".format(nm), AND(A.asarr(a).ndim == 1, EQ(A.asarr(a)._shape[0], MUL(3, nc))))
    val = lambda g, v: AND(g.fin, EQ(g.t, v))
    half = lambda x: DIV(x, 2)
    c.prove("ground bounds", lambda e: val(hg(MUL(3, e)), SUB(z(i(e)), half(th(i(e))))), [nc])
    gap = lambda e: SUB(SUB(z(j(e)), z(i(e))), half(ADD(th(i(e)), th(j(e)))))
    c.prove("mutual bounds: the initial gap", lambda e: IMP(NE(i(e), j(e)), val(hg(ADD(MUL(3, e), 1)), gap(e))), [nc])
    c.prove("mutual bounds of end nodes: infinite", lambda e: IMP(EQ(i(e), j(e)), hg(ADD(MUL(3, e), 1)).pinf), [nc])
    # the upper plate: one height for every pair, that of the highest top
    np_ = pkg.mods["fibermat.model"].np
    top = Arr((N,), "r", lambda ix: Sc(ADD(z(ix[0]), half(th(ix[0]))), "r"))
    Z = lift(np_.max(top, initial=-np_.inf)).t
    c.prove("upper-plate bounds", lambda e: val(hg(ADD(MUL(3, e), 2)), SUB(SUB(Z, z(j(e))), half(th(j(e))))), [nc])
    F_, DF, DH = V(f), V(df), V(dH)
    c.prove("the forces are zeros", lambda t: EQ(F_(t), 0), [MUL(3, nc)])
    c.prove("the force increments are zeros", lambda t: EQ(DF(t), 0), [MUL(3, nc)])
    for k in range(3):
        c.prove("rates of the {} bounds".format(["ground", "mutual", "upper-plate"][k]), lambda e: EQ(DH(ADD(MUL(3, e), k)), 1 if k == 2 else 0), [nc])


@unit("C16", "constraint: the undeformed state of a stacked mat is admissible", ["constraint"], mods=MODEL)
def admissible(c, pkg):
    def prep(c, m, mesh):
        """a mesh of a stacked mat of horizontal fibres: every node is on its fibre, at least half a thickness
        above the ground, and connected nodes do not overlap (C10-C13)"""
        N, G = mesh._n, mesh.__dict__["_spec"]["g"]
        h = m.__dict__["_spec"]["g"]["h"]
        con, fib, z = G["constraint"], G["fiber"], G["z"]
        th = lambda t: h(fib(t))
        c.forall([N], lambda t: LE(DIV(th(t), 2), z(t)), "above the ground")
        c.forall([N], lambda t: IMP(LT(t, con(t)), LE(DIV(ADD(th(t), th(con(t))), 2), SUB(z(con(t)), z(t)))), "stacked")
    m, mesh, (C, f, H, df, dH) = setup(c, pkg, prep)
    N, G = mesh._n, mesh.__dict__["_spec"]["g"]
    con = G["constraint"]
    hg = A.asarr(H).getter()
    pr = pairs(c, C, N, con)
    if pr is None:
        raise K.Unsupported("layout of the constraint matrix")
    nc, i = pr
    ok = lambda g: AND(NOT(g.nan), OR(g.pinf, AND(g.fin, LE(0, g.t))))
    for k in range(3):
        c.prove("{} bounds are not negative".format(["ground", "mutual", "upper-plate"][k]), lambda e: ok(hg(ADD(MUL(3, e), k))), [nc])


@unit("C16", "constraint: a mesh without nodes", ["constraint"], mods=MODEL)
def empty(c, pkg):
    m, mesh = mat_mesh(c, pkg, empty=True)
    C, f, H, df, dH = pkg.constraint(m, mesh)
    c.prove("empty system", AND(*[EQ(d, 0) for d in list(C._shape) + [A.asarr(a)._shape[0] for a in (f, H, df, dH)]]))
