"""C21: vtk_mesh under contract; vtk_mat is used by its contract (C20)."""
from .c20 import *


@unit("C21", "the location of the points", ["vtk_mesh"], mods=RENDER)
def location(c, pkg):
    run_mesh(c, pkg, loc=True)


@unit("C21", "the fields of the export", ["vtk_mesh"], mods=RENDER)
def fields(c, pkg):
    run_mesh(c, pkg)


def run_mesh(c, pkg, loc=False, frame=False):
    m = render(pkg)
    n = c.int("n")
    c.assume(n >= 1)
    S = c.real("size")
    c.assume(S > 0)
    mat = sym_mat(c, pkg, "mat", n, S)
    N = c.int("nodes")
    c.assume(N >= 2)
    mesh = sym_mesh(c, pkg, "mesh", n, N, S, periodic=False)
    stub_checks(c, pkg, mat)
    pkg.Mesh.check = lambda self=None: True
    fib, s = (mesh.__dict__["_spec"]["g"][q] for q in ("fiber", "s"))
    l = mat.__dict__["_spec"]["g"]["l"]
    c.forall([N, N], lambda a, b: IMP(AND(LT(a, b), EQ(fib(a), fib(b))), LT(s(a), s(b))), "distinct abscissae", trig=lambda a, b: a.get_id() != b.get_id())
    lo, hi = c.leaf("first_node", [n], I), c.leaf("last_node", [n], I)
    lo_, hi_ = (lambda i: lo(K.toint(i))), (lambda i: hi(K.toint(i)))
    c.forall([n], lambda i: (AND(inr(lo_(i), N), inr(hi_(i), N), EQ(fib(lo_(i)), i), EQ(fib(hi_(i)), i), LT(lo_(i), hi_(i)),
                                 EQ(s(lo_(i)), NEG(DIV(l(i), 2))), EQ(s(hi_(i)), DIV(l(i), 2))), [(N, lo_(i)), (N, hi_(i))]), "nodes at both ends")
    # every node of a fibre lies between its first and last ones
    c.forall([N], lambda t: (AND(LE(lo_(fib(t)), t), LE(t, hi_(fib(t)))), [(n, fib(t))]), "nodes of a fibre")
    snaps = snapshot(mat), snapshot(mesh)
    calls = []
    pts = c.int("export_points")
    c.assume(pts >= 1)
    coord = [c.leaf("export." + q, [pts], R) for q in "xyz"]
    nodef = c.leaf("export.node", [pts], R)

    def vtk_mat(mat_=None, func=None, verbose=True, **k):
        calls.append(k)
        if not frame:
            c.prove("the export is that of the mat given", mat_ is mat)
        if loc:
            if func is None:
                raise K.Unsupported("vtk_mat is called without a function")
            i = c.int("fibre")
            c.assume(inr(i, n))
            c.touch(n, i)
            np_ = c.int("fibre_points")
            c.assume(np_ >= 1)
            x = [c.leaf("local." + q, [np_], R) for q in "xyz"]
            c.forall([np_], lambda p: AND(LE(NEG(DIV(l(i), 2)), x[0](K.toint(p))), LE(x[0](K.toint(p)), DIV(l(i), 2))), "local coordinates")
            xyz = Arr((np_, 3), "r", lambda ix: Sc(x[ix[1]](K.toint(ix[0])), "r"))
            msh = spv.SMesh(np_, Arr((np_, 3), "r", lambda ix: Sc(0, "r")), {"xyz": xyz})


            def on_nearest(mm, ng, near, sg, xg):
                """the nearest node and the next or the previous one bracket the point"""
                c.state["near"] = (near, sg)
                for nm, f in (("a next node", lambda q, x_: IMP(LT(sg(q), x_), LT(ADD(q, 1), ng))), ("after", lambda q, x_: IMP(LT(sg(q), x_), LT(x_, sg(norm(ADD(q, 1)))))),
                              ("a previous node", lambda q, x_: IMP(LE(x_, sg(q)), LE(1, q))), ("before", lambda q, x_: IMP(LE(x_, sg(q)), LT(sg(norm(SUB(q, 1))), x_)))):
                    p = c.int("p")
                    q = near(p)
                    r = "x"
                    for dd, nl in ((1, False), (2, False)):
                        r = c.refute([inr(p, mm), NOT(f(q, xg(p)))], dd, 5000, touch=[(mm, p), (ng, q), (ng, norm(ADD(q, 1))), (ng, norm(SUB(q, 1)))], nl=nl, only=True)[0]
                        if r == "unsat":
                            c.forall([mm], lambda p, f=f: (f(near(p), xg(p)), [(ng, near(p)), (ng, norm(ADD(near(p), 1))), (ng, norm(SUB(near(p), 1)))]), nm)
                            break
            c.state["on_nearest"] = on_nearest
            func(msh, Sc(i, "i"))
            c.prove("a location is given", "node" in msh.data)
            if "node" in msh.data:
                g = A.asarr(msh["node"]).getter()
                p = c.int("point")
                c.assume(inr(p, np_))
                c.touch(np_, p)
                v = g(p)
                at = MUL(Fraction(9999, 10000), x[0](K.toint(p)))
                c.prove("the location is finite", K.num(v).fin)
                v = v.t

                def parts(t):
                    u = norm(ADD(t, 1))
                    return (AND(inr(t, N), inr(u, N), EQ(fib(t), i), EQ(fib(u), i)), AND(LE(s(t), at), LE(at, s(u)), LT(s(t), s(u))),
                            EQ(MUL(SUB(v, z3.ToReal(t)), SUB(s(u), s(t))), SUB(at, s(t))))
                W = lambda t: AND(*parts(t))
                near = c.state.get("near")
                if near:
                    q, sg = near[0](p), near[1]
                    t0 = sg(q).arg(0)
                    for t, case in ((t0, LT(sg(q), at)), (norm(SUB(t0, 1)), LE(at, sg(q)))):
                        for w in (t, norm(ADD(t, 1))):
                            c.touch(N, w)
                        for f in parts(t):
                            ok = c.lemma(IMP(case, f))
                    goal = OR(W(t0), W(norm(SUB(t0, 1))))
                else:
                    goal = c.exists_bool([N], W, "segment")
                c.prove("the point is located at its fraction of the segment of its fibre that brackets it", goal)
                c.state["located"] = True
        out = spv.SMesh(pts, Arr((pts, 3), "r", lambda ix: Sc(coord[ix[1]](K.toint(ix[0])), "r")), {"node": Arr((pts,), "r", lambda ix: Sc(nodef(K.toint(ix[0])), "r"))})
        c.state["export"] = out
        return out
    m.vtk_mat = vtk_mat
    opts = {"r_resolution": Sc(c.int("r_res"), "i"), "theta_resolution": Sc(c.int("t_res"), "i"), "z_resolution": Sc(c.int("z_res"), "i")}
    kw, given = {}, {}
    if not loc:
        for a, b in (("displacement", "rotation"), ("force", "moment")):
            if c.choice(a + " given"):
                kw[a] = rcol(c, a, N)
                if c.choice(b + " given"):
                    kw[b] = rcol(c, b, N)
    given = {k: v.getter() for k, v in kw.items()}
    splines = []
    real = m.CubicHermiteSpline if hasattr(m, "CubicHermiteSpline") else None

    def spline(*a, **k):
        r = real(*a, **k)
        splines.append(r)
        return r
    m.CubicHermiteSpline = spline
    out = m.vtk_mesh(mat, mesh, verbose=False, **kw, **opts)
    need(calls, "vtk_mat")
    if frame:
        prove_frame(c, "the mat", mat, snaps[0])
        prove_frame(c, "the mesh", mesh, snaps[1])
        for k, a in kw.items():
            h = a.getter()
            c.prove("the {} given is unchanged".format(k), lambda i: K.ident(h(i), given[k](i)), [N])
        return
    c.prove("the options of the fibre meshes are honoured", all(calls[0].get(k) is v for k, v in opts.items()))
    if loc:
        if not c.state.get("located"):
            raise K.Unsupported("the points are not located by the function given to vtk_mat")
        return
    if not isinstance(out, spv.SMesh):
        raise K.Unsupported("the export is not a data set")
    c.prove("one point per point of the mat", EQ(out._n, pts))
    pg = out.points.getter()
    node = lambda p: nodef(K.toint(p))
    zero = lambda i: Sc(0, "r")
    at = {}
    for a, b in (("displacement", "rotation"), ("force", "moment")):
        if a not in kw:
            c.prove("no {} without one given".format(a), a not in out.data)
            continue
        c.prove("the {} is exported".format(a), a in out.data)
        if a not in out.data:
            return
        y, d = given[a], given.get(b, zero)
        val = None
        arr = A.asarr(out[a])
        D = arr.getter()
        comp = (lambda p, D=D: D(p, 2).t) if a == "displacement" else (lambda p, D=D: D(p).t)
        if arr.ndim != (2 if a == "displacement" else 1):
            c.prove("the {} has the dimension of its field".format(a), False)
            return
        ok = False
        for sp in splines:
            for e in sp.root.evals:
                if e["nu"] == 0:
                    p = c.int("p")
                    f = e["f"]
                    if c.refute([inr(p, pts), NOT(EQ(comp(p), f(K.toint(p))))], 1, 3000, touch=[(pts, p)])[0] == "unsat":
                        ok = True
                        c.prove("{}: the knots are the nodes".format(a), lambda i: EQ(K.num(sp.x(i)).t, K.toreal(i) if isz(i) else i), [N])
                        c.prove("{}: one value per node".format(a), EQ(sp.n, N))
                        c.prove("{}: the values at the nodes are those given".format(a), lambda i: K.ident(sp.y(i), y(i)), [N])
                        c.prove("{}: the slopes at the nodes are those given".format(a), lambda i: K.ident(sp.d(i), d(i)), [N])
                        c.prove("{}: interpolated where the point is located".format(a), lambda q: EQ(e["x"](q).t, node(q)), [pts])
        if not ok:
            raise K.Unsupported("the {} is not given by a spline".format(a))
        at[a] = comp
        if a == "displacement":
            c.prove("the displacement is vertical", lambda p: AND(EQ(D(p, 0).t, 0), EQ(D(p, 1).t, 0)), [pts])
    for k in range(3):
        f = coord[k]
        c.prove("points move by the displacement: " + "xyz"[k], lambda p: EQ(pg(p, k).t, ADD(f(K.toint(p)), at["displacement"](p) if k == 2 and "displacement" in at else 0)), [pts])
    nd = A.asarr(out["node"]).getter() if "node" in out.data else None
    c.prove("the locations are exported", nd is not None)
    if nd is not None:
        c.prove("the locations are those of the points", lambda p: EQ(nd(p).t, node(p)), [pts])
