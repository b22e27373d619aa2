from .pipeline import *


@unit("C10", "Stack.constraint: one inequality per connection of two different fibres", ["Stack.constraint"])
def constraint(c, pkg):
    m, net = mat_net(c, pkg)
    g, h = net.__dict__["_spec"]["g"], m.__dict__["_spec"]["g"]["h"]
    gm = m.__dict__["_spec"]["g"]
    n, N = m._n, net._n
    C, f, H, hh = pkg.Stack.constraint(m, net)
    if not isinstance(C, ssp.Sparse):
        raise K.Unsupported("the constraint matrix is not a sparse matrix")
    nc = C._shape[0]
    c.prove("the matrix has one column per fibre", EQ(C._shape[1], n))
    Ha, fa, ha = V(H), V(f), V(hh)
    for nm, a, d in (("bounds", H, nc), ("costs", f, n), ("thicknesses", hh, n)):
        c.prove("as many {} as needed".format(nm), EQ(A.asarr(a)._shape[0], d))
    c.prove("the thicknesses are those of the mat", lambda k: EQ(ha(k), h(k)), [n])
    c.prove("every fibre has a positive weight", lambda k: LT(0, fa(k)), [n])
    for p, (cnt, r, q, v) in enumerate(C.blocks):
        c.prove("each group of coefficients has one entry per inequality", EQ(cnt, nc))
        c.prove("the coefficients are on their own row", lambda e: EQ(r(e).t, e), [nc])
    z = c.leaf("any_z", [n], R)
    Z = lambda k: z(K.toint(k))

    def lhs(e):
        s = 0
        for _, r, q, v in C.blocks:
            s = ADD(s, MUL(v(e).t, Z(q(e).t)))
        return s
    same = lambda e, r: AND(EQ(lhs(e), SUB(Z(g["A"](r)), Z(g["B"](r)))), EQ(Ha(e), MUL(Fraction(-1, 2), ADD(h(g["A"](r)), h(g["B"](r))))))
    c.prove("every inequality is the non-penetration of a connection of two different fibres",
            lambda e: c.exists_bool([N], lambda r: AND(LT(g["A"](r), g["B"](r)), same(e, r)), "connection"), [nc])
    c.prove("every connection of two different fibres has its inequality",
            lambda r: IMP(LT(g["A"](r), g["B"](r)), c.exists_bool([nc], lambda e: same(e, r), "inequality")), [N])


def linprog_contract(c, witness):
    """scipy.optimize.linprog: minimises cost.x subject to A x <= b and the bounds.  Contract: when a
    feasible point exists and every cost is positive with finite lower bounds, the result is feasible,
    and no coordinate can be lowered alone: it is at its lower bound or a row in which its coefficient is
    negative is tight (a consequence of optimality)."""
    calls = []

    def linprog(cost, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, **k):
        if A_eq is not None or not isinstance(A_ub, ssp.Sparse):
            raise K.Unsupported("linprog with these arguments")
        if any(q not in ("method", "options") for q in k):
            raise K.Unsupported("linprog options")
        nr, n = A_ub._shape
        f, b = V(cost), V(b_ub)
        if bounds is None:
            lo, hi = (lambda i: Sc(0, "r")), (lambda i: Sc(0, "r", (False, True, False)))
        elif isinstance(bounds, (tuple, list)) and len(bounds) == 2 and lift(bounds[0]) is not None:
            l0, h0 = lift(bounds[0]), (Sc(0, "r", (False, True, False)) if bounds[1] is None else lift(bounds[1]))
            lo, hi = (lambda i: l0), (lambda i: h0)
        else:
            B = A.asarr(bounds)
            if B.ndim != 2 or isz(B._shape[1]) or B._shape[1] != 2:
                K.lib_raise(ValueError("bounds"))
            if not A.samedim(B._shape[0], n):
                K.lib_raise(ValueError("Invalid input for linprog: bounds"))
            gb = B.getter()
            lo, hi = (lambda i: gb(i, 0)), (lambda i: gb(i, 1))
        bl = A_ub.blocks
        for cnt, r, q, v in bl:
            if not c.known(EQ(cnt, nr)) or not c.known(c.forall_bool([nr], lambda e: EQ(r(e).t, e), "rowwise")):
                raise K.Unsupported("linprog: coefficients that are not stored row by row")
        row = lambda x: lambda e: K_sum([MUL(v(e).t, x(q(e).t)) for _, r, q, v in bl])
        w = witness(n)
        c.prove("linprog: finite lower bounds", lambda i: K.num(lo(i)).fin, [n])
        c.prove("linprog: the problem is feasible (bounds)", lambda i: AND(K.le(lo(i), Sc(w(i), "r")).t, K.le(Sc(w(i), "r"), hi(i)).t), [n])
        c.prove("linprog: the problem is feasible (inequalities)", lambda e: LE(row(w)(e), b(e)), [nr])
        c.prove("linprog: positive costs", lambda i: LT(0, f(i)), [n])
        x = c.leaf("linprog_x", [n], R)
        X = lambda i: x(K.toint(i))
        c.forall([n], lambda i: AND(K.le(lo(i), Sc(X(i), "r")).t, K.le(Sc(X(i), "r"), hi(i)).t), "within bounds")
        c.forall([nr], lambda e: LE(row(X)(e), b(e)), "inequalities")
        t = c.leaf("tight_row", [n], I)
        T = lambda i: t(K.toint(i))
        neg = lambda e, i: LT(K_sum([ITE(EQ(q(e).t, i), v(e).t, 0) for _, r, q, v in bl]), 0)
        c.forall([n], lambda i: OR(EQ(X(i), lo(i).t), AND(inr(T(i), nr), neg(T(i), i), EQ(row(X)(T(i)), b(T(i))))), "no coordinate can be lowered")
        c.facts.append(K.Fact([(dkey(n), n)], lambda i: (True, [(nr, T(i))]), "tight row"))
        calls.append(1)
        return ssp.Bunch(x=Arr((n,), "r", lambda ix: Sc(X(ix[0]), "r")), success=True, status=0)
    return linprog, calls


def K_sum(ts):
    s = 0
    for t in ts:
        s = ADD(s, t)
    return s


@unit("C10", "Stack.solve: heights above ground, without penetration, each fibre resting on something", ["Stack.solve"])
def solve(c, pkg):
    m, net = mat_net(c, pkg)
    n = m._n
    h = m.__dict__["_spec"]["g"]["h"]
    cons = stub_stack_constraint(c, pkg)
    P = c.leaf("pile", [ADD(n, 1)], R)
    p = lambda k: P(K.toint(k))

    def witness(nn):
        # ghost: all fibres piled up; pile(k) is the sum of the thicknesses below k
        c.assume(EQ(p(0), 0))
        c.forall([n], lambda k: EQ(p(norm(ADD(k, 1))), ADD(p(k), h(k))), "pile")
        i, j = c.int("i"), c.int("j")
        step = lambda i, j: LE(ADD(p(i), h(i)), p(j))
        hyp = [AND(LE(0, i), LT(i, n))]
        c.prove("lemma pile (base)", lambda: IMP(AND(*hyp), step(i, norm(ADD(i, 1)))), hint=lambda: [(n, i)])
        c.prove("lemma pile (step)", lambda: IMP(AND(*hyp, LT(i, j), LT(j, n), step(i, j)), step(i, norm(ADD(j, 1)))), hint=lambda: [(n, i), (n, j)])
        c.prove("lemma pile, non-negative (step)", lambda: IMP(AND(*hyp, LE(0, p(i))), LE(0, p(norm(ADD(i, 1))))), hint=lambda: [(n, i)])
        c.forall([n, n], lambda i, j: IMP(LT(i, j), step(i, j)), "pile lemma (by induction)")
        c.forall([n], lambda i: LE(0, p(i)), "pile non-negative (by induction)")
        return lambda k: ADD(p(k), DIV(h(k), 2))
    lp, calls = linprog_contract(c, witness)
    pkg.mods["fibermat.net"].sp.optimize.linprog = lp
    r = pkg.Stack.solve(m, net)
    need(cons, "Stack.constraint")
    need(calls, "linprog")
    k = cons[-1]
    c.prove("the system is that of the given mat and network", k["mat"] is m and k["net"] is net)
    c.prove("the result counts as solved", bool(r))
    x = V(r.x)
    nc, i, j = k["nc"], lambda e: k["i"](K.toint(e)), lambda e: k["j"](K.toint(e))
    c.prove("one height per fibre", EQ(A.asarr(r.x)._shape[0], n))
    c.prove("every fibre is at least half its thickness above the ground", lambda a: LE(DIV(h(a), 2), x(a)), [n])
    c.prove("no penetration", lambda e: LE(DIV(ADD(h(i(e)), h(j(e))), 2), SUB(x(j(e)), x(i(e)))), [nc])
    c.prove("every fibre rests on the ground or on a lower-labelled fibre", lambda a: OR(EQ(x(a), DIV(h(a), 2)), c.exists_bool(
        [nc], lambda e: AND(EQ(j(e), a), EQ(SUB(x(a), x(i(e))), DIV(ADD(h(i(e)), h(a)), 2))), "support")), [n])


for _g in (True, False):
    @unit("C10", "Stack.init: the heights of the mat are the solution ({})".format("network given" if _g else "no network given"), ["Stack.init"])
    def init(c, pkg, given=_g):
        m, net = mat_net(c, pkg)
        n = m._n
        made = stub_net_init(c, pkg)
        calls = stub_stack_solve(c, pkg, m)
        kw = {"threshold": Sc(c.real("threshold"), "r")} if c.choice("with a threshold") else {}
        pkg.Stack.init(m, net, **kw) if given else pkg.Stack.init(m, **kw)
        need(calls, "Stack.solve")
        c.prove("the stacking problem is that of the mat", calls[-1][0] is m)
        if given:
            c.prove("the stacking problem is that of the given network", calls[-1][1] is net)
        else:
            ok = made and made[0][0] is m and made[0][2] is None and isinstance(calls[-1][1], spd.DataFrame)
            c.prove("the stacking problem is that of the mat's own network", bool(ok) and bool(lift(made[0][1]).t is True or made[0][1] is True))
            if ok:
                a, b = calls[-1][1], made[0][3]
                for q in NETCOLS:
                    ga, gb = V(a._cols[q]), V(b._cols[q])
                    c.prove("the network used is the one built: " + q, lambda r: EQ(ga(r), gb(r)), [b._n])
                c.prove("the network used is the one built: rows", EQ(a._n, b._n))
        x, z = V(calls[-1][2].x), V(m._cols["z"])
        c.prove("the heights of the mat are the solution", lambda a: EQ(z(a), x(a)), [n])
