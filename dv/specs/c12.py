from .pipeline import *


def net_with_ends(c, pkg):
    """A valid network that has every fibre's end row: its abscissae enclose those of all the other
    nodes of the fibre, and it is the only row joining the fibre to itself."""
    n, m = c.int("n"), c.int("rows")
    c.assume(AND(n >= 1, m >= 1))
    net = sym_net(c, pkg, "net", n, m)
    g = net.__dict__["_spec"]["g"]
    e = c.leaf("end_row", [n], I)
    E_ = lambda i: e(K.toint(i))
    c.forall([n], lambda i: AND(inr(E_(i), m), EQ(g["A"](E_(i)), i), EQ(g["B"](E_(i)), i), LT(g["sB"](E_(i)), g["sA"](E_(i)))), "end rows")
    c.facts.append(K.Fact([(dkey(n), n)], lambda i: (True, [(m, E_(i))]), "end row index"))

    def inner(r):
        out = []
        for q in "AB":
            f = g[q](r)
            out.append(AND(LT(g["sB"](E_(f)), g["s" + q](r)), LT(g["s" + q](r), g["sA"](E_(f)))))
        return IFF_(EQ(g["A"](r), g["B"](r)), EQ(r, E_(g["A"](r))), IMP(NE(g["A"](r), g["B"](r)), AND(*out)))

    def IFF_(a, b, d):
        return AND(IFF(a, b), d)
    c.forall([m], inner, "ends enclose the other nodes")
    stub_checks(c, pkg, net)
    return n, m, g, net, E_


def ends(g, sh=("fiber", "s", "x", "y", "z")):
    """content of the two ends of a row"""
    return lambda r, q: [g[q](r), g["s" + q](r), g["x" + q](r), g["y" + q](r), g["z" + q](r)]


def build(c, pkg):
    n, m, g, net, E_ = net_with_ends(c, pkg)
    mesh = pkg.Mesh.init(net)
    if any(q not in mesh._cols for q in MESHCOLS):
        c.prove("the seven node columns", False)
        raise K.PathEnd()
    return n, m, g, net, mesh, E_


@unit("C12", "Mesh.init: accepted by the mesh validation", ["Mesh.init"])
def accepted(c, pkg):
    n, m, g, net, mesh, E_ = build(c, pkg)
    N = mesh._n
    mesh_f = V(mesh._cols["fiber"])
    G = {q: mesh._cols[q].getter() for q in MESHCOLS}
    lab = mesh.index._a.getter()
    c.prove("the metadata", all(k in mesh.attrs for k in ("n", "size", "periodic")))
    c.prove("integer labels", all(mesh._cols[q].k == "i" for q in ("fiber", "beam", "constraint")))
    c.prove("row labels 0..m-1 in order", lambda i: EQ(lab(i).t, i), [N])
    for nm, f, d in wf_rows(n, N, G):
        if nm.endswith("constrained to themselves"):
            continue
        c.prove(nm, f, [N] * d)
    # the end nodes: the node holding an end of the end row is constrained to itself (lemmas on the real
    # columns), hence so are the first and the last node (lemma on any sorted sequence with these facts)
    fib, s, con = [V(mesh._cols[q]) for q in ("fiber", "s", "constraint")]
    # an abstract node table with nothing but the facts proved
    n2, N2 = c.int("n'"), c.int("N'")
    f2, s2, c2 = c.leaf("fiber'", [N2], I), c.leaf("s'", [N2], R), c.leaf("constraint'", [N2], I)
    F, S_, C_ = [lambda t, g=g: g(K.toint(t)) for g in (f2, s2, c2)]
    c.forall([N2], lambda t: inr(F(t), n2), "fibres")
    c.facts.append(K.Fact([(dkey(N2), N2)], lambda t: (True, [(n2, F(t))]), "fibre index"))
    c.forall([N2, N2], lambda i, j: IMP(LT(i, j), AND(LE(F(i), F(j)), IMP(EQ(F(i), F(j)), LE(S_(i), S_(j))))), "ordered", trig=lambda a, b: a.get_id() != b.get_id())
    for side, q, k, rel, end in (("lower", "sB", 1, lambda a, b: LE(a, b), "first"), ("upper", "sA", 0, lambda a, b: LE(b, a), "last")):
        bound = lambda i: g[q](E_(i))
        # row end_row(i) joins fibre i to itself (precondition), so its end is a node of fibre i at bound(i)
        c.prove("lemma: end {} of every row is a node of its fibre at its abscissa".format(q[1]),
                lambda r: c.exists_bool([N], lambda t: AND(EQ(fib(t), g[q[1]](r)), EQ(s(t), g[q](r))), side + "_node"), [m],
                hint=lambda r: [(N, norm(ADD(MUL(2, r), k)))], chain=4)
        c.prove("lemma: no node is beyond the {} end, and one at this end is constrained to itself".format(side),
                lambda t: AND(rel(bound(fib(t)), s(t)), IMP(EQ(s(t), bound(fib(t))), EQ(con(t), t))), [N], chain=3)
        p2, b2 = c.leaf(side + "'", [n2], I), c.leaf(side + "_s'", [n2], R)
        P, B = [lambda t, g=g: g(K.toint(t)) for g in (p2, b2)]
        c.forall([n2], lambda i: AND(inr(P(i), N2), EQ(F(P(i)), i), EQ(S_(P(i)), B(i))), side)
        c.facts.append(K.Fact([(dkey(n2), n2)], lambda i: (True, [(N2, P(i))]), side + " index"))
        c.forall([N2], lambda t: AND(rel(B(F(t)), S_(t)), IMP(EQ(S_(t), B(F(t))), EQ(C_(t), t))), side + " bound")
        nb = (lambda i: SUB(i, 1)) if end == "first" else (lambda i: ADD(i, 1))
        edge = lambda i: OR(EQ(i, 0 if end == "first" else SUB(N2, 1)), NE(F(nb(i)), F(i)))
        c.prove("{} nodes constrained to themselves (from the lemmas)".format(end), lambda t: IMP(edge(t), EQ(C_(t), t)), [N2], hint=lambda t: [(N2, norm(nb(t)))])


@unit("C12", "Mesh.init: the constraint label is the other end of the same connection", ["Mesh.init"])
def constraint(c, pkg):
    n, m, g, net, mesh, _ = build(c, pkg)
    N = mesh._n
    h = {q: V(mesh._cols[q]) for q in MESHCOLS}
    con = h["constraint"]
    E_ = ends(g)
    node = lambda t: [h[q](t) for q in ("fiber", "s", "x", "y", "z")]
    eq = lambda a, b: AND(*[EQ(x, y) for x, y in zip(a, b)])
    pair = lambda t, r: OR(AND(eq(node(t), E_(r, "A")), eq(node(con(t)), E_(r, "B"))), AND(eq(node(t), E_(r, "B")), eq(node(con(t)), E_(r, "A"))))
    c.prove("a node constrained to another one: the two ends of one connection", lambda t: OR(EQ(con(t), t), c.exists_bool([m], lambda r: pair(t, r), "row")), [N])
    c.prove("a constraint joins nodes of different fibres, or a node to itself", lambda t: OR(EQ(con(t), t), NE(h["fiber"](con(t)), h["fiber"](t))), [N])
    fib = h["fiber"]
    first = lambda i: OR(EQ(i, 0), NE(fib(SUB(i, 1)), fib(i)))
    last = lambda i: OR(EQ(ADD(i, 1), N), NE(fib(ADD(i, 1)), fib(i)))
    c.prove("only end nodes are constrained to themselves", lambda t: IMP(EQ(con(t), t), OR(first(t), last(t))), [N])
