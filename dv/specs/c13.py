from .pipeline import *
from .c12 import ends


def build(c, pkg, extra=None):
    net = sym_net(c, pkg)
    c.assume(net._n >= 1)
    g = net.__dict__["_spec"]["g"]
    m = net._n
    E_ = ends(g)
    if extra:
        extra(c, g, m, E_)
    stub_checks(c, pkg, net)
    mesh = pkg.Mesh.init(net)
    N = mesh._n
    h = {q: V(mesh._cols[q]) for q in MESHCOLS}
    return net, mesh, m, N, h, E_


node = lambda h: lambda t: [h[q](t) for q in ("fiber", "s", "x", "y", "z")]
eq = lambda a, b: AND(*[EQ(x, y) for x, y in zip(a, b)])


@unit("C13", "Mesh.init: two nodes per row, with the content of its ends", ["Mesh.init"])
def nodes(c, pkg):
    net, mesh, m, N, h, E_ = build(c, pkg)
    nd = node(h)
    c.prove("two nodes per row", EQ(N, MUL(2, m)))
    c.prove("every node is an end of a row", lambda t: c.exists_bool([m], lambda r: OR(eq(nd(t), E_(r, "A")), eq(nd(t), E_(r, "B"))), "row"), [N])
    for q in "AB":
        c.prove("end {} of every row is a node".format(q), lambda r: c.exists_bool([N], lambda t: eq(nd(t), E_(r, q)), "node"), [m],
                hint=lambda r: [(N, norm(ADD(MUL(2, r), "AB".index(q))))], chain=4)


@unit("C13", "Mesh.init: each end appears once, beams stay on a fibre", ["Mesh.init"])
def once(c, pkg):
    def distinct(c, g, m, E_):
        c.forall([m, m], lambda r, s: AND(IMP(NE(r, s), AND(NOT(eq(E_(r, "A"), E_(s, "A"))), NOT(eq(E_(r, "B"), E_(s, "B"))), NOT(eq(E_(r, "A"), E_(s, "B"))))),
                                          NOT(eq(E_(r, "A"), E_(r, "B")))), "all ends differ")
    net, mesh, m, N, h, E_ = build(c, pkg, distinct)
    nd = node(h)
    c.prove("no end appears twice (ends told apart by their content)", lambda t, u: IMP(LT(t, u), NOT(eq(nd(t), nd(u)))), [N, N])
    c.prove("beam labels are nodes", lambda t: inr(h["beam"](t), N), [N])
    c.prove("no beam joins two fibres", lambda t: EQ(h["fiber"](h["beam"](t)), h["fiber"](t)), [N])
