from .base import *


def shifts(S, k):
    """translations by whole box periods"""
    return [(MUL(a, S), MUL(b, S)) for a in range(-k, k + 1) for b in range(-k, k + 1)]


def run(c, pkg, periodic, pairs, part=None):
    n = c.int("n")
    c.assume(n >= 1)
    S = c.real("size")
    c.assume(S > 0)
    m = sym_mat(c, pkg, "mat", n, S)
    g = m.__dict__["_spec"]["g"]
    c.state["valid"] = [m]
    stub_checks(c, pkg, m)
    kw = {}
    if pairs:
        k = c.int("n_pairs")
        c.assume(k >= 0)
        f = c.leaf("pairs", [k, 2], I)
        c.forall([k], lambda r: AND(inr(f(K.toint(r), z3.IntVal(0)), n), inr(f(K.toint(r), z3.IntVal(1)), n)), "pairs of fibres")
        kw["pairs"] = Arr((k, 2), "i", lambda ix: Sc(f(K.toint(ix[0]), K.toint(ix[1])), "i"))
    net = pkg.Net.init(m, periodic=periodic, **kw)
    h = {q: V(net._cols[q]) for q in NETCOLS}
    N = net._n
    c.prove("both nodes belong to fibres of the mat", lambda r: AND(inr(h["A"](r), n), inr(h["B"](r), n)), [N])
    for q in {None: "AB", "first": "A", "second": "B", "perp": ""}[part]:
        for x, u in (("x", "u"), ("y", "v"), ("z", "w")):
            c.prove("{}{} is the centre plus the abscissa times the direction".format(x, q),
                    lambda r: EQ(h[x + q](r), ADD(g[x](h[q](r)), MUL(h["s" + q](r), g[u](h[q](r))))), [N])
        ab = lambda r: K.absolute(Sc(h["s" + q](r), "r")).t
        half = lambda r: MUL(Fraction(1, 2), g["l"](h[q](r)))
        c.prove("s{} at most half the length on end rows".format(q), lambda r: IMP(EQ(h["A"](r), h["B"](r)), LE(ab(r), half(r))), [N], poly=True)
        c.prove("s{} strictly inside when two different fibres are joined".format(q), lambda r: OR(EQ(h["A"](r), h["B"](r)), LT(ab(r), half(r))), [N], poly=True)
    if part in ("first", "second"):
        return
    sh = shifts(S, 2) if periodic else [(0, 0)]

    def perp(r):
        A_, B_ = h["A"](r), h["B"](r)
        out = []
        for sx, sy in sh:
            d = [ADD(SUB(ADD(g[x](B_), MUL(h["sB"](r), g[u](B_))), ADD(g[x](A_), MUL(h["sA"](r), g[u](A_)))), s)
                 for x, u, s in (("x", "u", sx), ("y", "v", sy), ("z", "w", 0))]
            out.append(AND(*[EQ(ADD(ADD(MUL(d[0], g["u"](q)), MUL(d[1], g["v"](q))), MUL(d[2], g["w"](q))), 0) for q in (A_, B_)]))
        return OR(EQ(A_, B_), *out)
    c.prove("the joining segment is perpendicular to both fibres", perp, [N], poly=True)


for _p in (False, True):
    for _q in (False, True):
        for _t in ("first", "second", "perp") if _p and not _q else (None,):
            def _f(c, pkg, p=_p, q=_q, t=_t):
                run(c, pkg, p, q, t)
            unit("C07", "Net.init, {}, {}{}".format("periodic" if _p else "not periodic", "explicit pairs" if _q else "all pairs",
                                                    {None: "", "first": ": first fibre", "second": ": second fibre", "perp": ": the joining segment"}[_t]), ["Net.init"])(_f)
