from .base import *
from .c07 import shifts
from ..walk import Walk


def setup(c, pkg, periodic):
    n = c.int("n")
    c.assume(n >= 1)
    S = c.real("size")
    c.assume(S > 0)
    m = sym_mat(c, pkg, "mat", n, S)
    g = m.__dict__["_spec"]["g"]
    c.state["valid"] = [m]
    stub_checks(c, pkg, m)
    net = pkg.Net.init(m, periodic=periodic)
    h = {q: V(net._cols[q]) for q in NETCOLS}
    return n, S, g, net, h, net._n


def rows(c, pkg, periodic):
    n, S, g, net, h, N = setup(c, pkg, periodic)
    A_, B_ = h["A"], h["B"]
    c.prove("the first label is never above the second", lambda r: LE(A_(r), B_(r)), [N])
    c.prove("rows sorted by first then second label, no pair joined twice",
            lambda r, s: IMP(LT(r, s), OR(LT(A_(r), A_(s)), AND(EQ(A_(r), A_(s)), LT(B_(r), B_(s))))), [N, N])
    c.prove("the row of a fibre with itself holds its two end points", lambda r: IMP(EQ(A_(r), B_(r)), AND(
        EQ(h["sA"](r), MUL(Fraction(1, 2), g["l"](A_(r)))), EQ(h["sB"](r), MUL(Fraction(-1, 2), g["l"](A_(r)))))), [N], poly=True)


def loop(c, pkg, periodic):
    n, S, g, net, h, N = setup(c, pkg, periodic)
    i = c.int("i")
    c.assume(inr(i, n))
    w = Walk(c, [inr(i, n), LT(0, g["l"](i))], [(n, i)], depth=10, seconds=200)
    w.same = True
    witness(c, w, "every fibre is joined to itself", N, lambda r: AND(EQ(h["A"](r), i), EQ(h["B"](r), i)))


def witness(c, w, name, N, joined):
    """a row of the network with this property is met while chaining forward"""
    found = []

    def goal(w):
        for t, _ in list(w.terms.get(c.find(dkey(N)), {}).values()):
            if w.proved(AND(inr(t, N), joined(t)), quick=True):
                found.append(t)
                return True
        return False
    w.goal = goal
    w.run().commit()
    if found:
        c.prove(name, AND(inr(found[0], N), joined(found[0])))
    else:
        c.prove(name, c.exists_bool([N], joined, "row"), chain=3)      # not met: at most unknown


def sound(c, pkg, periodic):
    n, S, g, net, h, N = setup(c, pkg, periodic)
    sh = shifts(S, 2) if periodic else [(0, 0)]

    def why(r):
        A_, B_ = h["A"](r), h["B"](r)
        out = []
        dot = lambda a, b: ADD(ADD(MUL(a[0], b[0]), MUL(a[1], b[1])), MUL(a[2], b[2]))
        u, v = [g[q](A_) for q in "uvw"], [g[q](B_) for q in "uvw"]
        det = SUB(MUL(dot(u, u), dot(v, v)), MUL(dot(u, v), dot(u, v)))
        for sx, sy in sh:
            e = [ADD(SUB(g[x](B_), g[x](A_)), s) for x, s in (("x", sx), ("y", sy), ("z", 0))]
            d = [ADD(x, SUB(MUL(h["sB"](r), p), MUL(h["sA"](r), q))) for x, p, q in zip(e, v, u)]
            out.append(AND(EQ(dot(d, u), 0), EQ(dot(d, v), 0),
                           LT(SQRT(ADD(MUL(e[0], e[0]), MUL(e[1], e[1]))), MUL(Fraction(1, 2), ADD(g["l"](A_), g["l"](B_))))))
        return OR(EQ(A_, B_), AND(NE(det, 0), OR(*out)))
    c.prove("two joined fibres are not parallel, close and at mutual nearest points for one and the same translation", why, [N], poly=True)


MOVES = [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1)]      # the others: exchange the fibres


def complete(c, pkg, periodic, move=(0, 0)):
    """two crossing fibres i and j (the second translated) share a row"""
    n, S, g, net, h, N = setup(c, pkg, periodic)
    i, j = c.int("i"), c.int("j")
    a, b = c.real("abscissa_i"), c.real("abscissa_j")
    s = [MUL(k, S) if k else 0 for k in move] + [0]
    dot = lambda p, q: ADD(ADD(MUL(p[0], q[0]), MUL(p[1], q[1])), MUL(p[2], q[2]))
    u, v = [g[q](i) for q in "uvw"], [g[q](j) for q in "uvw"]
    e = [ADD(SUB(g[x](j), g[x](i)), t) for x, t in zip("xyz", s)]
    uu, uv, vv, ue, ve = dot(u, u), dot(u, v), dot(v, v), dot(u, e), dot(v, e)
    det = SUB(MUL(uu, vv), MUL(uv, uv))
    half = lambda k: MUL(Fraction(1, 2), g["l"](k))
    within = lambda t, k: AND(LT(NEG(half(k)), t), LT(t, half(k)))
    # nearest points: the segment that joins them is orthogonal to both fibres
    hyps = [inr(i, n), inr(j, n), LT(i, j) if move == (0, 0) else NE(i, j), NE(det, 0), within(a, i), within(b, j),
            EQ(ue, SUB(MUL(uu, a), MUL(uv, b))), EQ(ve, SUB(MUL(uv, a), MUL(vv, b))),
            LT(SQRT(ADD(MUL(e[0], e[0]), MUL(e[1], e[1]))), ADD(half(i), half(j)))]
    for q in hyps:
        c.assume(q)
    near = SQRT(ADD(MUL(e[0], e[0]), MUL(e[1], e[1])))
    x, y, z = (z3.Real("norm_%d" % k) for k in range(3))
    if c.query([z >= 0, z * z == x * x + y * y, z3.Or(x > z, -x > z, y > z, -y > z)], 3000, True)[0] == "unsat":
        hyps += [LE(q, near) for q in (e[0], NEG(e[0]), e[1], NEG(e[1]))]
    w = Walk(c, hyps, [(n, i), (n, j)], depth=11 if periodic else 8, seconds=200)
    sys = dict(i=(uu, uv, vv, ue, ve), x=(a, NEG(b)))
    orient = [((uu, uv, vv, ue, ve), (a, NEG(b))), ((vv, uv, uu, NEG(ve), NEG(ue)), (b, NEG(a)))]
    w.hook = lambda w, gen: nearest(w, c, orient, gen)
    witness(c, w, "two crossing fibres are joined", N,
            lambda r: OR(AND(EQ(h["A"](r), i), EQ(h["B"](r), j)), AND(EQ(h["A"](r), j), EQ(h["B"](r), i))))


def nearest(w, c, orient, gen):
    """a regular 2x2 system has one solution"""
    m = [z3.Real("one_solution_%d" % k) for k in range(9)]
    sol = lambda y: AND(EQ(ADD(MUL(m[0], y[0]), MUL(m[1], y[1])), m[3]), EQ(ADD(MUL(m[1], y[0]), MUL(m[2], y[1])), m[4]))
    if c.query([sol(m[5:7]), sol(m[7:9]), NE(SUB(MUL(m[0], m[2]), MUL(m[1], m[1])), 0), NOT(AND(EQ(m[5], m[7]), EQ(m[6], m[8])))], 3000, True)[0] != "unsat":
        return
    for X, Y in solutions(w.known, w):
        if X.get_id() in w.failed:
            continue
        for (p, q, r, s, t), val in orient:
            eqs = AND(EQ(ADD(MUL(p, X), MUL(q, Y)), s), EQ(ADD(MUL(q, X), MUL(r, Y)), t))
            if w.proved(eqs):
                w.replace(X, val[0], gen)
                w.replace(Y, val[1], gen)
                break
        else:
            w.failed.add(X.get_id())
            c.alive.append(X)


def solutions(forms, w):
    """pairs of unknowns of the 2x2 systems met"""
    out, seen, st = {}, set(), list(forms)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name().startswith("solution") and e.num_args() >= 2:
            k = str(e.arg(e.num_args() - 2))
            out.setdefault((e.decl().get_id(),) + tuple(q.get_id() for q in e.children()[:-2]) + (str(e.children()[-1]),), {})[k] = e
        st.extend(e.children())
    done = {q[0].get_id() for q in w.rules}
    return [(d["0"], d["1"]) for d in out.values() if len(d) == 2 and d["0"].get_id() not in done]


for _p in (False, True):
    def _f(c, pkg, p=_p):
        rows(c, pkg, p)
    unit("C08", "Net.init, {}: rows".format("periodic" if _p else "not periodic"), ["Net.init"])(_f)

    def _h(c, pkg, p=_p):
        loop(c, pkg, p)
    unit("C08", "Net.init, {}: every fibre has its own row".format("periodic" if _p else "not periodic"), ["Net.init"])(_h)

    def _g(c, pkg, p=_p):
        sound(c, pkg, p)
    unit("C08", "Net.init, {}: joined only when crossing".format("periodic" if _p else "not periodic"), ["Net.init"])(_g)

unit("C08", "Net.init, not periodic: crossing fibres are joined", ["Net.init"])(lambda c, pkg: complete(c, pkg, False))
for _m in MOVES:
    unit("C08", "Net.init, periodic: fibres crossing across ({}, {}) are joined".format(*_m), ["Net.init"])(lambda c, pkg, m=_m: complete(c, pkg, True, m))
