from .checks import *


def wf_rows(n, m, g):
    """the data conditions of a mesh: name -> (fn, dims)"""
    Z = K.toint
    fib, s, beam, con = [lambda i, q=q: g[q](i).t for q in ("fiber", "s", "beam", "constraint")]
    first = lambda i: OR(EQ(i, 0), NE(fib(SUB(i, 1)), fib(i)))
    last = lambda i: OR(EQ(ADD(i, 1), m), NE(fib(ADD(i, 1)), fib(i)))
    T = lambda f, *t: f
    return [("fibre labels in range", lambda i: AND(LE(0, fib(i)), LT(fib(i), n)), 1),
            ("beam labels in range", lambda i: AND(LE(0, beam(i)), LT(beam(i), m)), 1),
            ("constraint labels in range", lambda i: AND(LE(0, con(i)), LT(con(i), m)), 1),
            ("nodes ordered by fibre then abscissa", lambda i, j: IMP(LT(i, j), AND(LE(fib(i), fib(j)), IMP(EQ(fib(i), fib(j)), LE(s(i), s(j))))), 2),
            ("the beam is the next node of the fibre", lambda i: IMP(NOT(last(i)), EQ(beam(i), ADD(i, 1))), 1),
            ("the last beam closes on the first node", lambda i: IMP(last(i), AND(EQ(fib(beam(i)), fib(i)), first(beam(i)), LE(0, beam(i)), LE(beam(i), i))), 1),
            ("reciprocal constraints", lambda i: EQ(con(con(i)), i), 1),
            ("first nodes constrained to themselves", lambda i: IMP(first(i), EQ(con(i), i)), 1),
            ("last nodes constrained to themselves", lambda i: IMP(last(i), EQ(con(i), i)), 1)]


def run(c, pkg, check, name, ilab, flag):
    N = c.int("rows")
    c.assume(N >= 0)
    kind = {q: c.choice(q + "_is_integer") for q in ("fiber", "beam", "constraint")}
    cols = {}
    for q in MESHCOLS:
        if q in kind:
            cols[q] = icol(c, q, N) if kind[q] else rcol(c, q, N)
        else:
            cols[q] = rcol(c, q, N)
    pres = {q: c.bool("has_" + q) for q in MESHCOLS}
    n, S, sk = c.int("n"), c.real("size"), c.bool("skip_value")
    ap = {k: c.bool("has_attr_" + k) for k in ("n", "size", "periodic", "skip_check")}
    ap["skip_check"] = flag
    at = SymAttrs(ap, {"n": Sc(n, "i"), "size": Sc(S, "r"), "periodic": Sc(c.bool("periodic"), "b"), "skip_check": Sc(sk, "b")})
    idx = sym_labels(c, N, ilab)
    t = table(pkg.Mesh, cols, N, at, idx)
    t.__dict__["_pres"] = dict(pres)
    g = {q: a.getter() for q, a in cols.items()}
    lab = idx._a.getter()
    skip = AND(ap["skip_check"], sk)
    allc = AND(*pres.values())
    meta = AND(ap["n"], ap["size"], ap["periodic"])
    ordered = lambda i: K.eq(lab(i), Sc(i, "i")).t
    ints = all(kind.values())
    rows = wf_rows(n, N, g)
    accepted = [("the seven columns", allc), ("the metadata", meta), ("labels 0..m-1 in order", lambda: (ordered, [N])), ("integer labels", ints)]
    if ints:
        accepted += [(nm, (lambda f, d: lambda: (f, [N] * d))(f, d)) for nm, f, d in rows]
    defects = dict(
        KeyError=lambda: NOT(allc), AttributeError=lambda: NOT(meta), IndexError=lambda: NOT(c.forall_bool([N], ordered, "spec_labels")),
        TypeError=lambda: not ints,
        ValueError=lambda: OR(*[NOT(c.forall_bool([N] * d, f, "spec_" + nm.split()[0])) for nm, f, d in rows]))
    verdict(c, name, lambda: check(t), accepted, defects, skip)


for _ints in (True, False):
    for _flag in (True, False):
        def _f(c, pkg, i=_ints, f=_flag):
            run(c, pkg, pkg.Mesh.check, "Mesh.check", i, f)
        unit("C06", "Mesh.check on an arbitrary table ({} labels, flag {})".format("integer" if _ints else "any numeric", "present" if _flag else "absent"),
             ["Mesh.check"])(_f)

ctor_unit("C06", "Mesh", "Mesh")
