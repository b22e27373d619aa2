from .checks import *


def run(c, pkg, cls, check, name, ilab, flag):
    N = c.int("rows")
    c.assume(N >= 0)
    inta, intb = c.choice("A_is_integer"), c.choice("B_is_integer")
    cols = {"A": icol(c, "A", N) if inta else xcol(c, "A", N, nan=True), "B": icol(c, "B", N) if intb else xcol(c, "B", N, nan=True)}
    for q in NETCOLS[2:]:
        cols[q] = xcol(c, q, N, nan=True) if q in ("sA", "sB") else rcol(c, q, N)
    pres = {q: c.bool("has_" + q) for q in NETCOLS}
    n, S, sk = c.int("n"), c.real("size"), c.bool("skip_value")
    ap = {k: c.bool("has_attr_" + k) for k in ("n", "size", "periodic", "skip_check")}
    ap["skip_check"] = flag
    at = SymAttrs(ap, {"n": Sc(n, "i"), "size": Sc(S, "r"), "periodic": Sc(c.bool("periodic"), "b"), "skip_check": Sc(sk, "b")})
    idx = sym_labels(c, N, ilab)
    t = table(cls, cols, N, at, idx)
    t.__dict__["_pres"] = dict(pres)
    g = {q: a.getter() for q, a in cols.items()}
    lab = idx._a.getter()
    skip = AND(ap["skip_check"], sk)
    allc = AND(*pres.values())
    meta = AND(ap["n"], ap["size"], ap["periodic"])
    ordered = lambda i: K.eq(lab(i), Sc(i, "i")).t
    inrange = lambda i: AND(*[AND(K.le(Sc(0, "i"), g[q](i)).t, K.lt(g[q](i), Sc(n, "i")).t) for q in "AB"])
    pair = lambda i: K.le(g["A"](i), g["B"](i)).t
    distinct = lambda i, j: IMP(LT(i, j), NOT(AND(*[K.ident(g[q](i), g[q](j)) for q in ("A", "B", "sA", "sB")])))
    ints = inta and intb
    accepted = [("the ten columns", allc), ("the metadata", meta), ("labels 0..m-1 in order", lambda: (ordered, [N])), ("integer fibre labels", ints),
                ("fibre labels in range", lambda: (inrange, [N])), ("no repeated row", lambda: (distinct, [N, N])), ("the first not above the second", lambda: (pair, [N]))]
    defects = dict(
        KeyError=lambda: NOT(allc), AttributeError=lambda: NOT(meta), IndexError=lambda: NOT(c.forall_bool([N], ordered, "spec_labels")),
        TypeError=lambda: not ints,
        ValueError=lambda: OR(NOT(c.forall_bool([N], inrange, "spec_range")), NOT(c.forall_bool([N, N], distinct, "spec_distinct")),
                              NOT(c.forall_bool([N], pair, "spec_pair"))))
    verdict(c, name, lambda: check(t), accepted, defects, skip)


for _ints in (True, False):
    for _flag in (True, False):
        def _f(c, pkg, i=_ints, f=_flag):
            run(c, pkg, pkg.Net, pkg.Net.check, "Net.check", i, f)
        unit("C05", "Net.check on an arbitrary table ({} labels, flag {})".format("integer" if _ints else "any numeric", "present" if _flag else "absent"),
             ["Net.check"])(_f)


@unit("C05", "Stack.check is Net.check", ["Stack.check"])
def stack(c, pkg):
    n = c.int("rows")
    c.assume(n >= 0)
    t = table(pkg.Stack, {q: rcol(c, q, n) for q in NETCOLS}, n, {})
    calls = []
    r = c.bool("verdict")
    bad = c.choice("refused")

    def check(self=None):
        calls.append(self)
        if bad:
            K.lib_raise(ValueError("refused"))
        return Sc(r, "b")
    pkg.Net.check = check
    try:
        v = pkg.Stack.check(t)
    except ValueError as e:
        if not getattr(e, "_lib", False):
            raise
        c.prove("a refusal is passed on", bad)
        return
    if not calls:
        raise K.Unsupported("Stack.check does not call Net.check")
    c.prove("a refused table is not accepted", not bad)
    c.prove("the table itself is checked", calls[-1] is t)
    c.prove("accepts only what Net.check accepts", IMP(K.cast(lift(v), "b").t, r))
    c.prove("accepts what Net.check accepts", IMP(r, K.cast(lift(v), "b").t))


ctor_unit("C05", "Net", "Net")
ctor_unit("C05", "Stack", "Stack", ("Net",))
