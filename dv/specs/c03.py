from .base import *
from .c01 import args
from ..snp import U01


def same(c, name, a, b, n, cols):
    for q in cols:
        g, h = a._cols[q].getter(), b._cols[q].getter()
        c.prove("{}: column {}".format(name, q), lambda i: K.ident(g(i), h(i)), [n])


@unit("C03", "Mat.init twice with other random numbers in between", ["Mat.init"], mods=("mat",))
def twice(c, pkg):
    n, kw = args(c, spread=False)
    c.state["rng"] = [c.int("generator_state_before"), c.int("position_before")]
    a = pkg.Mat.init(**kw)
    c.state["rng"] = [c.int("generator_state_between"), c.int("position_between")]
    b = pkg.Mat.init(**kw)
    c.prove("same number of rows", EQ(a._n, b._n))
    same(c, "identical tables", a, b, n, MATCOLS)
    prove_attrs(c, "identical metadata", a.attrs, b.attrs)


@unit("C03", "positions independent of the other arguments", ["Mat.init"], mods=("mat",))
def independent(c, pkg):
    n, kw = args(c, spread=False)
    a = pkg.Mat.init(**kw)
    n2, kw2 = args(c, spread=False)
    kw2.update(n=kw["n"], size=kw["size"], seed=kw["seed"])
    b = pkg.Mat.init(**kw2)
    same(c, "positions independent of dimensions, moduli and spreads", a, b, n, "xyz")


def draws(t):
    out, st, seen = [], [t], set()
    while st:
        e = st.pop()
        if not isz(e) or e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().eq(U01):
            out.append(e)
        st.extend(e.children())
    return out


@unit("C03", "attributes use different random numbers", ["Mat.init"], mods=("mat",))
def disjoint(c, pkg):
    n, kw = args(c, spread=False)
    m = pkg.Mat.init(**kw)
    groups = dict(x="x", y="y", z="z", direction="uv", elevation="w")
    i, j = c.int("i"), c.int("j")
    c.assume(AND(inr(i, n), inr(j, n)))
    c.touch(n, i)
    c.touch(n, j)
    el = {k: draws(m._cols["w" if k == "elevation" else cols[0]].at(i if True else j).t) for k, cols in groups.items()}
    el["direction"] = draws(m._cols["v"].at(i).t)
    wd = {str(e) for e in el["elevation"]}
    el["direction"] = [e for e in el["direction"] if str(e) not in wd]
    el2 = {k: [z3.substitute(e, (i, j)) for e in v] for k, v in el.items()}
    names = list(groups)
    for a in range(5):
        c.prove("{} is random".format(names[a]), len(el[names[a]]) > 0)
        for b in range(a):
            for e in el[names[a]]:
                for f in el2[names[b]]:
                    c.prove("{} and {} share no random number".format(names[a], names[b]),
                            NOT(AND(EQ(e.arg(0), f.arg(0)), EQ(ADD(e.arg(1), e.arg(2)), ADD(f.arg(1), f.arg(2))))))
