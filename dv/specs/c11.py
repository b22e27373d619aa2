from .pipeline import *


def same_row(a, b, r, s):
    return AND(*[K.ident(a[q](r), b[q](s)) for q in NETCOLS])


for _t in (False, True):
    @unit("C11", "Stack.init ({}): the rows".format("with a threshold" if _t else "without threshold"), ["Stack.init", "Stack.__init__"])
    def init(c, pkg, t=_t):
        m, net = mat_net(c, pkg)
        made = stub_net_init(c, pkg)
        calls = stub_stack_solve(c, pkg, m)
        given = c.choice("network given")
        thr = c.real("threshold")
        kw = {"threshold": Sc(thr, "r")} if t else {}
        st = pkg.Stack.init(m, net, **kw) if given else pkg.Stack.init(m, **kw)
        need(calls, "Stack.solve")
        need(made, "Net.init")
        mat0, per, pairs, ref, cols = made[-1]
        c.prove("the network is rebuilt from the mat", mat0 is m and pairs is None)
        x, z = V(calls[-1][2].x), cols["z"]
        c.prove("... at the stacked heights", lambda a: EQ(z(a).t, x(a)), [m._n])
        P = net.attrs["periodic"] if given else True
        c.prove("... with the periodicity of the network given", attr_same(per, P))
        c.prove("the stack is a Stack", isinstance(st, pkg.Stack))
        c.prove("the periodicity of the stack is that of the network given", "periodic" in st.attrs and attr_same(st.attrs["periodic"], P))
        c.prove("the ten columns", [q for q in st._cols] == NETCOLS)
        a, b = {q: st._cols[q].getter() for q in NETCOLS}, {q: ref._cols[q].getter() for q in NETCOLS}
        M, N = st._n, ref._n
        lab = st.index._a.getter()
        c.prove("row labels without gaps", lambda r: EQ(lab(r).t, r), [M])
        ab = lambda r: K.absolute(K.sub(b["zB"](r), b["zA"](r))).t
        keep = lambda r: OR(EQ(b["A"](r).t, b["B"](r).t), LE(ab(r), thr)) if t else True
        c.prove("every row is a row of the network that is kept",
                lambda r: c.exists_bool([N], lambda s: AND(keep(s), same_row(a, b, r, s)), "source"), [M])
        c.prove("every kept row of the network is there",
                lambda s: IMP(keep(s), c.exists_bool([M], lambda r: same_row(a, b, r, s), "image")), [N])
        key = ("A", "B", "sA", "sB")
        c.prove("no row is there twice", lambda r, s: IMP(LT(r, s), NOT(AND(*[EQ(a[q](r).t, a[q](s).t) for q in key]))), [M, M])
