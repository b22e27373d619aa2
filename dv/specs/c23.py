from .pipeline import *


def attempt(c, what, f):
    """runs f; an exception of the code is a failed obligation"""
    try:
        return f()
    except (K.Unsupported, K.PathEnd, K.Budget):
        raise
    except Exception as e:
        if not loader.is_program_exception(e):
            raise
        c.prove("{} does not fail".format(what), False)
        return None


D0 = dict(n=0, size=Sc(50, "r"))
D1 = dict(n=0, size=Sc(50, "r"), periodic=True)


def empty(c, pkg, what, f, cols, attrs, cls):
    t = attempt(c, what, f)
    if t is None:
        return
    c.prove("{}: no rows".format(what), EQ(t._n, 0))
    c.prove("{}: the documented columns".format(what), list(t._cols) == cols)
    if ".init" not in what:
        c.prove("{}: is a {}".format(what, cls), isinstance(t, getattr(pkg, cls)))
    prove_attrs(c, what, t.attrs, attrs)


@unit("C23", "empty mats", ["Mat.__init__", "Mat.init", "Mat.check"], canary=False)
def mats(c, pkg):
    for what, f in (("Mat()", lambda: pkg.Mat()), ("Mat(0)", lambda: pkg.Mat(0)), ("Mat(n=0)", lambda: pkg.Mat(n=0)), ("Mat.init()", lambda: pkg.Mat.init()),
                    ("Mat(Mat())", lambda: pkg.Mat(pkg.Mat()))):
        empty(c, pkg, what, f, MATCOLS, D0, "Mat")
    c.prove("Mat.check of nothing accepts", bool(attempt(c, "Mat.check", lambda: pkg.Mat.check(None))))
    c.prove("Mat.check of the empty mat accepts", bool(attempt(c, "Mat.check", lambda: pkg.Mat.check(pkg.Mat()))))


@unit("C23", "empty networks", ["Net.__init__", "Net.init", "Net.check"], canary=False)
def nets(c, pkg):
    for what, f in (("Net()", lambda: pkg.Net()), ("Net(None)", lambda: pkg.Net(None)), ("Net(Mat())", lambda: pkg.Net(pkg.Mat())), ("Net.init()", lambda: pkg.Net.init()),
                    ("Net(Net())", lambda: pkg.Net(pkg.Net()))):
        empty(c, pkg, what, f, NETCOLS, D1, "Net")
    empty(c, pkg, "Net(Mat(), periodic=False)", lambda: pkg.Net(pkg.Mat(), periodic=False), NETCOLS, dict(D1, periodic=False), "Net")
    c.prove("Net.check of nothing accepts", bool(attempt(c, "Net.check", lambda: pkg.Net.check(None))))
    c.prove("Net.check of the empty network accepts", bool(attempt(c, "Net.check", lambda: pkg.Net.check(pkg.Net()))))


@unit("C23", "empty stacks", ["Stack.__init__", "Stack.init", "Stack.solve", "Stack.constraint", "Stack.check"], canary=False)
def stacks(c, pkg):
    for what, f in (("Stack()", lambda: pkg.Stack()), ("Stack(None)", lambda: pkg.Stack(None)), ("Stack(Mat())", lambda: pkg.Stack(pkg.Mat())), ("Stack(None, None)", lambda: pkg.Stack(None, None)),
                    ("Stack(None, Net())", lambda: pkg.Stack(None, pkg.Net())), ("Stack(Mat(), Net())", lambda: pkg.Stack(pkg.Mat(), pkg.Net())),
                    ("Stack(Mat(), Net(), threshold=1)", lambda: pkg.Stack(pkg.Mat(), pkg.Net(), threshold=1.)), ("Stack(Stack())", lambda: pkg.Stack(pkg.Stack()))):
        empty(c, pkg, what, f, NETCOLS, D1, "Stack")
    c.prove("Stack.check of nothing accepts", bool(attempt(c, "Stack.check", lambda: pkg.Stack.check(None))))


@unit("C23", "empty meshes", ["Mesh.__init__", "Mesh.init", "Mesh.check"], canary=False)
def meshes(c, pkg):
    for what, f in (("Mesh()", lambda: pkg.Mesh()), ("Mesh(None)", lambda: pkg.Mesh(None)), ("Mesh(Net())", lambda: pkg.Mesh(pkg.Net())), ("Mesh(Stack())", lambda: pkg.Mesh(pkg.Stack())),
                    ("Mesh(Mesh())", lambda: pkg.Mesh(pkg.Mesh()))):
        empty(c, pkg, what, f, MESHCOLS, D1, "Mesh")
    c.prove("Mesh.check of nothing accepts", bool(attempt(c, "Mesh.check", lambda: pkg.Mesh.check(None))))
    c.prove("Mesh.check of the empty mesh accepts", bool(attempt(c, "Mesh.check", lambda: pkg.Mesh.check(pkg.Mesh()))))


def want(m, P):
    return dict(n=Sc(m._n, "i") if isz(m._n) else m._n, size=m.attrs["size"], periodic=P)


for _P in (True, False, None):
    @unit("C23", "the network keeps the metadata of the mat ({})".format({True: "periodic", False: "not periodic", None: "default"}[_P]), ["Net.init", "Net.__init__"])
    def net(c, pkg, P=_P):
        n = c.int("n")
        c.assume(n >= 1)
        S = c.real("size")
        c.assume(S > 0)
        m = sym_mat(c, pkg, "mat", n, S)
        stub_checks(c, pkg, m)
        pkg.Net.check = lambda self=None: True
        kw = {} if P is None else dict(periodic=P)
        t = pkg.Net(m, **kw) if c.choice("by the constructor") else pkg.Net.init(m, **kw)
        prove_attrs(c, "network", t.attrs, want(m, True if P is None else P))
        prove_attrs(c, "mat", m.attrs, dict(n=Sc(n, "i"), size=Sc(S, "r")))


@unit("C23", "the stack keeps the metadata of the mat and the periodicity of the network", ["Stack.init", "Stack.__init__"])
def stack(c, pkg):
    m, net = mat_net(c, pkg)
    made = stub_net_init(c, pkg)
    calls = stub_stack_solve(c, pkg, m)
    given = c.choice("network given")
    kw = {"threshold": Sc(c.real("threshold"), "r")} if c.choice("with a threshold") else {}
    args = (m, net) if given else (m,)
    P = net.attrs["periodic"] if given else True
    st = pkg.Stack(*args, **kw) if c.choice("by the constructor") else pkg.Stack.init(*args, **kw)
    need(made, "Net.init")
    prove_attrs(c, "stack", st.attrs, want(m, P))
    prove_attrs(c, "mat", m.attrs, dict(n=Sc(m._n, "i"), size=m.attrs["size"]))
    prove_attrs(c, "network given", net.attrs, want(m, net.attrs["periodic"]))


for _cls in ("Net", "Stack"):
    @unit("C23", "the mesh keeps the metadata of the {}".format({"Net": "network", "Stack": "stack"}[_cls]), ["Mesh.init", "Mesh.__init__"])
    def mesh(c, pkg, cls=_cls):
        net = sym_net(c, pkg, cls=getattr(pkg, cls))
        c.assume(net._n >= 1)
        stub_checks(c, pkg, net)
        pkg.Mesh.check = lambda self=None: True
        before = dict(net.attrs)
        t = pkg.Mesh(net) if c.choice("by the constructor") else pkg.Mesh.init(net)
        prove_attrs(c, "mesh", t.attrs, before)
        prove_attrs(c, "network", net.attrs, before)


@unit("C23", "the mat holds the count and the box size asked for", ["Mat.init"])
def mat(c, pkg):
    n, S = c.int("n"), c.real("size")
    c.assume(AND(n >= 1, S > 0))
    pkg.Mat.check = lambda self=None: True
    length = c.real("length")
    c.assume(length > 0)
    m = pkg.Mat.init(Sc(n, "i"), length=Sc(length, "r"), size=Sc(S, "r"))
    prove_attrs(c, "mat", m.attrs, dict(n=Sc(n, "i"), size=Sc(S, "r")))
    c.prove("as many rows as the count", EQ(m._n, n))
