"""C20: vtk_fiber and vtk_mat under contract."""
import inspect

from .pipeline import *
from .. import spv

spv.make()
RENDER = ("mat", "net", "mesh", "model", "interpolation", "solver", "render")


def render(pkg):
    m = pkg.mods.get("fibermat.render")
    if m is None:
        raise K.Unsupported("render.py is not part of the package")
    return m


ONE = lambda v: Sc(v, "r")


def dot(a, b):
    return ADD(ADD(MUL(a[0], b[0]), MUL(a[1], b[1])), MUL(a[2], b[2]))


def cross(a, b):
    return [SUB(MUL(a[(k + 1) % 3], b[(k + 2) % 3]), MUL(a[(k + 2) % 3], b[(k + 1) % 3])) for k in range(3)]


def lagrange(a, b, e):
    """the product of orthonormal vectors is a unit vector"""
    return IMP(AND(EQ(dot(a, a), 1), EQ(dot(b, b), 1), EQ(dot(a, b), 0), *[EQ(x, y) for x, y in zip(e, cross(a, b))]), EQ(dot(e, e), 1))


def unit_axis(a, d, s):
    """a vector divided by its length is a unit vector"""
    return IMP(AND(EQ(MUL(s, s), dot(d, d)), OR(*[NE(x, 0) for x in d]), *[EQ(MUL(x, s), y) for x, y in zip(a, d)]), EQ(dot(a, a), 1))


@unit("C20", "lemma on orthonormal frames", [], mods=RENDER, canary=False)
def lemma(c, pkg):
    va, vb, ve = ([c.real("v") for _ in range(3)] for _ in range(3))
    c.prove("the product of orthonormal vectors is a unit vector", lagrange(va, vb, ve), poly=True)


@unit("C20", "lemma on unit vectors", [], mods=RENDER, canary=False)
def lemma_unit(c, pkg):
    va, vb = ([c.real("v") for _ in range(3)] for _ in range(2))
    s = c.real("s")
    c.prove("a vector divided by its length is a unit vector", unit_axis(va, vb, s), poly=True)


@unit("C20", "one fibre", ["vtk_fiber"], mods=RENDER)
def fibre(c, pkg):
    one_fibre(c, pkg, False)


@unit("C20", "one fibre with resolutions", ["vtk_fiber"], mods=RENDER)
def fibre_res(c, pkg):
    one_fibre(c, pkg, True)


def one_fibre(c, pkg, given):
    m = render(pkg)
    par = {q: c.real(q) for q in ("l", "b", "h", "x", "y", "z", "u", "v", "w", "shear")}
    c.assume(AND(*[LT(0, par[q]) for q in "lbh"], OR(*[NE(par[q], 0) for q in "uvw"])))
    E = Sc(c.real("tensile"), "r", (False, c.bool("tensile_inf"), False))
    i = c.int("label")
    r, th, zz = c.int("r_resolution"), c.int("theta_resolution"), c.int("z_resolution")
    c.assume(AND(LE(1, r), LE(r, 10 ** 6), LE(1, th), LE(2, zz)))
    c.state["linspace_exact"] = True
    kw = dict(r_resolution=Sc(r, "i"), theta_resolution=Sc(th, "i"), z_resolution=Sc(zz, "i")) if given else {}
    P = {q: ONE(par[q]) for q in par}
    msh = m.vtk_fiber(P["l"], P["b"], P["h"], P["x"], P["y"], P["z"], P["u"], P["v"], P["w"], P["shear"], E, index=Sc(i, "i"), **kw)
    cyl = need(c.state.get("cylinders"), "CylinderStructured")
    cyl = c.state["cylinders"][0]
    if not isinstance(msh, spv.SMesh) or len(c.state["cylinders"]) != 1:
        raise K.Unsupported("the mesh does not come from one cylinder")
    sig = inspect.signature(m.vtk_fiber).parameters
    want = (r, th, zz) if given else tuple(sig[q].default for q in ("r_resolution", "theta_resolution", "z_resolution"))
    c.prove("the cylinder is filled from the axis to its surface", AND(EQ(cyl["nr"], ADD(want[0], 1)), LT(cyl["radius"](0).t, Fraction(1, 10 ** 6)), EQ(cyl["radius"](norm(SUB(cyl["nr"], 1))).t, Fraction(1, 2))))
    c.prove("the resolutions are honoured", AND(EQ(lift(cyl["theta"]).t, want[1]), EQ(lift(cyl["z"]).t, want[2])))
    n = cyl["n"]
    c.prove("one point per point of the cylinder", EQ(msh._n, n))
    c.prove("the fields of a fibre", set(msh.data) >= {"fiber", "lbh", "xyz", "uvw", "G", "E"})
    if not set(msh.data) >= {"fiber", "lbh", "xyz", "uvw", "G", "E"}:
        return
    d = {k: a.getter() for k, a in msh.data.items()}
    for nm, v in (("fiber", Sc(i, "i")), ("G", P["shear"]), ("E", E)):
        c.prove("every point carries " + nm, msh.data[nm].ndim == 1)
        if msh.data[nm].ndim == 1:
            c.prove("every point carries {} of the fibre".format(nm), lambda p: K.ident(K.num(d[nm](p)), K.num(v)), [n])
    for nm, q in (("lbh", "lbh"), ("uvw", "uvw")):
        for k in range(3):
            c.prove("every point carries {} of the fibre".format(q[k]), lambda p: EQ(d[nm](p, k).t, par[q[k]]), [n])
    xyz = lambda p, k: d["xyz"](p, k).t
    for k, q in enumerate("lbh"):
        half = DIV(par[q], 2)
        c.prove("local coordinates within half of " + q, lambda p: AND(LE(NEG(half), xyz(p, k)), LE(xyz(p, k), half)), [n])
    for s, nm in ((-1, "first"), (1, "second")):
        c.prove("the {} end is reached".format(nm), c.exists_bool([n], lambda p: EQ(xyz(p, 0), MUL(s, DIV(par["l"], 2))), "end"))
    # the frame: images of the unit vectors
    pg = msh.points.getter()
    cx = [par[q] for q in "xyz"]
    p0 = c.int("pt")
    base = [cyl["p"][q](p0) for q in range(3)]

    def image(k, v):
        t = pg(p0, k).t
        if not isz(t):
            return t
        return z3.simplify(z3.substitute(t, *[(b, z3.RealVal(w)) for b, w in zip(base, v)]))
    dims = [par[q] for q in "lbh"]
    M = [[c.real("frame_{}{}".format(a, k)) for k in range(3)] for a in range(3)]
    unit_ = [[1 if a == b else 0 for b in range(3)] for a in range(3)]
    for a in range(3):
        for k in range(3):
            c.assume(EQ(MUL(M[a][k], dims[a]), SUB(image(k, unit_[a]), cx[k])))
    for k in range(3):
        c.prove("points are the centre plus the local coordinates in the frame: " + "xyz"[k],
                lambda p: EQ(pg(p, k).t, ADD(cx[k], ADD(ADD(MUL(xyz(p, 0), M[0][k]), MUL(xyz(p, 1), M[1][k])), MUL(xyz(p, 2), M[2][k])))), [n], poly=True)
    s = SQRT(ADD(ADD(MUL(par["u"], par["u"]), MUL(par["v"], par["v"])), MUL(par["w"], par["w"])))
    first = []
    for k, q in enumerate("uvw"):
        if c.prove("the first axis is the fibre direction: " + q, EQ(MUL(M[0][k], s), par[q]), poly=True):
            first.append(EQ(MUL(M[0][k], s), par[q]))
    known = []
    for a, b in ((0, 0), (0, 2), (2, 2), (0, 1), (1, 2), (1, 1)):
        g = EQ(dot(M[a], M[b]), 1 if a == b else 0)
        hint = None
        if (a, b) == (0, 0) and len(first) == 3:
            h0 = first + [unit_axis(M[0], [par[q] for q in "uvw"], s), EQ(MUL(s, s), dot([par[q] for q in "uvw"], [par[q] for q in "uvw"]))]
            hint = lambda: h0
        if (a, b) == (1, 1):
            for p, q in ((2, 0), (0, 2)):
                eqs = [EQ(x, y) for x, y in zip(M[1], cross(M[p], M[q]))]
                if all(c.lemma(e, poly=True, assume=False) for e in eqs):
                    hs = known + eqs + [lagrange(M[p], M[q], M[1])]
                    hint = lambda: hs
                    break
        if c.prove("the frame is orthonormal: {}{}".format(a + 1, b + 1), g, poly=hint is None, hint=hint):
            known.append(g)


class Grown(list):
    """a list under construction: any number of elements, one more per iteration"""

    def __init__(self, n0):
        list.__init__(self)
        self.n0, self.new = n0, []

    def slen(self):
        return A.wrapint(norm(ADD(self.n0, len(self.new))))

    def append(self, o):
        self.new.append(o)

    def extend(self, o):
        self.new.extend(o)

    def __iadd__(self, o):
        self.new.extend(o)
        return self

    def __getitem__(self, k):
        K.unsupported("element of a list under construction")

    def __iter__(self):
        K.unsupported("iteration over a list under construction")

    def __len__(self):
        K.unsupported("length of a list under construction in native code")

    def __bool__(self):
        K.unsupported("truth of a list under construction")


def collect(c, n, state, body, quiet=False):
    """cut of `for i in it: ...; result.append(...)`: one arbitrary iteration"""
    from .compaction import set_local

    def hook(it, frame, line):
        if state.get("loop"):
            raise K.Unsupported("a second loop over a symbolic sequence")
        state["loop"] = True
        seq = it.it if isinstance(it, loader.Tqdm) else it
        a = A.asarr(seq)
        g = a.getter()
        if not quiet:
            c.prove("the loop visits every fibre", EQ(a._shape[0], n))
            c.prove("the fibres are visited in the order of the labels", lambda p: EQ(g(p).t, p), [n])
        if not c.decide(LT(0, n)):
            return []
        L = dict(frame.f_locals)
        lists = [k for k, v in L.items() if isinstance(v, list) and not v]
        if len(lists) != 1:
            raise K.Unsupported("the loop does not fill one list")
        i = c.int("fibre")
        c.assume(inr(i, n))
        c.touch(n, i)
        G = Grown(i)
        set_local(frame, **{lists[0]: G})

        def gen():
            yield g(i)
            M = frame.f_locals
            for k, v in L.items():
                if k != lists[0] and M.get(k) is not v:
                    raise K.Unsupported("the loop changes {}".format(k))
            if M.get(lists[0]) is not G:
                raise K.Unsupported("the list is replaced")
            state["list"] = G
            if quiet:
                return
            c.prove("every iteration gives one mesh", len(G.new) == 1)
            if len(G.new) == 1:
                body(i, G.new[0])
        return gen()
    return hook


def bind(f, a, k):
    b = inspect.signature(f).bind(*a, **k)
    return b.arguments


@unit("C20", "the fibres of a mat", ["vtk_mat"], mods=RENDER)
def fibres(c, pkg):
    run_mat(c, pkg)


def run_mat(c, pkg, frame=False):
    m = render(pkg)
    n = c.int("n")
    c.assume(n >= 0)
    S = c.real("size")
    c.assume(S > 0)
    mat = sym_mat(c, pkg, "mat", n, S, inf_moduli=True)
    stub_checks(c, pkg, mat)
    snap = snapshot(mat)
    cols = {q: mat._cols[q].getter() for q in MATCOLS}
    real = m.vtk_fiber
    if not callable(real):
        raise K.Unsupported("vtk_fiber is not a function of render.py")
    calls, called, state = [], [], {}
    defaults = inspect.signature(real).parameters

    def vtk_fiber(*a, **k):
        msh = spv.SMesh(c.int("fibre_points"), Arr((c.int("np"), 3), "r", lambda ix: Sc(0, "r")))
        calls.append((bind(real, a, k), msh))
        return msh
    m.vtk_fiber = vtk_fiber
    opts = {}
    if c.choice("options given"):
        opts = {"r_resolution": Sc(c.int("r_res"), "i"), "theta_resolution": Sc(c.int("t_res"), "i"), "z_resolution": Sc(c.int("z_res"), "i")}
    func = None
    if c.choice("function given"):
        func = lambda msh, i: called.append((msh, i))

    def body(i, msh):
        need(calls, "vtk_fiber")
        c.prove("one mesh is built per fibre", len(calls) == 1 and msh is calls[0][1])
        b = calls[0][0]
        names = ["length", "width", "thickness", "x", "y", "z", "u", "v", "w", "shear", "tensile"]
        for q, nm in zip(MATCOLS, names):
            if nm not in b:
                c.prove("the mesh is built with {} of the fibre".format(nm), False)
                continue
            v = b[nm]
            v = v.at() if isinstance(v, Arr) and v.ndim == 0 else lift(v)
            c.prove("the mesh is built with {} of the fibre".format(nm), K.ident(K.num(v), K.num(cols[q](i))))
        ix = lift(b.get("index"))
        c.prove("the mesh carries the label of the fibre", ix is not None and EQ(ix.t, i))
        extra = {k: v for k, v in b.items() if k not in names + ["index"]}
        flat_ = {k: v for k, v in extra.items() if k != "kwargs"}
        flat_.update(extra.get("kwargs", {}))
        c.prove("the options of the fibre meshes are honoured", all(k in flat_ and flat_[k] is v for k, v in opts.items()))
        c.prove("no other option is invented", all(k in opts or k not in defaults or defaults[k].default == v for k, v in flat_.items()))
        if func is not None:
            c.prove("the function is called once on the mesh and label", len(called) == 1 and called[0][0] is msh and lift(called[0][1]) is not None and EQ(lift(called[0][1]).t, i))
    loader.Hooks.forloop = collect(c, n, state, body, frame)
    try:
        out = m.vtk_mat(mat, func=func, verbose=False, **opts)
    finally:
        loader.Hooks.forloop = None
    if not state.get("loop"):
        raise K.Unsupported("no loop over the fibres")
    if frame:
        prove_frame(c, "the mat", mat, snap)
        return
    parts = out.__dict__.get("parts") if isinstance(out, spv.SMesh) else None
    c.prove("the meshes of the fibres are combined in order", parts is state["list"] if "list" in state else parts is not None and not isinstance(parts, Grown) and len(parts) == 0)
