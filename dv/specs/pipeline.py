"""Symbolic inputs and callee contracts of the later pipeline stages."""
from .base import *
from .c06 import wf_rows
from .. import ssp


def need(calls, what):
    if not calls:
        raise K.Unsupported("{} is not called where its contract is used".format(what))


def mat_net(c, pkg, n=None, m=None, minn=1):
    if n is None:
        n = c.int("n")
        c.assume(n >= minn)
    S = c.real("size")
    c.assume(S > 0)
    mat = sym_mat(c, pkg, "mat", n, S)
    net = sym_net(c, pkg, "net", n, m, S)
    stub_checks(c, pkg, mat, net)
    return mat, net


def stub_net_init(c, pkg):
    """contract of Net.init (C05, C07-C09): a fresh valid network of the mat"""
    calls = []

    def init(mat=None, periodic=True, pairs=None, **k):
        n = mat._n
        net = sym_net(c, pkg, "newnet", n, None, lift(mat.attrs["size"]).t, periodic)
        r = spd.DataFrame._make(dict(net._cols), net.index)
        at = dict(mat.attrs)
        at["periodic"] = periodic
        r.__dict__["_attrs"] = at
        r.__dict__["_spec"] = net.__dict__["_spec"]
        calls.append((mat, periodic, pairs, r, {q: mat._cols[q].getter() for q in mat._cols}))
        c.state.setdefault("newnets", []).append(r)
        return r
    pkg.Net.init = staticmethod(init)
    return calls


def stub_mesh_init(c, pkg):
    calls = []

    def init(net=None, **k):
        mesh = sym_mesh(c, pkg, "newmesh", lift(net.attrs["n"]).t)
        r = spd.DataFrame._make(dict(mesh._cols), mesh.index)
        r.__dict__["_attrs"] = dict(net.attrs)
        calls.append((net, r))
        return r
    pkg.Mesh.init = staticmethod(init)
    pkg.Mesh.check = lambda self=None: True
    return calls


def stub_stack_constraint(c, pkg):
    calls = []

    def constraint(mat=None, net=None, **k):
        nc = c.int("nc")
        c.assume(nc >= 0)
        n = mat._n
        i, j = c.leaf("ci", [nc], I), c.leaf("cj", [nc], I)
        c.forall([nc], lambda e: AND(inr(i(K.toint(e)), n), inr(j(K.toint(e)), n), LT(i(K.toint(e)), j(K.toint(e)))), "coordinates")
        c.facts.append(K.Fact([(dkey(nc), nc)], lambda e: (True, [(n, i(K.toint(e))), (n, j(K.toint(e)))]), "indices"))
        one = Sc(1, "i")
        C = ssp.Sparse([(nc, lambda e: Sc(e, "i"), lambda e: Sc(i(K.toint(e)), "i"), lambda e: one),
                        (nc, lambda e: Sc(e, "i"), lambda e: Sc(j(K.toint(e)), "i"), lambda e: K.neg(one))], (nc, n))
        h = mat._cols["h"].getter()
        w = c.leaf("weight", [n], R)
        c.forall([n], lambda k: LT(0, w(K.toint(k))), "positive weights")
        f = spd.Series(Arr((n,), "r", lambda ix: Sc(w(K.toint(ix[0])), "r")), index=mat.index)
        H = Arr((nc,), "r", lambda ix: K.mul(Sc(Fraction(-1, 2), "r"), K.add(h(i(K.toint(ix[0]))), h(j(K.toint(ix[0]))))))
        hh = Arr((n,), "r", lambda ix: h(ix[0]))
        calls.append(dict(mat=mat, net=net, C=C, f=f, H=H, h=hh, i=i, j=j, nc=nc))
        return C, f, H, hh
    pkg.Stack.constraint = staticmethod(constraint)
    return calls


def ssp_result(c, n):
    return ssp.Bunch(x=rcol(c, "linsol.x", n), success=True, status=0)


def stub_stack_solve(c, pkg, mat):
    calls = []

    def solve(mat=None, net=None, **k):
        r = ssp_result(c, mat._n)
        calls.append((mat, net, r))
        return r
    pkg.Stack.solve = staticmethod(solve)
    return calls


def sym_mesh(c, pkg, name="mesh", n=None, m=None, size=None, periodic=None):
    """A table satisfying Mesh.check (C06)."""
    if n is None:
        n = c.int("n_" + name)
        c.assume(n >= 0)
    if m is None:
        m = c.int("m_" + name)
        c.assume(m >= 0)
    S = size if size is not None else c.real("size_" + name)
    P = periodic if periodic is not None else Sc(c.bool("periodic_" + name), "b")
    cols = {q: (icol if q in ("fiber", "beam", "constraint") else rcol)(c, name + "." + q, m) for q in MESHCOLS}
    g = {q: a.getter() for q, a in cols.items()}
    for nm, f, d in wf_rows(n, m, g):
        if d == 2:
            c.forall([m, m], f, nm, trig=lambda a, b: a.get_id() != b.get_id())
        else:
            c.forall([m], f, nm)
    if isz(m):
        c.facts.append(K.Fact([(dkey(m), m)], lambda r: (True, [(m, g["beam"](r).t), (m, g["constraint"](r).t)] + ([(n, g["fiber"](r).t)] if isz(n) else [])),
                              "labels are indices"))
    t = table(pkg.Mesh, cols, m, {"n": Sc(n, "i") if isz(n) else n, "size": Sc(S, "r"), "periodic": P})
    t.__dict__["_spec"] = dict(n=n, m=m, S=S, g={q: V(a) for q, a in cols.items()}, P=P)
    return t


def mat_mesh(c, pkg, n=None, m=None, empty=False):
    if n is None:
        n = c.int("n")
        c.assume(n >= 1)
    S = c.real("size")
    c.assume(S > 0)
    mat = sym_mat(c, pkg, "mat", n, S)
    if m is None and not empty:
        m = c.int("nodes")
        c.assume(m >= 1)
    mesh = sym_mesh(c, pkg, "mesh", n, 0 if empty else m, S)
    stub_checks(c, pkg, mat)
    pkg.Mesh.check = lambda self=None: True
    return mat, mesh
