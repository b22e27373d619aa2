"""Contracts of the visualisation library (pyvista), of sklearn's KDTree and of
scipy's CubicHermiteSpline."""
import types

import z3

from . import core as K
from . import arr as A
from . import loader
from .core import AND, OR, NOT, IMP, ADD, SUB, MUL, DIV, LT, LE, EQ, NE, NEG, Sc, lift, isz, inr, ctx, dkey, norm
from .arr import Arr, asarr, lib_raise


class SMesh:
    """A data set of points and point data.  Geometric filters act on the points
    and leave the data alone."""

    def __init__(self, n, pts, data=None):
        self.__dict__.update(_n=n, _pts=pts, data=dict(data or {}))

    def slen(self):
        return A.wrapint(self._n)

    @property
    def n_points(self):
        return A.wrapint(self._n)

    number_of_points = n_points

    @property
    def points(self):
        return self._pts

    def _rows(self, a):
        a = asarr(a)
        if a.ndim == 0 or not A.samedim(a._shape[0], self._n):
            lib_raise(ValueError("invalid array shape: the number of rows is not the number of points"))
        return a

    def __setattr__(self, k, v):
        if k != "points":
            raise K.Unsupported("attribute {} of a data set".format(k))
        a = self._rows(v)
        if a.ndim != 2 or a._shape[1] != 3:
            lib_raise(ValueError("points must be given as rows of three coordinates"))
        self.__dict__["_pts"] = a

    def __setitem__(self, k, v):
        a = self._rows(v)
        if a.buf is self._pts.buf:
            raise K.Unsupported("a data array that shares the points")
        self.data[k] = a

    def __getitem__(self, k):
        if k not in self.data:
            lib_raise(KeyError(k))
        return self.data[k]

    @property
    def point_data(self):
        return self

    def keys(self):
        return list(self.data)

    array_names = property(keys)

    def __contains__(self, k):
        return k in self.data

    def copy(self, deep=True):
        return SMesh(self._n, self._pts.copy(), {k: v.copy() for k, v in self.data.items()})

    def _to(self, pts, inplace):
        m = self if inplace else self.copy()
        m.__dict__["_pts"] = pts
        return m

    def scale(self, xyz, transform_all_input_vectors=False, inplace=False, point=None):
        if transform_all_input_vectors or point is not None:
            raise K.Unsupported("options of scale")
        f = asarr(xyz)
        if f.ndim == 0:
            f = asarr([f, f, f])
        if f._shape != (3,):
            lib_raise(ValueError("three factors are expected"))
        return self._to(self._pts * f, inplace)

    def translate(self, xyz, transform_all_input_vectors=False, inplace=False):
        f = asarr(xyz)
        if f._shape != (3,) or transform_all_input_vectors:
            lib_raise(ValueError("three shifts are expected"))
        return self._to(self._pts + f, inplace)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise K.Unsupported("attribute {} of a data set".format(k))


def CylinderStructured(radius=0.5, height=1.0, center=(0., 0., 0.), direction=(1., 0., 0.), theta_resolution=32, z_resolution=10):
    """points of a cylinder along x: abscissae from -height/2 to height/2 (both
    reached), within the largest radius; the radii are positive and ascending"""
    c = ctx()
    r = asarr(radius)
    if r.ndim == 0:
        r = asarr([r])
    if r.ndim != 1 or tuple(center) != (0., 0., 0.) or tuple(direction) != (1., 0., 0.):
        raise K.Unsupported("options of CylinderStructured")
    nr, g = r._shape[0], r.getter()
    c.prove("the cylinder has a radius", LT(0, nr))
    c.prove("the radii are positive", lambda i: LT(0, g(i).t), [nr])
    c.prove("the radii are ascending", lambda i: IMP(LT(ADD(i, 1), nr), LT(g(i).t, g(norm(ADD(i, 1))).t)), [nr], hint=lambda i: [(nr, norm(ADD(i, 1)))])
    h = lift(height)
    big = g(norm(SUB(nr, 1))).t
    n = c.int("n_points")
    c.assume(LE(2, n))
    p = [c.leaf("cyl." + q, [n], z3.RealSort()) for q in "xyz"]
    X = lambda q, i: p[q](K.toint(i))
    half = DIV(h.t, 2)
    c.forall([n], lambda i: AND(LE(NEG(half), X(0, i)), LE(X(0, i), half), *[AND(LE(NEG(big), X(q, i)), LE(X(q, i), big)) for q in (1, 2)]), "cylinder")
    ends = [c.int("end_point") for _ in range(2)]
    c.assume(AND(*[inr(e, n) for e in ends], EQ(X(0, ends[0]), NEG(half)), EQ(X(0, ends[1]), half)))
    for e in ends:
        c.touch(n, e)

    def fn(ix):
        j = ix[1]
        if isz(j):
            raise K.Unsupported("symbolic component of a point")
        return Sc(X(j, ix[0]), "r")
    m = SMesh(n, Arr((n, 3), "r", fn))
    c.state.setdefault("cylinders", []).append(dict(mesh=m, radius=g, nr=nr, theta=theta_resolution, z=z_resolution, height=h, p=p, n=n))
    return m


class MultiBlock:
    def __init__(self, blocks=()):
        self.blocks = blocks

    def combine(self, merge_points=False, tolerance=0.0):
        if merge_points:
            raise K.Unsupported("points merged")
        m = SMesh(0, Arr((0, 3), "r", lambda ix: Sc(0, "r")))
        m.__dict__["parts"] = self.blocks
        return m


class KDTree:
    """nearest neighbours of points on a line"""

    def __init__(self, X, leaf_size=40, metric="minkowski", **k):
        X = asarr(X)
        if X.ndim != 2 or X._shape[1] != 1 or k:
            raise K.Unsupported("KDTree of these points")
        if not ctx().decide(LT(0, X._shape[0])):
            lib_raise(ValueError("Found array with 0 sample(s)"))
        self.n, self.g = X._shape[0], X.getter()

    def query(self, X, k=1, return_distance=True, **o):
        X = asarr(X)
        if k != 1 or return_distance or X.ndim != 2 or X._shape[1] != 1:
            raise K.Unsupported("options of KDTree.query")
        c = ctx()
        m, n, g, x = X._shape[0], self.n, self.g, X.getter()
        near = c.leaf("nearest", [m], K.I_)
        N = lambda p: near(K.toint(p))
        d = lambda q, p: K.absolute(K.sub(g(q, 0), x(p, 0))).t
        c.forall([m], lambda p: (inr(N(p), n), [(n, N(p))]), "nearest")
        c.forall([m, n], lambda p, q: LE(d(N(p), p), d(q, p)), "nearest")
        if "on_nearest" in c.state:
            c.state["on_nearest"](m, n, N, lambda q: g(q, 0).t, lambda p: x(p, 0).t)
        return Arr((m, 1), "i", lambda ix: Sc(N(ix[0]), "i"))


class CubicHermiteSpline:
    """the piecewise cubic of given values and slopes at given abscissae"""

    def __init__(self, x, y, dydx, axis=0, extrapolate=None, nu=0, of=None):
        if axis != 0:
            raise K.Unsupported("axis of a spline")
        if of is None:
            x, y, dydx = asarr(x), asarr(y), asarr(dydx)
            for a in (y, dydx):
                if a.ndim != 1:
                    raise K.Unsupported("spline of vectors")
                if not A.samedim(a._shape[0], x._shape[0]):
                    lib_raise(ValueError("shapes of x, y and dydx do not match"))
            self.n, self.x, self.y, self.d = x._shape[0], x.getter(), y.getter(), dydx.getter()
            self.root = self
            self.evals = []
        else:
            self.root = of.root
        self.nu = nu

    def derivative(self, nu=1):
        return CubicHermiteSpline(None, None, None, nu=self.nu + nu, of=self)

    def __call__(self, x, nu=0, extrapolate=None):
        x = asarr(x)
        if x.ndim != 1 or isinstance(nu, Sc):
            raise K.Unsupported("evaluation of a spline")
        c = ctx()
        f = c.leaf("spline", [x._shape[0]], z3.RealSort())
        self.root.evals.append(dict(nu=self.nu + nu, n=x._shape[0], x=x.getter(), f=f))
        return Arr(x._shape, "r", lambda ix: Sc(f(K.toint(ix[0])), "r"))


def make():
    pv = types.ModuleType("pyvista")
    pv.CylinderStructured, pv.MultiBlock = CylinderStructured, MultiBlock
    sk, nb = loader.Stub("sklearn"), types.ModuleType("sklearn.neighbors")
    nb.KDTree = KDTree
    sk.neighbors = nb
    loader.reg("pyvista", pv)
    loader.reg("sklearn", sk)
    loader.reg("sklearn.neighbors", nb)
    it = loader.MODULES["scipy.interpolate"]
    it.CubicHermiteSpline = CubicHermiteSpline
