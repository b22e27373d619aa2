"""Contracts of the scipy functions used."""
import types

import z3

from . import core as K
from . import arr as A
from . import snp
from .arr import Arr, asarr
from .core import Sc, AND, OR, NOT, IMP, ITE, ADD, SUB, MUL, EQ, NE, LT, LE, lift, isz, inr, ctx, dkey, norm, lib_raise


class Sparse:
    """A sparse matrix in coordinate form: a list of blocks (count, row, col, value) of
    element functions; its entries are the sums of the values with these coordinates."""

    def __init__(self, blocks, shape, k="r", fmt="coo"):
        self.blocks, self._shape, self.k, self.format = blocks, tuple(shape), k, fmt

    @property
    def shape(self):
        return tuple(A.wrapint(d) for d in self._shape)

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return A.Dtype(self.k)

    @property
    def T(self):
        return Sparse([(n, c, r, v) for n, r, c, v in self.blocks], self._shape[::-1], self.k)

    def transpose(self):
        return self.T

    def _same(self, *a, **k):
        return self

    tocsc = tocsr = tocoo = copy = tolil = asformat = _same

    def astype(self, t):
        return self

    def _scale(self, s):
        s = lift(s)
        if s is None:
            raise K.Unsupported("product of a sparse matrix with this")
        return Sparse([(n, r, c, (lambda v: lambda e: K.mul(v(e), s))(v)) for n, r, c, v in self.blocks], self._shape, self.k)

    def __mul__(self, o):
        return self._scale(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._scale(1 / lift(o))

    def __neg__(self):
        return self._scale(-1)

    def __add__(self, o):
        if not isinstance(o, Sparse):
            raise K.Unsupported("sum of a sparse matrix with this")
        return Sparse(self.blocks + o.blocks, self._shape, self.k)

    def __sub__(self, o):
        return self + (-o)

    def __hash__(self):
        return id(self)

    def __getattr__(self, k):
        raise K.Unsupported("sparse matrix attribute {}".format(k))

    def __matmul__(self, o):
        raise K.Unsupported("sparse product")

    __rmatmul__ = __matmul__

    def __getitem__(self, k):
        raise K.Unsupported("indexing of a sparse matrix")


class LinOp:
    """An abstract (sparse) matrix of symbolic shape: only its products with vectors matter.
    Contract: equal vectors have equal products, a null row gives a null component."""
    _sparse = True
    ndim = 2

    def __init__(self, name, shape, symmetric=False, trans=None, blocks=None):
        self.name, self._shape, self.symmetric, self.blocks = name, tuple(shape), symmetric, blocks
        self.products = []
        self._t = trans
        self._cs = None
        self.format = "csc"
        self.semantic = True

    def __setattr__(self, k, v):
        self.__dict__[k] = v

    @property
    def shape(self):
        return tuple(A.wrapint(d) for d in self._shape)

    @property
    def dtype(self):
        return A.Dtype("r")

    @property
    def T(self):
        if self.symmetric:
            return self
        if self._t is None:
            self._t = LinOp(self.name + ".T", self._shape[::-1], trans=self)
        return self._t

    def transpose(self):
        return self.T

    def _same(self, *a, **k):
        return self

    tocsc = tocsr = tocoo = copy = asformat = _same

    @property
    def real(self):
        return self

    def _map(self, f, k):
        if f is K.absolute:
            return AbsOp(self)
        K.unsupported("elementwise function of a sparse matrix")

    def __abs__(self):
        return AbsOp(self)

    def colsums(self):
        """sums of absolute values by column: zero exactly when the column is null"""
        if self._cs is None:
            c = ctx()
            self._cs = c.leaf("colsum", [self._shape[1]], z3.RealSort())
            c.forall([self._shape[1]], lambda j: LE(0, self._cs(K.toint(j))), "column sums")
            for w, r in self.products:
                self.link(r)
        return self._cs

    def link(self, r):
        if self.symmetric and self._cs is not None:
            cs = self._cs
            ctx().forall([self._shape[0]], lambda j: IMP(EQ(cs(K.toint(j)), 0), EQ(r(j), 0)), "null row")

    def record(self, g, r):
        """the product with the vector of elements g is r"""
        self.products.append((g, r))
        self.link(r)

    def lookup(self, g):
        c = ctx()
        n = self._shape[1]
        e = g(K.canon(dkey(n), 0)).t
        for w, r in self.products:
            f = w(K.canon(dkey(n), 0)).t
            if (isz(e) and isz(f) and e.eq(f)) or (not isz(e) and not isz(f) and e == f):
                return r
        for d in (1, 2):
            for w, r in reversed(self.products) if self.semantic else ():
                i = c.int("same")
                if c.refute([inr(i, n), NOT(EQ(g(i).t, w(i).t))], d, 1500, touch=[(n, i)], nl=False, only=True, limit=1500)[0] == "unsat":
                    return r
        return None

    def product(self, g):
        r = self.lookup(g)
        if r is None:
            f = ctx().leaf("product", [self._shape[0]], z3.RealSort())
            r = lambda i: f(K.toint(i))
            self.record(g, r)
        return r

    def __matmul__(self, o):
        o = asarr(o)
        if o.ndim != 1:
            K.unsupported("sparse product with a matrix")
        if not A.samedim(o._shape[0], self._shape[1]):
            lib_raise(ValueError("dimension mismatch"))
        r = self.product(o.getter())
        return Arr((self._shape[0],), "r", lambda ix: Sc(r(ix[0]), "r"))

    dot = __matmul__

    def __getitem__(self, k):
        if isinstance(k, A.IxKey):
            return SubOp(self, k.rows, k.cols)
        K.unsupported("indexing of a sparse matrix")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise K.Unsupported("sparse matrix attribute {}".format(k))


class AbsOp:
    _sparse = True

    def __init__(self, op):
        self.op = op

    def sum(self, axis=None, **k):
        if axis not in (0, -2) and not (self.op.symmetric and axis in (1, -1)):
            K.unsupported("sum of a sparse matrix along this axis")
        cs, n = self.op.colsums(), self.op._shape[1]
        # numpy.matrix of one row
        return Arr((1, n), "r", lambda ix: Sc(cs(K.toint(ix[1])), "r"))


class SubOp:
    """rows and columns of a matrix selected by masks or index arrays"""
    _sparse = True

    def __init__(self, op, rows, cols):
        self.op, self.rows, self.cols = op, asarr(rows), asarr(cols)

    def count(self, q):
        return A.compress_of(q).m if q.k == "b" else q._shape[0]

    @property
    def shape(self):
        return (A.wrapint(self.count(self.rows)), A.wrapint(self.count(self.cols)))

    def __matmul__(self, y):
        n, y, q = self.op._shape[1], asarr(y), self.cols
        if q.k == "b" and y.taken and y.taken[0] is A.compress_of(A.as_mask(q)):
            m, g = q.getter(), y.taken[1]
            w = Arr((n,), "r", lambda ix: K.where(m(*ix).t, A.cast(g(*ix), "r"), Sc(0, "r")))
        else:
            w = Arr((n,), "r", lambda ix: Sc(0, "r"))
            w[q] = y
        return (self.op @ w)[self.rows]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise K.Unsupported("sparse matrix attribute {}".format(k))


def bmat(blocks, format=None, dtype=None):
    B = [list(r) for r in blocks]
    if len(B) != 2 or any(len(r) != 2 for r in B) or not all(q is None or isinstance(q, LinOp) for r in B for q in r):
        K.unsupported("bmat of these blocks")
    (a, b), (d, e) = B
    size = lambda p, q, x: next((m._shape[x] for m in (p, q) if m is not None), None)
    dims = [size(a, b, 0), size(d, e, 0)], [size(a, d, 1), size(b, e, 1)]
    for r in range(2):
        for q in range(2):
            m = B[r][q]
            if dims[0][r] is None or dims[1][q] is None:
                K.unsupported("bmat of these blocks")
            if m is not None and not (A.samedim(m._shape[0], dims[0][r]) and A.samedim(m._shape[1], dims[1][q])):
                lib_raise(ValueError("incompatible dimensions"))
    sym = (a is None or a.symmetric) and (e is None or e.symmetric) and (b is d is None or (b is not None and d is not None and b is d.T))
    return LinOp("system", (norm(ADD(*dims[0])), norm(ADD(*dims[1]))), symmetric=sym, blocks=B)


def spsolve(Am, b, **k):
    """the solution of a square linear system; the residual is not part of the contract"""
    b = asarr(b)
    x = ctx().leaf("spsolve", [b._shape[0]], z3.RealSort())
    return Arr((b._shape[0],), "r", lambda ix: Sc(x(K.toint(ix[0])), "r"))


def blocks_of(a):
    a = asarr(a)
    if a.ndim != 1:
        raise K.Unsupported("coordinates of a sparse matrix that are not one-dimensional")
    if a.blocks:
        g = None
        return [(n, h) for n, h in a.blocks]
    g = a.getter()
    return [(a._shape[0], (lambda g: lambda i: g(i))(g))]


def common(*bl):
    """blocks of several arrays cut in the same way"""
    if all(len(b) == len(bl[0]) for b in bl) and all(dkey(b[p][0]) == dkey(bl[0][p][0]) for b in bl for p in range(len(b))):
        return [(bl[0][p][0],) + tuple(b[p][1] for b in bl) for p in range(len(bl[0]))]
    raise K.Unsupported("a sparse matrix whose coordinates and values are cut in different ways")


def coo_matrix(arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, Sparse):
        return arg
    if not (isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list))):
        raise K.Unsupported("sparse matrix from this")
    data, (row, col) = arg
    data, row, col = asarr(data), asarr(row), asarr(col)
    if shape is None:
        raise K.Unsupported("sparse matrix without a shape")
    shape = tuple(A.rawdim(d) for d in shape)
    for a in (row, col):
        if not A.samedim(a._shape[0], data._shape[0]):
            lib_raise(ValueError("row, column, and data array must all be the same length"))
    bl = common(blocks_of(row), blocks_of(col), blocks_of(data))
    c = ctx()
    for n, r, q, v in bl:
        for f, d, w in ((r, shape[0], "row"), (q, shape[1], "column")):
            B = c.forall_bool([n], lambda e: inr(f(e).t, d), "coordinates")
            if not c.decide(B):
                lib_raise(ValueError("{} index exceeds matrix dimensions".format(w)))
    return Sparse(bl, shape, data.k)


class Bunch(dict):
    def __getattr__(self, k):
        if k in self:
            return self[k]
        raise AttributeError(k)

    def __bool__(self):
        return True


def linprog(c=None, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, **k):
    raise K.Unsupported("linear programming (no contract installed)")


_ids = []


class interp1d:
    """Interpolation along the first axis: linear or previous-value."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        c = ctx()
        x, y = asarr(x), asarr(y)
        if y.ndim == 0 or x.ndim != 1:
            lib_raise(ValueError("the x array must have exactly one dimension"))
        ax = lift(axis)
        if isz(ax.t):
            raise K.Unsupported("symbolic axis")
        if ax.t % y.ndim != 0:
            raise K.Unsupported("interpolation along another axis")
        if kind not in ("linear", "previous"):
            raise K.Unsupported("interpolation of kind {}".format(kind))
        if not A.samedim(x._shape[0], y._shape[0]):
            lib_raise(ValueError("x and y arrays must be equal in length along interpolation axis."))
        n = x._shape[0]
        if not c.decide(LE(1, n)):
            lib_raise(ValueError("x and y arrays must have at least 1 entry"))
        self._kind = kind
        x = x.astype(float) if x.k != "r" else x
        self.x, self.y = x.copy(), (y.astype(float) if y.k != "r" else y.copy())
        self._xg, self._yg, self._nx = self.x.getter(), self.y.getter(), n
        if isz(n):
            B = c.forall_bool([n, n], lambda i, j: IMP(LT(i, j), LE(self._xg(i).t, self._xg(j).t)), "sorted_x")
            if not c.known(B):
                raise K.Unsupported("interpolation over points not known to be sorted")
        else:
            if n > 3:
                raise K.Unsupported("interpolation over many explicit points")
            for i in range(n - 1):
                if not c.decide(LE(self._xg(i).t, self._xg(i + 1).t)):
                    raise K.Unsupported("interpolation over unsorted points")
        self.fill_value = fill_value
        self.bounds_error = (True if bounds_error is None else bool(bounds_error))
        fv = lift(fill_value)
        self._fill = None
        if not self.bounds_error:
            f = asarr(fill_value)
            if f.ndim > y.ndim - 1:
                raise K.Unsupported("fill value of this shape")
            for p in range(f.ndim):
                if not A.samedim(f._shape[-1 - p], y._shape[-1 - p]):
                    lib_raise(ValueError("fill_value does not broadcast"))
            self._fill = (f.getter(), f.ndim)

    def __call__(self, t):
        c = ctx()
        t = asarr(t)
        T = t.getter()
        n, xg, yg = self._nx, self._xg, self._yg
        d = t.ndim
        tail = self.y._shape[1:]
        zero, last = xg(0).t, xg(norm(SUB(n, 1))).t
        sp = lambda *q: T(*q)
        out_of = lambda *q: OR(LT(T(*q).t, zero), LT(last, T(*q).t))
        if self.bounds_error:
            if not c.decide(c.forall_bool(t._shape, lambda *q: NOT(out_of(*q)), "inside")):
                lib_raise(ValueError("A value in x_new is outside the interpolation range."))
        if not isz(n):
            # explicit points
            def val(q, r):
                tau = K.num(T(*q))
                v = yg(n - 1, *r)
                for p in range(n - 2, -1, -1):
                    x0, x1 = xg(p), xg(p + 1)
                    if self._kind == "linear":
                        a, b = yg(p, *r), yg(p + 1, *r)
                        w = K.add(a, K.mul(K.div(K.sub(b, a), K.sub(x1, x0), True), K.sub(tau, x0)))
                    else:
                        w = yg(p, *r)
                    v = K.where(K.lt(tau, x1).t, w, v)
                return v
        else:
            J = c.leaf("bracket", [x for x in t._shape] or [1], z3.IntSort())
            ix = (lambda q: [K.toint(i) for i in q]) if d else (lambda q: [z3.IntVal(0)])
            j = lambda q: J(*ix(q))
            N1 = norm(SUB(n, 1))

            def props(*q):
                q = q if d else ()
                tau = T(*q).t
                k = j(q)
                hi = LT(tau, xg(norm(ADD(k, 1))).t) if self._kind == "previous" else LE(tau, xg(norm(ADD(k, 1))).t)
                return IMP(NOT(out_of(*q)), AND(inr(k, n), LE(xg(k).t, tau), OR(AND(EQ(k, N1), OR(EQ(n, 1), EQ(tau, last))), AND(LT(k, N1), hi))))

            def dom(*q):
                qq = q if d else ()
                return IMP(NOT(out_of(*qq)), inr(j(qq), n)), [(n, j(qq)), (n, norm(ADD(j(qq), 1)))]
            if d:
                c.forall(list(t._shape), props, "bracketing point")
                c.facts.append(K.Fact([(dkey(s), s) for s in t._shape], dom, "bracket index"))
            else:
                c.assume(props())
                c.touch(n, j(()))
                c.touch(n, norm(ADD(j(()), 1)))

            # the value: one of the data at the points, between two of them elsewhere
            W = c.leaf("interpolated", (list(t._shape) + list(tail)) or [1], z3.RealSort())

            def val(q, r):
                ar = [K.toint(i) for i in tuple(q) + tuple(r)] or [z3.IntVal(0)]
                return Sc(W(*ar), "r")

            def contract(*qr):
                q, r = qr[:d], qr[d:]
                tau = T(*q).t
                k = j(q)
                w = val(q, r).t
                ya = yg(k, *r)
                if self._kind == "previous":
                    f = AND(ya.fin, EQ(w, ya.t))
                else:
                    k1 = norm(ADD(k, 1))
                    yb = yg(k1, *r)
                    f = OR(AND(OR(EQ(k, N1), EQ(tau, xg(k).t)), EQ(w, ya.t)),
                           AND(LT(k, N1), LT(xg(k).t, tau), OR(AND(LE(ya.t, w), LE(w, yb.t)), AND(LE(yb.t, w), LE(w, ya.t))), IMP(EQ(tau, xg(k1).t), EQ(w, yb.t))))
                # (linear interpolation over a single point is left unspecified)
                return IMP(AND(NOT(out_of(*q)), True if self._kind == "previous" else LE(2, n)), f)
            if d or tail:
                c.forall(list(t._shape) + list(tail), contract, "interpolated value")
            else:
                c.assume(contract())

        def fn(ix):
            q, r = ix[:d], ix[d:]
            v = val(q, r)
            if self.bounds_error:
                return v
            f, nf = self._fill
            return K.where(out_of(*q), K.num(f(*(r[len(r) - nf:] if nf else ()))), v)
        return Arr(tuple(t._shape) + tuple(tail), "r", fn)


def make():
    sp = types.ModuleType("scipy")
    sparse = types.ModuleType("scipy.sparse")
    opt = types.ModuleType("scipy.optimize")
    itp = types.ModuleType("scipy.interpolate")
    lin = types.ModuleType("scipy.sparse.linalg")
    for nm in ("coo_matrix", "coo_array", "csr_matrix", "csc_matrix", "csr_array", "csc_array"):
        setattr(sparse, nm, coo_matrix)
    lin.spsolve = spsolve
    sparse.bmat = sparse.block_array = bmat
    sparse.linalg = lin
    sparse.csgraph = types.ModuleType("scipy.sparse.csgraph")
    opt.linprog = linprog
    itp.interp1d = interp1d
    sp.sparse, sp.optimize, sp.interpolate = sparse, opt, itp
    return {"scipy": sp, "scipy.sparse": sparse, "scipy.optimize": opt, "scipy.interpolate": itp, "scipy.sparse.linalg": lin}
