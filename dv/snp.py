"""Contract of the numpy functions used (and of their usual equivalents)."""
import types
import itertools
from fractions import Fraction

import z3

from . import core as K
from . import arr as A
from .arr import Arr, asarr, Dtype
from .core import Sc, AND, OR, NOT, IMP, ITE, ADD, SUB, MUL, EQ, NE, LT, LE, lift, isz, inr, ctx, dkey, norm, lib_raise

np = types.ModuleType("numpy")
np.__verif__ = True


def fn(name=None):
    def d(f):
        setattr(np, name or f.__name__, f)
        return f
    return d


np.pi = K.pi
np.inf = float("inf")
np.Inf = np.inf
np.nan = float("nan")
np.newaxis = None
np.float64 = float
np.float32 = float
np.int64 = int
np.int32 = int
np.intp = int
np.bool_ = bool
np.ndarray = Arr
np.object_ = object
np.e = 2.718281828459045


class inexact:
    pass


class integer:
    pass


class floating:
    pass


class number:
    pass


np.inexact, np.integer, np.floating, np.number = inexact, integer, floating, number
np.dtype = Dtype.of


@fn()
def issubdtype(d, t):
    k = Dtype.of(d).k
    if t in (inexact, floating):
        return k == "r"
    if t is integer:
        return k == "i"
    if t is number:
        return k in "ir"
    return k == Dtype.of(t).k


class _Finfo:
    eps = 2.220446049250313e-16
    max = 1.7976931348623157e308
    tiny = 2.2250738585072014e-308


@fn()
def finfo(*a):
    return _Finfo


def shape_of(n):
    if isinstance(n, (tuple, list)):
        return tuple(A.rawdim(d) for d in n)
    return (A.rawdim(n),)


def neg_check(sh):
    for d in sh:
        if isz(d):
            if not ctx().decide(LE(0, d)):
                lib_raise(ValueError("negative dimensions are not allowed"))
        elif d < 0:
            lib_raise(ValueError("negative dimensions are not allowed"))


@fn()
def full(n, v, dtype=None):
    sh = shape_of(n)
    neg_check(sh)
    v = asarr(v)
    if dtype is not None:
        v = v.astype(dtype)
    m, g = A.bcast_map(v._shape, sh), v.getter()
    return Arr(sh, v.k, lambda ix: g(*m(ix)))


def const(v):
    def f(n, dtype=None):
        k = Dtype.of(dtype).k if dtype is not None else "r"
        x = A.cast(lift(v), k)
        sh = shape_of(n)
        neg_check(sh)
        return Arr(sh, k, lambda ix: x)
    return f


np.zeros, np.ones = const(0), const(1)


def const_like(v):
    def f(a, dtype=None):
        a = asarr(a)
        k = Dtype.of(dtype).k if dtype is not None else a.k
        x = A.cast(lift(v), k)
        return Arr(a._shape, k, lambda ix: x)
    return f


np.zeros_like, np.ones_like = const_like(0), const_like(1)


@fn()
def full_like(a, v, dtype=None):
    a = asarr(a)
    return full(tuple(a.shape), A.cast(lift(v), Dtype.of(dtype).k if dtype else a.k))


def _empty(shape, k):
    c = ctx()
    f = c.leaf("empty", shape, {"r": K.R_, "i": K.I_, "b": z3.BoolSort()}[k])
    return Arr(shape, k, lambda ix: Sc(f(*[K.toint(i) for i in ix]), k))


@fn()
def empty(n, dtype=None):
    return _empty(shape_of(n), Dtype.of(dtype).k if dtype is not None else "r")


@fn()
def empty_like(a, dtype=None):
    a = asarr(a)
    return _empty(a._shape, Dtype.of(dtype).k if dtype is not None else a.k)


@fn()
def arange(a, b=None, step=None, dtype=None):
    lo, hi = (0, a) if b is None else (a, b)
    st = 1 if step is None else step
    if isinstance(st, Sc) or isinstance(st, float):
        raise K.Unsupported("arange step")
    lo, hi = A.rawdim(lo), A.rawdim(hi)
    n = norm(SUB(hi, lo))
    if st != 1:
        if st < 0:
            raise K.Unsupported("arange with a negative step")
        n = A.divmod_c(norm(ADD(n, st - 1)), st)[0]
    if not isz(n):
        n = max(n, 0)
    elif not ctx().known(LE(0, n)):
        n = ITE(LE(0, n), n, 0)
    k = Dtype.of(dtype).k if dtype is not None else "i"
    return Arr((n,), k, lambda ix: A.cast(Sc(norm(ADD(lo, MUL(st, ix[0]))), "i"), k))


@fn()
def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None):
    a, b = lift(a), lift(b)
    n = A.rawdim(num)
    if not endpoint or retstep:
        raise K.Unsupported("linspace options")
    neg_check((n,))
    d = norm(SUB(n, 1))
    ra, rb = A.cast(a, "r"), A.cast(b, "r")

    if isz(n) and not isz(ra.t) and not isz(rb.t) and ra.t < rb.t:
        c = ctx()
        key = ("linspace", ra.t, rb.t, dkey(n))
        if key not in c.memo:
            x = c.leaf("linspace", [n], z3.RealSort())
            X = lambda i: x(K.toint(i))
            c.assume(AND(IMP(LE(1, n), EQ(X(0), ra.t)), IMP(LE(2, n), EQ(X(d), rb.t))))
            c.forall([n], lambda i: AND(LE(ra.t, X(i)), LE(X(i), rb.t)), "linspace range")
            c.forall([n, n], lambda i, j: IMP(LT(i, j), LT(X(i), X(j))), "linspace increasing", trig=lambda a, b: a.get_id() != b.get_id())
            c.touch(n, z3.IntVal(0))
            c.touch(n, d)
            if c.state.get("linspace_exact"):
                c.forall([n], lambda i: EQ(MUL(X(i), d), ADD(MUL(ra.t, d), MUL(K.SUB(rb.t, ra.t), i))), "linspace values")
            c.memo[key] = X
        X = c.memo[key]
        return Arr((n,), "r", lambda ix: Sc(X(ix[0]), "r"))

    def f(ix):
        i = ix[0]
        # first and last are exact
        t = K.add(ra, K.mul(K.sub(rb, ra), K.div(Sc(i, "i"), Sc(d, "i"), True))) if not (not isz(d) and d == 0) else ra
        return K.where(EQ(i, 0), ra, K.where(EQ(i, d), rb, t)) if isz(d) else t
    return Arr((n,), "r", f)


@fn()
def array(x, dtype=None, copy=True, ndmin=0):
    a = asarr(x, dtype=dtype)
    return a.copy()


@fn()
def asarray(x, dtype=None):
    return asarr(x, dtype=dtype)


np.ascontiguousarray = np.asanyarray = asarray


class _C:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == 1 and isinstance(key[0], tuple):
            key = key[0]
        cols = []
        for q in key:
            a = asarr(q)
            if a.ndim == 0:
                a = a.reshape(1)
            if a.ndim == 1:
                a = a[:, None]
            cols.append(a)
        return A.concatenate(cols, axis=-1)


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        out = []
        for q in key:
            if isinstance(q, slice):
                q = arange(q.start or 0, q.stop, q.step)
            a = asarr(q)
            out.append(a.reshape(1) if a.ndim == 0 else a)
        return A.concatenate(out, axis=0)


np.c_, np.r_ = _C(), _R()


@fn()
def column_stack(xs):
    return np.c_[tuple(xs)]


@fn()
def concatenate(xs, axis=0):
    xs = seq(xs)
    if isinstance(xs, Arr):
        return xs
    if axis is None:
        return A.concatenate([asarr(x).ravel() for x in xs])
    return A.concatenate(list(xs), axis)


def seq(xs):
    if hasattr(xs, "_hstack"):
        return xs._hstack()
    return xs


@fn()
def hstack(xs):
    if hasattr(xs, "_hstack"):
        return xs._hstack()
    xs = [asarr(x) for x in xs]
    xs = [x.reshape(1) if x.ndim == 0 else x for x in xs]
    return A.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@fn()
def vstack(xs):
    xs = [asarr(x) for x in xs]
    xs = [x[None, :] if x.ndim == 1 else x for x in xs]
    return A.concatenate(xs, 0)


@fn()
def stack(xs, axis=0):
    a = A.stack([asarr(x) for x in xs])
    if axis == 0:
        return a
    axis = axis % a.ndim
    perm = list(range(1, a.ndim))
    perm.insert(axis, 0)
    return a.transpose(*perm)


@fn()
def split(a, where_, axis=0):
    a = asarr(a)
    if isinstance(where_, (list, tuple)):
        cuts = list(where_)
    elif isinstance(where_, Arr) and where_.ndim == 1 and not isz(where_._shape[0]):
        cuts = list(where_)
    else:
        raise K.Unsupported("np.split into equal parts")
    out, lo = [], 0
    for q in cuts + [None]:
        s = slice(lo, q)
        out.append(a[s])
        lo = q
    return out


@fn()
def tile(a, reps):
    a = asarr(a)
    if not isinstance(reps, (tuple, list)):
        reps = (reps,)
    reps = [A.rawdim(r) for r in reps]
    nd = max(len(reps), a.ndim)
    reps = [1] * (nd - len(reps)) + reps
    a = a.reshape(*([1] * (nd - a.ndim) + list(a._shape))) if a.ndim < nd else a
    g = a.getter()
    for r, d in zip(reps, a._shape):
        if isz(r) and not (not isz(d) and d == 1):
            if isz(d):
                raise K.Unsupported("tile of a symbolic dimension")
    sh = [norm(MUL(r, d)) for r, d in zip(reps, a._shape)]

    def f(ix):
        o = []
        for i, r, d in zip(ix, reps, a._shape):
            if not isz(r) and r == 1:
                o.append(i)
            elif not isz(d) and d == 1:
                o.append(0)
            elif not isz(d):
                o.append(A.divmod_c(i, d)[1])
            else:
                t = i
                for q in range(r - 1, 0, -1):
                    t = ITE(LE(MUL(q, d), i), SUB(i, MUL(q, d)), t) if q == r - 1 else t
                if r != 2:
                    raise K.Unsupported("tile of a symbolic dimension")
                o.append(ITE(LT(i, d), i, SUB(i, d)))
        return g(*o)
    return Arr(sh, a.k, f)


np.repeat = A.repeat


@fn()
def roll(a, shift, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise K.Unsupported("roll of a 2-D array")
    if isinstance(shift, Sc) and isz(shift.t):
        raise K.Unsupported("symbolic roll")
    n, g, s = a._shape[0], a.getter(), int(shift)
    if not isz(n):
        return Arr((n,), a.k, lambda ix: g(A.divmod_c(norm(SUB(ix[0], s)), n)[1] if isz(ix[0]) else (ix[0] - s) % n))

    def f(ix):
        i = ix[0]
        t = norm(SUB(i, s))
        if abs(s) > 1:
            raise K.Unsupported("roll by more than one")
        if s == -1:
            return g(ITE(LT(t, n), t, 0))
        if s == 1:
            return g(ITE(LE(0, t), t, SUB(n, 1)))
        return g(i)
    return Arr((n,), a.k, f)


@fn()
def resize(a, shape):
    raise K.Unsupported("np.resize")


np.sort = A.sort


@fn("argsort")
def _argsort(a, axis=-1, kind=None):
    if hasattr(a, "_as_arr"):
        a = a._as_arr()
    return A.argsort(a, axis, kind)


@fn("unique")
def _unique(a, **k):
    if k:
        raise K.Unsupported("np.unique options")
    return A.unique(a)


@fn("all")
def _all(a, axis=None):
    a = asarr(a)
    return A.reduce_bool(a, axis, True) if a.ndim else a.at().astype(bool)


@fn("any")
def _any(a, axis=None):
    a = asarr(a)
    return A.reduce_bool(a, axis, False) if a.ndim else a.at().astype(bool)


def _redirect(name, meth=None):
    def f(a, *args, **k):
        if hasattr(a, "_sparse"):
            return getattr(a, meth or name)(*args, **k)
        a = asarr(a)
        if a.ndim == 0:
            a = a.reshape(1)
        return getattr(a, meth or name)(*args, **k)
    setattr(np, name, f)


for _n in ("min", "max", "sum", "prod", "mean", "transpose", "swapaxes", "reshape", "squeeze"):
    _redirect(_n)
_redirect("amin", "min")
_redirect("amax", "max")


@fn("ravel")
def _ravel(a, order="C"):
    return asarr(a).ravel(order)


def ew1(name, f, k=None):
    def g(a):
        if isinstance(a, Sc) or lift(a) is not None:
            return f(lift(a))
        if hasattr(a, "_map"):
            return a._map(f, k)
        a = asarr(a)
        return A.unary(f, a, k or a.k)
    setattr(np, name, g)


for _n, _f, _k in (("abs", K.absolute, None), ("absolute", K.absolute, None), ("fabs", K.absolute, None), ("sqrt", K.sqrt, "r"), ("cos", K.cos, "r"),
                   ("sin", K.sin, "r"), ("negative", K.neg, None), ("square", lambda a: K.mul(a, a), None),
                   ("isnan", lambda a: Sc(K.num(a).nan, "b"), "b"),
                   ("isinf", lambda a: Sc(OR(K.num(a).pinf, K.num(a).ninf), "b"), "b"),
                   ("isposinf", lambda a: Sc(K.num(a).pinf, "b"), "b"),
                   ("isfinite", lambda a: Sc(K.num(a).fin, "b"), "b"),
                   ("logical_not", lambda a: Sc(NOT(K.cast(a, "b").t), "b"), "b")):
    ew1(_n, _f, _k)


@fn()
def real(a):
    if hasattr(a, "_sparse"):
        return a
    return asarr(a) if not isinstance(a, Sc) else a


def ew2(name, f):
    def g(a, b):
        x, y = lift(a), lift(b)
        if x is not None and y is not None:
            return K.divtop(x, y) if f is K.div else f(x, y)
        return A.elementwise(f, asarr(a), asarr(b))
    setattr(np, name, g)
    return g


for _n, _f in (("equal", K.eq), ("not_equal", K.ne), ("less", K.lt), ("less_equal", K.le), ("greater", K.gt), ("greater_equal", K.ge),
               ("minimum", K.minimum), ("maximum", K.maximum), ("add", K.add), ("subtract", K.sub), ("multiply", K.mul),
               ("divide", K.div), ("true_divide", K.div), ("logical_and", K.land), ("logical_or", K.lor), ("power", K.power)):
    ew2(_n, _f)


@fn()
def where(c, a=None, b=None):
    c = asarr(c)
    if a is None:
        return c.nonzero()
    a, b = asarr(a), asarr(b)
    sh = A.bshape(c._shape, a._shape, b._shape)
    ms = [A.bcast_map(x._shape, sh) for x in (c, a, b)]
    gs = [x.getter() for x in (c, a, b)]
    k = a.k if a.k == b.k else "r" if "r" in (a.k, b.k) else "i"
    if not sh:
        return K.where(gs[0]().t, A.cast(gs[1](), k), A.cast(gs[2](), k))
    return Arr(sh, k, lambda ix: K.where(K.cast(gs[0](*ms[0](ix)), "b").t, A.cast(gs[1](*ms[1](ix)), k), A.cast(gs[2](*ms[2](ix)), k)))


@fn()
def clip(a, lo, hi):
    return np.minimum(np.maximum(a, lo), hi)


@fn()
def flatnonzero(a):
    return asarr(a).ravel().nonzero()[0]


@fn()
def nonzero(a):
    return asarr(a).nonzero()


@fn()
def count_nonzero(a):
    return A.wrapint(A.compress_of(A.as_mask(asarr(a))).m)


@fn()
def diff(a, n=1, axis=-1):
    a = asarr(a)
    if n != 1:
        raise K.Unsupported("diff of order {}".format(n))
    axis = axis % a.ndim
    hi = tuple(slice(1, None) if p == axis else slice(None) for p in range(a.ndim))
    lo = tuple(slice(None, -1) if p == axis else slice(None) for p in range(a.ndim))
    return a[hi] - a[lo]


@fn()
def triu_indices(n, k=0, m=None):
    """all pairs (i, j) with j >= i + k, in row-major order"""
    n = A.rawdim(n)
    if not isinstance(k, int):
        raise K.Unsupported("triu_indices offset")
    if m is not None:
        raise K.Unsupported("triu_indices m")
    c = ctx()
    if not isz(n) and n <= max(k, 0):
        z = lambda: Arr((0,), "i", lambda ix: Sc(0, "i"))
        return (z(), z())
    key = ("triu", dkey(n), k)
    if key not in c.memo:
        T = c.int("n_pairs")
        ti = c.leaf("tri_i", [T], K.I_)
        tj = c.leaf("tri_j", [T], K.I_)
        tk = c.leaf("tri_k", [n, n], K.I_)
        Z = K.toint
        c.assume(LE(0, T))
        c.forall([T], lambda t: AND(inr(ti(Z(t)), n), inr(tj(Z(t)), n), LE(ADD(ti(Z(t)), k), tj(Z(t))), EQ(tk(ti(Z(t)), tj(Z(t))), t)), "triu")
        c.forall([n, n], lambda i, j: IMP(LE(ADD(i, k), j), AND(inr(tk(Z(i), Z(j)), T), EQ(ti(tk(Z(i), Z(j))), i), EQ(tj(tk(Z(i), Z(j))), j))), "triu-all")
        # row-major order
        c.forall([T, T], lambda s, t: IMP(LT(s, t), OR(LT(ti(Z(s)), ti(Z(t))), AND(EQ(ti(Z(s)), ti(Z(t))), LT(tj(Z(s)), tj(Z(t)))))), "triu-order",
                 trig=lambda a, b: a.get_id() != b.get_id())
        c.memo[key] = (T, ti, tj)
    T, ti, tj = c.memo[key]
    return (Arr((T,), "i", lambda ix: Sc(ti(K.toint(ix[0])), "i")), Arr((T,), "i", lambda ix: Sc(tj(K.toint(ix[0])), "i")))


np.take_along_axis = A.take_along_axis


@fn()
def ix_(rows, cols):
    return A.IxKey(asarr(rows), asarr(cols))


@fn()
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return _all(isclose(a, b, rtol, atol))


@fn()
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = lift(rtol), lift(atol)

    def f(x, y):
        x, y = K.num(x), K.num(y)
        near = K.le(K.absolute(K.sub(x, y)), K.add(at, K.mul(rt, K.absolute(y)))).t
        if x.sp or y.sp:
            return Sc(OR(AND(x.fin, y.fin, near), AND(x.pinf, y.pinf), AND(x.ninf, y.ninf)), "b")
        return Sc(near, "b")
    a, b = asarr(a), asarr(b)
    sh = A.bshape(a._shape, b._shape)
    ma, mb, ga, gb = A.bcast_map(a._shape, sh), A.bcast_map(b._shape, sh), a.getter(), b.getter()
    if not sh:
        return f(ga(), gb())
    return Arr(sh, "b", lambda ix: f(ga(*ma(ix)), gb(*mb(ix))))


@fn()
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim or not all(A.samedim(p, q) for p, q in zip(a._shape, b._shape)):
        return False
    return _all(a == b)


@fn()
def cross(a, b):
    a, b = asarr(a), asarr(b)
    if a._shape[-1] != 3 or b._shape[-1] != 3 or a.ndim > 1 or b.ndim > 1:
        raise K.Unsupported("cross product of these shapes")
    x, y = [a.at(i) for i in range(3)], [b.at(i) for i in range(3)]
    m = lambda p, q: K.sub(K.mul(x[p], y[q]), K.mul(x[q], y[p]))
    return asarr([m(1, 2), m(2, 0), m(0, 1)])


@fn()
def dot(a, b):
    return asarr(a) @ asarr(b)


np.matmul = dot


@fn()
def einsum(*a, **k):
    raise K.Unsupported("einsum")


@fn("round")
def _round(a, decimals=0):
    # rounding to 9 decimals only undoes rounding errors: in exact arithmetic an
    # integer is unchanged, any other value moves by at most half a unit
    v = lift(a)
    if v is not None and not isz(v.t):
        return Sc(Fraction(round(Fraction(v.t), decimals)), "r", v.sp)
    if decimals < 6:
        raise K.Unsupported("rounding")
    RND = z3.Function("round{}".format(decimals), K.R_, K.R_)

    def f(x):
        if x.k != "r":
            return x
        c = ctx()
        t = K.toreal(x.t)
        def go(u):
            if u.decl().kind() == z3.Z3_OP_ITE:
                return z3.If(u.arg(0), go(u.arg(1)), go(u.arg(2)))
            return u if u.decl().kind() == z3.Z3_OP_TO_REAL else RND(u)
        return Sc(go(t), "r", x.sp)
    np_rounds.add(decimals)
    return f(v) if v is not None else A.unary(f, asarr(a))


np_rounds = set()
np.around = _round


@fn()
def atleast_1d(a):
    a = asarr(a)
    return a.reshape(1) if a.ndim == 0 else a


@fn()
def expand_dims(a, axis):
    a = asarr(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


@fn()
def ndim(a):
    return asarr(a).ndim


@fn()
def shape(a):
    return asarr(a).shape


@fn()
def isscalar(a):
    return lift(a) is not None


@fn("copy")
def _copy(a):
    return asarr(a).copy()


@fn()
def hypot(a, b):
    return np.sqrt(a * a + b * b)


@fn()
def isin(a, b):
    raise K.Unsupported("isin")


@fn("size")
def _size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


@fn()
def fill_diagonal(*a):
    raise K.Unsupported("fill_diagonal")


# ------------------------------------------------------------------- linalg
linalg = types.ModuleType("numpy.linalg")
np.linalg = linalg


class LinAlgError(ValueError):
    pass


linalg.LinAlgError = LinAlgError


def _norm(a, ord=None, axis=None):
    a = asarr(a)
    if ord not in (None, 2):
        raise K.Unsupported("norm order")
    if hasattr(a, "_norm"):
        return a._norm()
    if axis is None and any(isz(d) for d in a._shape):
        return sym_norm(a)
    s = (a * a).sum(axis=axis)
    return np.sqrt(s)


def sym_norm(a):
    """2-norm of a symbolic vector: non-negative and at least every |component|"""
    if a.ndim != 1:
        raise K.Unsupported("norm of a symbolic matrix")
    c = ctx()
    r = c.real("norm")
    c.assume(r >= 0)
    g = a.getter()
    nan = c.bool("norm_nan") if g(K.canon(dkey(a._shape[0]), 0)).sp else False
    v = Sc(r, "r", K.osp(nan, False, False))
    if isz(nan):
        raise K.Unsupported("norm of a vector with special values")
    c.forall(a._shape, lambda i: LE(K.absolute(g(i)).t, r), "norm")
    c.rep.trusted.add("numpy.linalg.norm of a vector is at least the absolute value of each component")
    return v


linalg.norm = _norm


def _det(a):
    a = asarr(a)
    if a.ndim < 2 or a._shape[-1] != a._shape[-2]:
        lib_raise(LinAlgError("Last 2 dimensions of the array must be square"))
    n = a._shape[-1]
    g = a.getter()
    if n == 2:
        f = lambda ix: K.sub(K.mul(g(*ix, 0, 0), g(*ix, 1, 1)), K.mul(g(*ix, 0, 1), g(*ix, 1, 0)))
    elif n == 1:
        f = lambda ix: g(*ix, 0, 0)
    else:
        raise K.Unsupported("det of this size")
    if a.ndim == 2:
        return f(())
    return Arr(a._shape[:-2], a.k, lambda ix: f(ix))


linalg.det = _det


def _solve(a, b):
    """2x2 systems: x with A x = b, defined where det(A) != 0 (LinAlgError else)."""
    a, b = asarr(a), asarr(b)
    n = a._shape[-1]
    if n != 2 or a._shape[-2] != 2:
        raise K.Unsupported("solve of this size")
    if b.ndim == a.ndim - 1:
        raise K.Unsupported("numpy 2 treats b of one dimension less as a matrix")
    d = _det(a)
    if a.ndim == 2:
        if not ctx().decide(NE(d.t, 0)):
            lib_raise(LinAlgError("Singular matrix"))
    else:
        g = d.getter()
        B = ctx().forall_bool(d._shape, lambda *ix: NE(g(*ix).t, 0), "regular")
        if not ctx().decide(B):
            lib_raise(LinAlgError("Singular matrix"))
    sh = A.bshape(a._shape[:-2], b._shape[:-2])
    ga, gb = a.getter(), b.getter()
    ma, mb = A.bcast_map(a._shape[:-2], sh), A.bcast_map(b._shape[:-2], sh)
    m = b._shape[-1]
    c = ctx()
    if isz(m) or len(sh) > 1 and False:
        raise K.Unsupported("solve with a symbolic number of right-hand sides")
    X = c.leaf("solution", list(sh) + [0, 0], K.R_)
    c.leafdom[X.get_id()] = [dkey(q) for q in sh] + [None, None]

    def x(ix, i, j):
        return X(*[K.toint(q) for q in ix], K.toint(i), K.toint(j))

    def eqs(*ix):
        out = []
        for j in range(m):
            for r in range(2):
                lhs = 0
                for q in range(2):
                    lhs = ADD(lhs, MUL(ga(*ma(ix), r, q).t, x(ix, q, j)))
                out.append(EQ(lhs, gb(*mb(ix), r, j).t))
        return AND(*out)
    c.forall(list(sh), eqs, "solve") if sh else c.assume(eqs())
    return Arr(tuple(sh) + (2, m), "r", lambda ix: Sc(x(ix[:-2], ix[-2], ix[-1]), "r"))


linalg.solve = _solve


def _inv(a):
    return _solve(a, np.eye(2))


linalg.inv = _inv


@fn()
def eye(n):
    n = A.rawdim(n)
    return Arr((n, n), "r", lambda ix: Sc(ITE(EQ(ix[0], ix[1]), Fraction(1), Fraction(0)), "r"))


np.identity = eye

# -------------------------------------------------------------------- random
random = types.ModuleType("numpy.random")
np.random = random
U01 = z3.Function("U01", K.I_, K.I_, K.I_, K.R_)     # generator stream, position -> [0,1)


def _rng_state():
    c = ctx()
    if "rng" not in c.state:
        c.state["rng"] = [c.int("rng_state"), 0]
    return c.state["rng"]


def _seed(s=None):
    c = ctx()
    if s is None:
        c.state["rng"] = [c.int("rng_entropy"), 0]
        return
    v = lift(s)
    if v is None or v.k != "i":
        raise K.Unsupported("seed of this type")
    SEED = z3.Function("seeded", K.I_, K.I_)
    c.state["rng"] = [SEED(K.toint(v.t)), 0]


random.seed = _seed


def _draw(n):
    """n uniform numbers of [0,1): consecutive entries of the generator stream"""
    c = ctx()
    st = _rng_state()
    s, pos = st
    c.log.append(("draw", s, pos, n))
    st[1] = norm(ADD(pos, n))
    c.leafdom.setdefault(U01.get_id(), [None, None, None])
    g = c.leaf("draw", [n], K.R_)
    # element i of this draw is the stream value at pos + i
    def val(i):
        return U01(K.toint(s), K.toint(norm(pos)), K.toint(i))
    c.leafdom[U01.get_id()] = [None, None, None]
    c.forall([n], lambda i: AND(LE(0, val(i)), LT(val(i), 1)), "uniform")
    return lambda i: Sc(val(i), "r")


def _uniform(low=0., high=1., size=None):
    lo, hi = lift(low), lift(high)
    if lo is None or hi is None:
        raise K.Unsupported("uniform with array bounds")
    if size is None:
        f = _draw(1)
        v = f(0)
        return K.add(lo, K.mul(K.sub(hi, lo), v))
    sh = shape_of(size)
    if len(sh) == 1:
        neg_check(sh)
        f = _draw(sh[0])
        return Arr(sh, "r", lambda ix: K.add(lo, K.mul(K.sub(hi, lo), f(ix[0]))))
    if len(sh) == 2 and not isz(sh[1]):
        f = _draw(norm(MUL(sh[0], sh[1])))
        return Arr(sh, "r", lambda ix: K.add(lo, K.mul(K.sub(hi, lo), f(A.ravel_index(ix, sh)))))
    if len(sh) == 2 and not isz(sh[0]):
        fs = [_draw(sh[1]) for _ in range(sh[0])]
        return A.stack([Arr((sh[1],), "r", (lambda f: lambda ix: K.add(lo, K.mul(K.sub(hi, lo), f(ix[0]))))(f)) for f in fs])
    raise K.Unsupported("uniform of this shape")


random.uniform = _uniform
random.rand = lambda *n: _uniform(0., 1., n if n else None)
random.random = lambda size=None: _uniform(0., 1., size)
random.random_sample = random.random
