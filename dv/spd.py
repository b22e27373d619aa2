"""Contract of the pandas 2.3 objects and operations used."""
import types
import copy as _copy

import z3

from . import core as K
from . import arr as A
from .arr import Arr, asarr, Dtype, samedim
from .core import Sc, AND, OR, NOT, IMP, IFF, ITE, ADD, SUB, MUL, EQ, NE, LT, LE, lift, isz, inr, ctx, dkey, norm, lib_raise
from .snp import np

pd = types.ModuleType("pandas")


def deep(x):
    if isinstance(x, dict):
        return x._deep() if hasattr(x, "_deep") else {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    if isinstance(x, Arr):
        return x.copy()
    return x


def colop(f, a, b):
    r = A.elementwise(f, a, b)
    return r if isinstance(r, Arr) else A.scalar_arr(r)


OPS = dict(add=K.add, sub=K.sub, mul=K.mul, truediv=K.div, floordiv=K.floordiv, mod=K.mod, pow=K.power, lt=K.lt, le=K.le, gt=K.gt, ge=K.ge,
           eq=K.eq, ne=K.ne)
OPS["and"] = K.land
OPS["or"] = K.lor


def content_key(a):
    """hashable canonical content of a 1-D array"""
    n = a._shape[0]
    e = a.at(K.canon(dkey(n), 0))
    if isz(e.t):
        K.keep(e.t)
    return (dkey(n), A.rid(e.t), str(e.sp), e.k)


# --------------------------------------------------------------------- Index

class Index:
    def __init__(self, a, name=None):
        self._a = asarr(a) if not isinstance(a, Arr) else a
        self.name = name

    _as_arr = lambda self: self._a

    @property
    def n(self):
        return self._a._shape[0]

    @property
    def values(self):
        return self._a

    array = values

    def to_numpy(self, *a, **k):
        return self._a

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def shape(self):
        return self._a.shape

    @property
    def size(self):
        return self._a.size

    def slen(self):
        return A.wrapint(self.n)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter(self._a)

    def __getitem__(self, key):
        r = self._a[key]
        return Index(r) if isinstance(r, Arr) and r.ndim == 1 else r

    def is_range(self):
        """are the labels provably 0..n-1 in order?"""
        c = ctx()
        key = ("isrange", content_key(self._a), c.stamp())
        if key not in c.memo:
            n = self.n
            if not isz(n):
                c.memo[key] = all((not isz(self._a.at(i).t)) and self._a.at(i).t == i for i in range(n))
            else:
                s = c.int("lab")
                v = self._a.at(s)
                g = AND(EQ(v.t, s), v.fin)
                if not isz(g):
                    c.memo[key] = bool(g)
                else:
                    c.memo[key] = c.refute([inr(s, n), NOT(g)], 3, 6000, touch=[(n, s)])[0] == "unsat"
        return c.memo[key]

    def position(self, labels):
        """labels: Arr -> Arr of positions; KeyError when a label is absent."""
        c = ctx()
        if labels.k not in "ir":
            raise K.Unsupported("label lookup with this type")
        g = labels.getter()
        n = self.n
        if self.is_range():
            B = c.forall_bool(labels._shape, lambda *q: AND(inr(g(*q).t, n), g(*q).fin), "labels_present")
            if not c.known(B) and not c.decide(B):
                lib_raise(KeyError("label not found in the index"))
            return Arr(labels._shape, "i", lambda ix: K.cast(g(*ix), "i")) if labels.k != "i" else labels
        key = ("pos", content_key(self._a))
        h = self._a.getter()
        if key not in c.memo:
            w = [c.int("lab"), c.int("lab")]
            r = c.refute([inr(w[0], n), inr(w[1], n), LT(w[0], w[1]), K.ident(h(w[0]), h(w[1]))], 3, 6000, touch=[(n, w[0]), (n, w[1])])[0]
            if r != "unsat":
                raise K.Unsupported("label lookup in an index with possibly repeated labels")
            P = z3.Function(c.fresh("label_position"), K.R_, K.I_)
            c.alive.append(P)
            c.forall([n], lambda i: EQ(P(K.toreal(h(i).t)), i), "label-position")
            c.memo[key] = P
        P = c.memo[key]
        loc = lambda *q: P(K.toreal(g(*q).t))
        B = c.forall_bool(labels._shape, lambda *q: AND(inr(loc(*q), n), K.ident(h(loc(*q)), g(*q))), "labels_present")
        if not c.known(B) and not c.decide(B):
            lib_raise(KeyError("label not found in the index"))
        return Arr(labels._shape, "i", lambda ix: Sc(loc(*ix), "i"))

    def equals(self, o):
        return Sc(c_equal(self, o), "b") if not self is o else True

    def same(self, o):
        """provably the same labels in the same order"""
        if self is o:
            return True
        if isz(self.n) != isz(o.n) or dkey(self.n) != dkey(o.n):
            if not samedim(self.n, o.n):
                return False
        if content_key(self._a) == content_key(o._a):
            return True
        c = ctx()
        s = c.int("lab")
        return c.refute([inr(s, self.n), NOT(K.ident(self._a.at(s), o._a.at(s)))], 2, 3000, touch=[(self.n, s)])[0] == "unsat"

    def _cmp(self, op, o):
        return self._a._op(op, o)

    def __hash__(self):
        return id(self)

    def astype(self, t):
        return Index(self._a.astype(t))

    def unique(self):
        raise K.Unsupported("Index.unique")

    def tolist(self):
        return self._a.tolist()

    def min(self):
        return self._a.min()

    def max(self):
        return self._a.max()

    def argsort(self):
        return self._a.argsort()

    def copy(self):
        return Index(self._a.copy())

    @property
    def is_unique(self):
        u = A.unique(self._a)
        return Sc(EQ(u._shape[0], self.n), "b")

    @property
    def has_duplicates(self):
        return ~self.is_unique

    def duplicated(self):
        raise K.Unsupported("Index.duplicated")

    def isin(self, o):
        raise K.Unsupported("Index.isin")

    def repeat(self, n):
        return Index(A.repeat(self._a, n))

    def reshape(self, *a):
        return self._a.reshape(*a)


for _n, _f in OPS.items():
    def _mk(f):
        return (lambda self, o: self._a._op(f, asarr(o) if hasattr(o, "_as_arr") else o),
                lambda self, o: self._a._op(f, asarr(o) if hasattr(o, "_as_arr") else o, True))
    _d, _r = _mk(_f)
    if _n in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(Index, "__{}__".format(_n), _d)
    else:
        setattr(Index, "__{}__".format(_n), _d)
        setattr(Index, "__r{}__".format(_n), _r)


def range_index(n):
    return Index(Arr((n,), "i", lambda ix: Sc(ix[0], "i")))


# -------------------------------------------------------------------- Series

class _LocS:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, key):
        s = self.s
        k = unwrap(key)
        if isinstance(k, Arr):
            if k.k == "b":
                return s[k]
            pos = s.index.position(k)
            return Series(s._a[pos], Index(k))
        if isinstance(key, slice):
            raise K.Unsupported("label slice")
        pos = s.index.position(A.scalar_arr(lift(key)).reshape(1))
        return s._a.at(pos.at(0).t)

    def __setitem__(self, key, v):
        s = self.s
        k = unwrap(key)
        if isinstance(k, Arr) and k.k == "b":
            s._a[k] = unwrap(v)
            return
        pos = s.index.position(k if isinstance(k, Arr) else A.scalar_arr(lift(key)).reshape(1))
        s._a[pos] = unwrap(v)


class _ILocS:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, key):
        s = self.s
        key = unwrap(key)
        r = s._a[key]
        if isinstance(r, Arr):
            return Series(r, Index(s.index._a[key]))
        return r

    def __setitem__(self, key, v):
        self.s._a[unwrap(key)] = unwrap(v)


def unwrap(x):
    if isinstance(x, (Series, Index)):
        return x._as_arr()
    if isinstance(x, (DataFrame, Applied)):
        return x._as_arr()
    if isinstance(x, list):
        if x and all(isinstance(e, str) for e in x):
            return x
        return asarr(x)
    return x


class Series:
    __array_ufunc__ = None

    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index = index or data.index
            data = data._a
        a = asarr(data)
        if a.ndim != 1:
            raise K.Unsupported("Series of {} dimensions".format(a.ndim))
        if dtype is not None:
            a = a.astype(dtype)
        self._a = a
        self.index = index if isinstance(index, Index) else (Index(asarr(index)) if index is not None else range_index(a._shape[0]))
        self.name = name
        self.attrs = {}

    def _as_arr(self):
        return self._a

    @property
    def values(self):
        return self._a

    def to_numpy(self, *a, **k):
        return self._a

    @property
    def array(self):
        return self._a

    @property
    def dtype(self):
        return self._a.dtype

    @property
    def shape(self):
        return self._a.shape

    @property
    def size(self):
        return self._a.size

    def slen(self):
        return self._a.slen()

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter(self._a)

    def __hash__(self):
        return id(self)

    @property
    def loc(self):
        return _LocS(self)

    @property
    def iloc(self):
        return _ILocS(self)

    def __getitem__(self, key):
        k = unwrap(key)
        if isinstance(k, Arr) and k.k == "b":
            if isinstance(key, Series) and not key.index.same(self.index):
                raise K.Unsupported("boolean Series with another index")
            return Series(self._a[k], Index(self.index._a[k]))
        if isinstance(key, slice):
            return Series(self._a[key], Index(self.index._a[key]))
        return _LocS(self)[key]

    def __setitem__(self, key, v):
        if isinstance(key, slice) and key == slice(None):
            self._a[:] = unwrap(v)
            return
        _LocS(self)[key] = v

    def _bin(self, f, o, rev=False):
        if isinstance(o, Series):
            if not self.index.same(o.index):
                raise K.Unsupported("operation on Series with different indices")
            b = o._a
        elif isinstance(o, DataFrame):
            return NotImplemented
        else:
            b = asarr(o, strict=False) if not isinstance(o, Index) else o._a
            if b is None:
                return NotImplemented
        if b.ndim == 1 and f is not None and not (not isz(b._shape[0]) and b._shape[0] == 1 and False):
            if not samedim(b._shape[0], self._a._shape[0]):
                lib_raise(ValueError("operands could not be broadcast together"))
        r = A.elementwise(f, b, self._a) if rev else A.elementwise(f, self._a, b)
        return Series(r, self.index, self.name)

    def _iop(self, f, o):
        r = self._bin(f, o)
        if r._a.k == self._a.k:
            self._a._store(r._a)
            return self
        return r

    def __iadd__(self, o):
        return self._iop(K.add, o)

    def __isub__(self, o):
        return self._iop(K.sub, o)

    def __imul__(self, o):
        return self._iop(K.mul, o)

    def __itruediv__(self, o):
        return self._iop(K.div, o)

    def __neg__(self):
        return Series(-self._a, self.index)

    def __invert__(self):
        return Series(~self._a, self.index)

    def __abs__(self):
        return Series(abs(self._a), self.index)

    abs = __abs__

    def _map(self, f, k=None):
        return Series(A.unary(f, self._a, k), self.index, self.name)

    def astype(self, t):
        return Series(self._a.astype(t), self.index, self.name)

    def copy(self, deep=True):
        return Series(self._a.copy(), self.index, self.name)

    def _red(self, name):
        n = self._a._shape[0]
        c = ctx()
        pos = LT(0, n)
        if not (isz(pos) and c.known(pos)) and not c.decide(pos):
            return Sc(0, "r", (True, False, False))       # nan on an empty Series
        e = self._a.at(K.canon(dkey(n), 0))
        if e.sp and (isz(e.nan) or e.nan):
            raise K.Unsupported("min/max of a Series that may hold nan")
        return getattr(self._a, name)()

    def min(self, *a, **k):
        return self._red("min")

    def max(self, *a, **k):
        return self._red("max")

    def sum(self, *a, **k):
        return self._a.sum()

    def mean(self, *a, **k):
        return self._a.mean()

    def prod(self, *a, **k):
        return self._a.prod()

    def all(self, *a, **k):
        return self._a.all()

    def any(self, *a, **k):
        return self._a.any()

    def unique(self):
        raise K.Unsupported("Series.unique")

    def tolist(self):
        return self._a.tolist()

    def to_list(self):
        return self._a.tolist()

    def reset_index(self, drop=False):
        if not drop:
            raise K.Unsupported("reset_index keeping the labels")
        return Series(self._a.copy())

    def sort_values(self):
        raise K.Unsupported("Series.sort_values")

    def isna(self):
        return self._map(lambda v: Sc(v.nan, "b"), "b")

    def items(self):
        raise K.Unsupported("iteration over a Series")

    @property
    def T(self):
        return self

    def between(self, lo, hi):
        return (self >= lo) & (self <= hi)

    @property
    def is_monotonic_increasing(self):
        g, n = self._a.getter(), self._a._shape[0]
        c = ctx()
        b = c.forall_bool([n, n], lambda i, j: IMP(LT(i, j), K.le(g(i), g(j)).t), "monotonic")
        return Sc(b, "b")

    def __bool__(self):
        lib_raise(ValueError("The truth value of a Series is ambiguous."))

    def __matmul__(self, o):
        return self._a @ asarr(o)

    def __rmatmul__(self, o):
        return asarr(o) @ self._a


for _n, _f in OPS.items():
    def _mk(f):
        return (lambda self, o: self._bin(f, o)), (lambda self, o: self._bin(f, o, True))
    _d, _r = _mk(_f)
    setattr(Series, "__{}__".format(_n), _d)
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(Series, "__r{}__".format(_n), _r)


class Row:
    """df.loc[i]: one row, entries by column name."""

    def __init__(self, cols, vals, name=None):
        self.__dict__["_v"] = dict(zip(cols, vals))
        self.__dict__["name"] = name

    def __getattr__(self, k):
        if k in self.__dict__["_v"]:
            return self._v[k]
        raise AttributeError(k)

    def __getitem__(self, k):
        if isinstance(k, list):
            for q in k:
                if q not in self._v:
                    lib_raise(KeyError(q))
            return Row(k, [self._v[q] for q in k])
        if k not in self._v:
            lib_raise(KeyError(k))
        return self._v[k]

    def astype(self, t):
        k = Dtype.of(t).k
        return Row(self._v, [K.cast(v, k) for v in self._v.values()])

    @property
    def values(self):
        return asarr(list(self._v.values()))

    def to_numpy(self):
        return self.values

    def _as_arr(self):
        return self.values

    def __iter__(self):
        return iter(self._v.values())


# ----------------------------------------------------------------- DataFrame

class _Loc:
    def __init__(self, df, positional):
        self.df, self.pos = df, positional

    def rows(self, key):
        """-> ('one', position) or ('many', key usable on arrays)"""
        df = self.df
        k = unwrap(key)
        if isinstance(k, slice):
            if k == slice(None) or self.pos:
                return "many", k
            raise K.Unsupported("label slice")
        if isinstance(k, Arr) and k.ndim:
            if k.k == "b":
                return "many", k
            return "many", (k if self.pos else df.index.position(k))
        if self.pos:
            return "one", A.index_term(k, df._n)
        p = df.index.position(A.scalar_arr(lift(k)).reshape(1))
        return "one", p.at(0).t

    def __getitem__(self, key):
        df = self.df
        cols = None
        if isinstance(key, tuple):
            key, cols = key
        how, p = self.rows(key)
        if cols is not None and self.pos:
            names = list(df._cols)
            if isinstance(cols, int):
                cols = names[cols]
            elif isinstance(cols, slice):
                cols = names[cols]
            else:
                cols = [names[q] for q in cols]
        if how == "one":
            if cols is None:
                return Row(df._cols, [c.at(p) for c in df._cols.values()])
            if isinstance(cols, list):
                return Row(cols, [df._col(c).at(p) for c in cols])
            return df._col(cols).at(p)
        out = df._take(p)
        if cols is None or (isinstance(cols, slice) and cols == slice(None)):
            return out
        return out[cols]

    def __setitem__(self, key, v):
        df = self.df
        cols = None
        if isinstance(key, tuple):
            key, cols = key
        if cols is None:
            cols = list(df._cols)
        how, p = self.rows(key)
        names = [cols] if isinstance(cols, str) or not isinstance(cols, list) else cols
        if self.pos:
            allc = list(df._cols)
            names = [allc[q] for q in names]
        va = unwrap(v)
        va = asarr(va)
        for q, c in enumerate(names):
            a = df._col(c)
            x = va if va.ndim == 0 or len(names) == 1 or va.ndim == 1 and how == "many" else (va[..., q] if va.ndim > 1 or how == "one" else va)
            if how == "one":
                a[Sc(p, "i") if isz(p) else p] = x
            else:
                a[p] = x


class Columns(list):
    """Labels of the columns of a table; membership of a column whose presence
    is symbolic is decided when it is asked for."""

    def __init__(self, df):
        self._df = df
        und = [c for c, v in (df.__dict__.get("_pres") or {}).items() if v is not True]
        self._und = bool(und)
        list.__init__(self, df._cols)

    def _force(self):
        if self._und:
            self._und = False
            self[:] = self._df._names()
        return self

    def __contains__(self, c):
        return c in self._df if self._und else list.__contains__(self, c)

    def __iter__(self):
        self._force()
        return list.__iter__(self)

    def __len__(self):
        self._force()
        return list.__len__(self)

    def __getitem__(self, k):
        self._force()
        r = list.__getitem__(self, k)
        return r

    def __eq__(self, o):
        self._force()
        raise K.Unsupported("comparison of column labels")

    __ne__ = __eq__
    __hash__ = None

    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def values(self):
        return list(self)

    def isin(self, names):
        raise K.Unsupported("Index.isin")

    def difference(self, names, sort=None):
        return sorted(set(self) - set(names))

    def intersection(self, names, sort=None):
        return [c for c in self if c in names]

    @property
    def empty(self):
        return len(self) == 0


class DataFrame:
    __array_ufunc__ = None
    _metadata = ("_cols", "index", "_attrs_b")

    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None, **k):
        d = self.__dict__
        d["_attrs"] = None
        d["_idx"] = None
        if isinstance(data, DataFrame):
            d["_cols"] = dict(data._cols)
            # a shallow copy: columns share their buffers, replaced ones do not
            d["_cols"] = {c: view(a) for c, a in data._cols.items()}
            d["_pres"] = dict(data.__dict__.get("_pres") or {})
            d["_idx"] = data.index
            if columns is not None:
                sub = data[list(columns)]
                d["_cols"] = sub._cols
            if copy:
                d["_cols"] = {c: a.copy() for c, a in d["_cols"].items()}
            if index is not None:
                raise K.Unsupported("reindexing constructor")
            if dtype is not None:
                d["_cols"] = {c: a.astype(dtype) for c, a in d["_cols"].items()}
            return
        d["_pres"] = {}
        cols = {}
        if data is None:
            names = list(columns) if columns is not None else []
            n = 0 if index is None else A.rawdim(index_len(index))
            for c in names:
                cols[c] = Arr((n,), "r", lambda ix: Sc(0, "r", (True, False, False)))
        elif isinstance(data, dict):
            n = None
            for c, v in data.items():
                a = asarr(unwrap(v))
                if a.ndim == 1:
                    if n is None:
                        n = a._shape[0]
                    elif not samedim(n, a._shape[0]):
                        lib_raise(ValueError("All arrays must be of the same length"))
                    if isinstance(v, Series) and index is None:
                        index = v.index
                cols[c] = a.copy()
            if n is None:
                if index is None:
                    lib_raise(ValueError("If using all scalar values, you must pass an index"))
                n = A.rawdim(index_len(index))
            for c, a in cols.items():
                if a.ndim == 0:
                    v = a.at()
                    cols[c] = Arr((n,), v.k, (lambda v: lambda ix: v)(v))
            if columns is not None:
                cols = {c: cols[c] for c in columns}
        else:
            a = asarr(data)
            if a.ndim == 1:
                a = a[:, None]
            if a.ndim != 2:
                lib_raise(ValueError("Must pass 2-d input. shape"))
            if isz(a._shape[1]):
                raise K.Unsupported("a table with a symbolic number of columns")
            names = list(columns) if columns is not None else list(range(a._shape[1]))
            if len(names) != a._shape[1]:
                lib_raise(ValueError("Shape of passed values does not match columns"))
            n = a._shape[0]
            g = a.getter()
            for p, c in enumerate(names):
                cols[c] = Arr((n,), a.k, (lambda p: lambda ix: g(ix[0], p))(p))
        if dtype is not None:
            cols = {c: a.astype(dtype) for c, a in cols.items()}
        d["_cols"] = cols
        n = next(iter(cols.values()))._shape[0] if cols else (0 if index is None else A.rawdim(index_len(index)))
        if index is not None:
            d["_idx"] = index if isinstance(index, Index) else Index(asarr(unwrap(index)))
        else:
            d["_idx"] = range_index(n)

    # -- construction helpers
    @staticmethod
    def _make(cols, index, like=None, pres=None):
        df = DataFrame.__new__(DataFrame)
        df.__dict__.update(_cols=cols, _idx=index, _attrs=None, _pres=dict(pres or {}))
        if like is not None and like.attrs:
            df.attrs = deep(like.attrs)
        return df

    # -- attrs (base class)
    @property
    def attrs(self):
        if self.__dict__.get("_attrs") is None:
            self.__dict__["_attrs"] = {}
        return self.__dict__["_attrs"]

    @attrs.setter
    def attrs(self, v):
        self.__dict__["_attrs"] = v._copy() if hasattr(v, "_copy") else dict(v)

    # -- basics
    @property
    def _n(self):
        return self.index.n

    @property
    def index(self):
        return self.__dict__["_idx"]

    @index.setter
    def index(self, v):
        i = v if isinstance(v, Index) else Index(asarr(unwrap(v)))
        if not samedim(i.n, self._n):
            lib_raise(ValueError("Length mismatch"))
        self.__dict__["_idx"] = i

    @property
    def columns(self):
        return Columns(self)

    @columns.setter
    def columns(self, names):
        names = list(names)
        if len(names) != len(self._cols):
            lib_raise(ValueError("Length mismatch"))
        self.__dict__["_cols"] = dict(zip(names, self._cols.values()))

    def slen(self):
        return A.wrapint(self._n)

    def __len__(self):
        n = self._n
        if isz(n):
            raise K.Unsupported("len of a symbolic table in native code")
        return n

    @property
    def empty(self):
        return Sc(EQ(self._n, 0), "b") if isz(self._n) else self._n == 0

    @property
    def shape(self):
        return (A.wrapint(self._n), len(self._cols))

    @property
    def size(self):
        return A.wrapint(norm(MUL(self._n, len(self._cols))))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        lib_raise(ValueError("The truth value of a DataFrame is ambiguous."))

    def __iter__(self):
        return iter(self._names())

    def _names(self):
        """the labels of the columns, every undecided presence being decided"""
        if self._presence(None):
            return list(self._cols)
        return [c for c in self._cols if self._presence([c])]

    def __contains__(self, c):
        if c in self._cols and self._pres.get(c, True) is not True:
            return self._presence([c])
        return c in self._cols

    def keys(self):
        return Columns(self)

    def items(self):
        self._presence(None)
        return [(c, Series(a, self.index, c)) for c, a in self._cols.items()]

    def _presence(self, names):
        """symbolic tables: are all these columns present? (decides)"""
        pr = self.__dict__.get("_pres") or {}
        names = list(pr) if names is None else names
        conds = [pr[c] for c in names if c in pr and pr[c] is not True]
        if not conds:
            return True
        ok = ctx().decide(AND(*conds))
        if ok:
            for c in names:
                if c in pr:
                    pr[c] = True
        return ok

    def _col(self, c):
        if isinstance(c, Sc):
            raise K.Unsupported("symbolic column")
        if c not in self._cols or not self._presence([c]):
            lib_raise(KeyError(c))
        return self._cols[c]

    def __getattr__(self, k):
        if k.startswith("__") or k in ("_cols", "_idx", "_pres", "_attrs"):
            raise AttributeError(k)
        cols = self.__dict__.get("_cols") or {}
        if k in cols:
            if not self._presence([k]):
                raise lib_raise(AttributeError(k))
            return Series(cols[k], self.index, k)
        raise AttributeError("'DataFrame' object has no attribute '{}'".format(k))

    def __setattr__(self, k, v):
        cols = self.__dict__.get("_cols") or {}
        if k in cols and not isinstance(getattr(type(self), k, None), property):
            self[k] = v
        else:
            object.__setattr__(self, k, v)

    def __getitem__(self, key):
        if isinstance(key, (str, int)) and not isinstance(key, bool):
            return Series(self._col(key), self.index, key)
        if isinstance(key, (list, tuple)) and all(isinstance(c, (str, int)) and not isinstance(c, bool) for c in key):
            for c in key:
                if c not in self._cols:
                    lib_raise(KeyError("{} not in index".format(c)))
            if not self._presence(list(key)):
                lib_raise(KeyError("columns not in index"))
            return DataFrame._make({c: self._cols[c].copy() for c in key}, self.index, self)
        if isinstance(key, slice):
            return self._take(key)
        k = unwrap(key)
        if isinstance(k, Arr):
            if isinstance(key, DataFrame) or k.ndim != 1:
                raise K.Unsupported("indexing with a table")
            if k.k == "b":
                if isinstance(key, Series) and not key.index.same(self.index):
                    raise K.Unsupported("boolean Series with another index")
                if not samedim(k._shape[0], self._n):
                    lib_raise(ValueError("Item wrong length"))
                return self._take(k)
            lib_raise(KeyError("None of these labels are in the columns"))
        lib_raise(KeyError(key))

    def _take(self, k):
        cols = {c: a[k] for c, a in self._cols.items()}
        if isinstance(k, slice):
            cols = {c: a.copy() for c, a in cols.items()} if k != slice(None) else {c: view(a) for c, a in self._cols.items()}
        return DataFrame._make(cols, Index(self.index._a[k]), self, self.__dict__.get("_pres"))

    def __setitem__(self, key, v):
        if isinstance(key, list):
            if isinstance(v, DataFrame):
                if not v.index.same(self.index):
                    raise K.Unsupported("assignment of a table with another index")
                vals = list(v._cols.values())
            else:
                a = asarr(unwrap(v))
                vals = [a] * len(key) if a.ndim == 0 else [a[..., q] for q in range(a._shape[-1])]
            if len(vals) != len(key):
                lib_raise(ValueError("Columns must be same length as key"))
            for c, x in zip(key, vals):
                self._set(c, x)
            return
        if isinstance(key, (str, int)) and not isinstance(key, bool):
            if isinstance(v, Series) and not v.index.same(self.index):
                raise K.Unsupported("assignment of a Series with another index")
            self._set(key, asarr(unwrap(v)))
            return
        k = unwrap(key)
        if isinstance(k, Arr) and k.k == "b" and k.ndim == 1:
            for c, a in self._cols.items():
                a[k] = asarr(unwrap(v))
            return
        raise K.Unsupported("table assignment")

    def _set(self, c, a):
        n = self._n
        if not isinstance(a, Arr):
            a = asarr(a)
        if a.ndim == 0:
            x = a.at()
            b = Arr((n,), x.k, lambda ix: x)
        else:
            if a.ndim == 2 and not isz(a._shape[1]) and a._shape[1] == 1:
                a = a[:, 0]
            if a.ndim != 1:
                lib_raise(ValueError("Expected a 1D array"))
            if not self._cols and (not isz(n) and n == 0):
                self.__dict__["_idx"] = range_index(a._shape[0])
            elif not samedim(a._shape[0], n):
                lib_raise(ValueError("Length of values does not match length of index"))
            b = a.copy()
        self._cols[c] = b
        if c in (self.__dict__.get("_pres") or {}):
            self._pres[c] = True

    @property
    def loc(self):
        return _Loc(self, False)

    @property
    def iloc(self):
        return _Loc(self, True)

    @property
    def at(self):
        return _Loc(self, False)

    @property
    def iat(self):
        return _Loc(self, True)

    def _as_arr(self):
        self._presence(None)
        cols = list(self._cols.values())
        n = self._n
        if not cols:
            return Arr((n, 0), "r", lambda ix: Sc(0, "r"))
        k = cols[0].k if all(c.k == cols[0].k for c in cols) else ("o" if any(c.k == "o" for c in cols) or any(c.k == "b" for c in cols) else "r")
        gs = [c.getter() for c in cols]

        def fn(ix):
            i, p = ix
            if not isz(p):
                return A.cast(gs[p](i), k)
            out = A.cast(gs[-1](i), k)
            for q in range(len(gs) - 2, -1, -1):
                out = K.where(EQ(p, q), A.cast(gs[q](i), k), out)
            return out
        return Arr((n, len(cols)), k, fn)

    @property
    def values(self):
        return self._as_arr()

    def to_numpy(self, *a, **k):
        return self._as_arr()

    @property
    def dtypes(self):
        return {c: a.dtype for c, a in self._cols.items()}

    def copy(self, deep=True):
        cols = {c: (a.copy() if deep else view(a)) for c, a in self._cols.items()}
        return DataFrame._make(cols, self.index, self, self.__dict__.get("_pres"))

    def astype(self, t):
        if isinstance(t, dict):
            cols = {c: (a.astype(t[c]) if c in t else a.copy()) for c, a in self._cols.items()}
        else:
            cols = {c: a.astype(t) for c, a in self._cols.items()}
        return DataFrame._make(cols, self.index, self, self.__dict__.get("_pres"))

    def _bin(self, f, o, rev=False):
        if isinstance(o, DataFrame):
            if list(o._cols) != list(self._cols) or not self.index.same(o.index):
                raise K.Unsupported("operation on differently labelled tables")
            pair = [(a, o._cols[c]) for c, a in self._cols.items()]
        elif isinstance(o, Series):
            raise K.Unsupported("operation of a table with a Series")
        else:
            b = asarr(o, strict=False)
            if b is None:
                return NotImplemented
            if b.ndim == 0:
                pair = [(a, b) for a in self._cols.values()]
            elif b.ndim == 1 and not isz(b._shape[0]) and b._shape[0] == len(self._cols):
                pair = [(a, A.scalar_arr(b.at(q))) for q, a in enumerate(self._cols.values())]
            elif b.ndim == 2:
                pair = [(a, b[:, q] if b._shape[1] != 1 else b[:, 0]) for q, a in enumerate(self._cols.values())]
            else:
                raise K.Unsupported("table operation with this shape")
        cols = {}
        for c, (x, y) in zip(self._cols, pair):
            cols[c] = colop(f, y, x) if rev else colop(f, x, y)
        return DataFrame._make(cols, self.index, self)

    def __neg__(self):
        return self._map(K.neg)

    def __invert__(self):
        return DataFrame._make({c: ~a for c, a in self._cols.items()}, self.index, self)

    def __abs__(self):
        return self._map(K.absolute)

    abs = __abs__

    def _map(self, f, k=None):
        return DataFrame._make({c: A.unary(f, a, k) for c, a in self._cols.items()}, self.index, self)

    def _red(self, name, axis, **k):
        if axis == 1 or axis == "columns":
            return Series(getattr(self._as_arr(), name)(axis=1), self.index)
        if axis is None and name in ("all", "any"):
            return getattr(self._as_arr(), name)()
        vals = [getattr(Series(a, self.index), name)() for a in self._cols.values()]
        return Row(list(self._cols), [lift(v) for v in vals])

    def prod(self, axis=0, **k):
        return self._red("prod", axis)

    def sum(self, axis=0, **k):
        return self._red("sum", axis)

    def mean(self, axis=0, **k):
        return self._red("mean", axis)

    def min(self, axis=0, **k):
        return self._red("min", axis)

    def max(self, axis=0, **k):
        return self._red("max", axis)

    def all(self, axis=0, **k):
        return self._red("all", axis)

    def any(self, axis=0, **k):
        return self._red("any", axis)

    @property
    def T(self):
        raise K.Unsupported("transposed table")

    # -- table operations
    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", ignore_index=False, **k):
        by = [by] if not isinstance(by, list) else by
        if ascending is not True:
            raise K.Unsupported("descending sort")
        gs = [self._col(c).getter() for c in by]
        stable = len(by) > 1 or kind in ("stable", "mergesort")
        n = self._n
        P = A.sort_perm(n, lambda i: [g(i) for g in gs], stable, "sort_values")
        p = Arr((n,), "i", lambda ix: Sc(P.p(ix[0]), "i")) if isz(n) else None
        if p is None:
            if n > 1:
                raise K.Unsupported("sort of a static table")
            if inplace:
                if ignore_index:
                    self.__dict__["_idx"] = range_index(n)
                return None
            r = self.copy()
            if ignore_index:
                r.__dict__["_idx"] = range_index(n)
            return r
        take = lambda a: Arr((n,), a.k, (lambda g: lambda ix: g(P.p(ix[0])))(a.getter()))
        cols = {c: take(a) for c, a in self._cols.items()}
        idx = range_index(n) if ignore_index else Index(take(self.index._a))
        if inplace:
            self.__dict__["_cols"] = cols
            self.__dict__["_idx"] = idx
            return None
        return DataFrame._make(cols, idx, self, self.__dict__.get("_pres"))

    def reset_index(self, drop=False, inplace=False, **k):
        if not drop:
            raise K.Unsupported("reset_index keeping the labels")
        if inplace:
            self.__dict__["_idx"] = range_index(self._n)
            return None
        r = self.copy()
        r.__dict__["_idx"] = range_index(self._n)
        return r

    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        if keep != "first" or inplace:
            raise K.Unsupported("drop_duplicates options")
        subset = list(self._cols) if subset is None else ([subset] if not isinstance(subset, list) else subset)
        s = first_occurrences(self._n, [self._col(c) for c in subset])
        take = lambda a: Arr((s.m,), a.k, (lambda g: lambda ix: g(s.sel(ix[0])))(a.getter()))
        idx = range_index(s.m) if ignore_index else Index(take(self.index._a))
        return DataFrame._make({c: take(a) for c, a in self._cols.items()}, idx, self)

    def duplicated(self, subset=None, keep="first"):
        if keep != "first":
            raise K.Unsupported("duplicated options")
        subset = list(self._cols) if subset is None else subset
        s = first_occurrences(self._n, [self._col(c) for c in subset])
        n = self._n
        return Series(Arr((n,), "b", lambda ix: Sc(NE(s.sel(s.rep(ix[0])), ix[0]), "b")), self.index)

    def groupby(self, by, sort=True, **k):
        by = by[0] if isinstance(by, list) and len(by) == 1 else by
        if isinstance(by, list) or sort is not True:
            raise K.Unsupported("groupby options")
        return GroupBy(self, by)

    def drop(self, labels=None, axis=0, columns=None, **k):
        if columns is None:
            raise K.Unsupported("drop rows")
        columns = [columns] if isinstance(columns, str) else list(columns)
        return DataFrame._make({c: a.copy() for c, a in self._cols.items() if c not in columns}, self.index, self)

    def assign(self, **kw):
        r = self.copy()
        for c, v in kw.items():
            r[c] = v
        return r

    def isna(self):
        return self._map(lambda v: Sc(v.nan, "b"), "b")

    isnull = isna

    def itertuples(self, *a, **k):
        raise K.Unsupported("iteration over a table")

    iterrows = apply = head = itertuples

    def equals(self, o):
        raise K.Unsupported("DataFrame.equals")

    def rename(self, **k):
        raise K.Unsupported("rename")

    def merge(self, *a, **k):
        raise K.Unsupported("merge")


for _n, _f in OPS.items():
    def _mk(f):
        return (lambda self, o: self._bin(f, o)), (lambda self, o: self._bin(f, o, True))
    _d, _r = _mk(_f)
    setattr(DataFrame, "__{}__".format(_n), _d)
    if _n not in ("lt", "le", "gt", "ge", "eq", "ne"):
        setattr(DataFrame, "__r{}__".format(_n), _r)


def view(a):
    r = Arr(a._shape, a.k, buf=a.buf, fwd=a.fwd, inv=a.inv, blocks=a.blocks)
    return r


def index_len(i):
    i = unwrap(i)
    return asarr(i).shape[0]


class First:
    pass


def first_occurrences(n, cols):
    """The rows kept by drop_duplicates(keep='first')."""
    c = ctx()
    gs = [a.getter() for a in cols]
    cn = K.canon(dkey(n), 0)
    vs = [g(cn) for g in gs]
    for v in vs:
        if isz(v.t):
            K.keep(v.t)
    key = ("dropdup", dkey(n), tuple((A.rid(v.t), str(v.sp)) for v in vs))
    if key in c.memo:
        return c.memo[key]
    same = lambda i, j: AND(*[K.ident(g(i), g(j)) for g in gs])
    s = First()
    if not isz(n) and n <= 1:
        s.m = n
        s.sel = s.rep = lambda k: k
        c.memo[key] = s
        return s
    s.m = m = c.int("n_distinct")
    f = c.leaf("first", [m], K.I_)
    r = c.leaf("rep", [n], K.I_)
    s.sel = lambda k: f(K.toint(k))
    s.rep = lambda i: r(K.toint(i))
    ne = lambda a, b: a.get_id() != b.get_id()
    c.assume(AND(LE(0, m), LE(m, n), IMP(LT(0, n), LT(0, m))))
    c.forall([m], lambda k: AND(inr(s.sel(k), n), EQ(s.rep(s.sel(k)), k)), "first")
    c.forall([n], lambda i: AND(inr(s.rep(i), m), LE(s.sel(s.rep(i)), i), same(s.sel(s.rep(i)), i)), "rep")
    c.forall([m, m], lambda k, l: IMP(LT(k, l), AND(LT(s.sel(k), s.sel(l)), NOT(same(s.sel(k), s.sel(l))))), "first-distinct", trig=ne)
    # as many rows kept as there are exactly when all are distinct
    c.forall([n, n], lambda i, j: IMP(AND(EQ(m, n), LT(i, j)), NOT(same(i, j))), "all-distinct", trig=ne)
    w1, w2 = c.int("twin"), c.int("twin")
    e = EQ(m, n)
    c.touch(n, w1, e if isz(e) else None)
    c.touch(n, w2, e if isz(e) else None)
    c.assume(OR(e, AND(LE(0, w1), LT(w1, w2), LT(w2, n), same(w1, w2))))
    c.memo[key] = s
    return s


# ------------------------------------------------------------------- groupby

class GroupBy:
    """Groups of equal key in increasing key order; rows keep their order."""

    def __init__(self, df, by):
        self.df, self.by = df, by
        c = ctx()
        n = self.n = df._n
        keyg = df._col(by).getter()
        self.cols = {q: a.getter() for q, a in df._cols.items()}
        self.kinds = {q: a.k for q, a in df._cols.items()}
        self.idxg, self.idxk = df.index._a.getter(), df.index._a.k
        if df.index.is_range():
            self.idxg, self.idxk = (lambda i: Sc(i, "i")), "i"
        self.P = P = A.sort_perm(n, lambda i: [keyg(i)], True, "groupby")
        key = lambda p: keyg(P.p(p))
        self.key = key
        mk = ("groups", id(P))
        if mk not in c.memo:
            gs, ge = c.leaf("gstart", [n], K.I_), c.leaf("gend", [n], K.I_)
            ng = c.int("n_groups")
            gid = c.leaf("gid", [n], K.I_)
            st = c.leaf("gfirst", [ng], K.I_)
            Z = K.toint
            ne = lambda a, b: a.get_id() != b.get_id()
            c.assume(AND(LE(0, ng), LE(ng, n), IMP(LT(0, n), LT(0, ng))))
            c.forall([n], lambda p: (AND(LE(0, gs(Z(p))), LE(gs(Z(p)), p), LT(p, ge(Z(p))), LE(ge(Z(p)), n),
                                         EQ(gs(gs(Z(p))), gs(Z(p))), EQ(ge(gs(Z(p))), ge(Z(p))),
                                         K.eq(key(gs(Z(p))), key(p)).t,
                                         K.eq(key(SUB(ge(Z(p)), 1)), key(p)).t,
                                         inr(gid(Z(p)), ng), EQ(st(gid(Z(p))), gs(Z(p)))), [(n, norm(SUB(ge(Z(p)), 1)))]), "group")
            c.forall([n, n], lambda p, q: IFF(AND(LE(gs(Z(p)), q), LT(q, ge(Z(p)))), K.eq(key(p), key(q)).t), "group-members", trig=ne)
            c.forall([n, n], lambda p, q: IMP(K.eq(key(p), key(q)).t, AND(EQ(gs(Z(p)), gs(Z(q))), EQ(ge(Z(p)), ge(Z(q))), EQ(gid(Z(p)), gid(Z(q))))),
                     "group-bounds", trig=ne)
            c.forall([ng], lambda g: AND(inr(st(Z(g)), n), EQ(gs(st(Z(g))), st(Z(g))), EQ(gid(st(Z(g))), g)), "group-first")
            c.forall([ng, ng], lambda g, h: IMP(LT(g, h), AND(LT(st(Z(g)), st(Z(h))), K.lt(key(st(Z(g))), key(st(Z(h)))).t)), "group-order", trig=ne)
            c.memo[mk] = (gs, ge, ng, gid, st)
        self.gs, self.ge, self.ng, self.gid, self.st = c.memo[mk]

    def group(self, lo, hi):
        m = norm(SUB(hi, lo))
        at = lambda g: (lambda ix: g(self.P.p(norm(ADD(lo, ix[0])))))
        cols = {q: Arr((m,), self.kinds[q], at(g)) for q, g in self.cols.items()}
        return DataFrame._make(cols, Index(Arr((m,), self.idxk, at(self.idxg))), self.df)

    def apply(self, fn, **k):
        return Applied(self, fn)

    def __getitem__(self, c):
        raise K.Unsupported("groupby column selection")

    @property
    def indices(self):
        raise K.Unsupported("groupby.indices")

    def get_group(self, name):
        """the rows whose key equals name; KeyError when there are none"""
        c = ctx()
        v = lift(name)
        # position of one member
        mk = ("getgroup", id(self.gs), A.rid(v.t))
        if isz(v.t):
            K.keep(v.t)
        B = c.exists_bool([self.n], lambda p: K.eq(self.key(p), v).t, "group_exists")
        if not c.known(B) and not c.decide(B):
            lib_raise(KeyError(name))
        if mk not in c.memo:
            w = c.int("member")
            c.touch(self.n, w)
            c.assume(AND(inr(w, self.n), K.eq(self.key(w), v).t))
            c.memo[mk] = w
        w = c.memo[mk]
        c.touch(self.n, self.gs(w))
        return self.group(self.gs(w), self.ge(w))

    def __iter__(self):
        raise K.Unsupported("iteration over groups")

    def first(self):
        raise K.Unsupported("groupby.first")

    last = size = cumcount = first


class Applied:
    """groupby(...).apply(fn)"""

    def __init__(self, gb, fn):
        self.gb, self.fn = gb, fn
        c = ctx()
        probe = c.int("probe")
        self.script = {}
        c.touch(gb.n, probe)
        with c.generic(inr(probe, gb.n), rec=self.script):
            r = fn(gb.group(gb.gs(probe), gb.ge(probe)))
        if isinstance(r, (Index, Series)):
            r = r._as_arr()
        self.vector = isinstance(r, Arr) and r.ndim == 1
        if self.vector:
            if dkey(r._shape[0]) != dkey(norm(SUB(gb.ge(probe), gb.gs(probe)))):
                raise K.Unsupported("groupby.apply with another length")
            self.k = r.k
        elif lift(r) is None:
            raise K.Unsupported("groupby.apply result")
        else:
            self.k = lift(r).k

    def _hstack(self):
        gb, fn = self.gb, self.fn
        if not self.vector:
            return self._as_arr()
        Z = K.toint

        def at(ix):
            p = ix[0]
            lo = gb.gs(Z(p))
            with ctx().generic(play=self.script):
                r = asarr(fn(gb.group(lo, gb.ge(Z(p)))))
            return r.at(norm(SUB(p, lo)))
        return Arr((gb.n,), self.k, at)

    def _as_arr(self):
        gb, fn = self.gb, self.fn
        if self.vector:
            raise K.Unsupported("ragged groupby result")
        Z = K.toint

        def at(ix):
            lo = gb.st(Z(ix[0]))
            with ctx().generic(play=self.script):
                return lift(fn(gb.group(lo, gb.ge(lo))))
        return Arr((gb.ng,), self.k, at)

    @property
    def values(self):
        return self if self.vector else self._as_arr()

    def __iter__(self):
        raise K.Unsupported("iteration over groups")

    def to_numpy(self):
        return self.values

    def explode(self):
        raise K.Unsupported("explode")


def concat(objs, axis=0, ignore_index=False, **k):
    objs = list(objs)
    if axis != 0:
        raise K.Unsupported("concat of columns")
    names = []
    for o in objs:
        for c in o._cols:
            if c not in names:
                names.append(c)
    ns = [o._n for o in objs]
    nan = Sc(0, "r", (True, False, False))
    cols = {}
    for c in names:
        if all(c in o._cols for o in objs):
            cols[c] = A.concatenate([o._cols[c] for o in objs])
        else:
            cols[c] = A.concatenate([o._cols[c] if c in o._cols else Arr((o._n,), "r", lambda ix: nan) for o in objs])
    idx = A.concatenate([o.index._a for o in objs])
    tot = idx._shape[0]
    r = DataFrame._make(cols, range_index(tot) if ignore_index else Index(idx))
    if all(o.attrs == objs[0].attrs for o in objs[1:]) if False else False:
        r.attrs = objs[0].attrs
    return r


pd.DataFrame, pd.Series, pd.Index, pd.concat = DataFrame, Series, Index, concat
pd.RangeIndex = lambda n: range_index(A.rawdim(n))
