"""Symbolic n-dimensional arrays: the contract of numpy's ndarray.

An array is a shape (python ints or z3 Int terms) and a function from index
tuples to scalars.  Views share a `Buf`; writes go through views as in numpy.
"""
import itertools
from fractions import Fraction

import z3

from . import core as K
from .core import (AND, OR, NOT, IMP, ITE, ADD, SUB, MUL, EQ, NE, LT, LE, Sc, lift, isz, inr, ctx, dkey, norm,
                   lib_raise, unsupported, divmod_c)


class Dtype:
    def __init__(self, k):
        self.k = k

    @property
    def kind(self):
        return {"i": "i", "r": "f", "b": "b", "o": "O"}[self.k]

    @property
    def name(self):
        return {"i": "int64", "r": "float64", "b": "bool", "o": "object"}[self.k]

    @property
    def type(self):
        return {"i": int, "r": float, "b": bool, "o": object}[self.k]

    @staticmethod
    def of(x):
        if isinstance(x, Dtype):
            return x
        if x in (int, "int", "int64", "i", "i8", "int32", "intp"):
            return Dtype("i")
        if x in (float, "float", "float64", "f", "f8", "d"):
            return Dtype("r")
        if x in (bool, "bool", "b1", "?"):
            return Dtype("b")
        if x in (object, "object", "O"):
            return Dtype("o")
        raise K.Unsupported("dtype {}".format(x))

    def __eq__(self, o):
        try:
            return self.k == Dtype.of(o).k
        except K.Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "dtype('{}')".format(self.name)

    __str__ = __repr__


def rid(i):
    return ("z", i.get_id()) if isz(i) else i


class Buf:
    __slots__ = ("shape", "k", "fn", "cache")

    def __init__(self, shape, k, fn):
        self.shape, self.k, self.fn, self.cache = tuple(shape), k, fn, {}

    def at(self, idx):
        key = tuple(rid(i) for i in idx)
        v = self.cache.get(key)
        if v is None:
            v = self.fn(idx)
            self.cache[key] = v
            for i in idx:
                if isz(i):
                    K.keep(i)
        return v

    def set(self, fn):
        self.fn, self.cache = fn, {}

    def snap(self):
        """A frozen copy of the present contents (shares the cache)."""
        b = Buf(self.shape, self.k, self.fn)
        b.cache = self.cache
        self.cache = dict(self.cache)
        return b


def ident_map(idx):
    return idx


def ident_inv(idx):
    return True, idx


class Arr:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, shape, k, fn=None, buf=None, fwd=None, inv=None, blocks=None):
        self._shape = tuple(norm(d) if isz(d) else int(d) for d in shape)
        if buf is None:
            buf = Buf(self._shape, k, fn)
        self.buf = buf
        self.fwd = fwd or ident_map      # index of the view -> index of the buffer
        self.inv = inv or ident_inv      # index of the buffer -> (in view?, index of the view)
        self.blocks = blocks             # 1-D: [(size, getter)]
        self.owner = None                # hook called on writes
        self.taken = None                # 1-D: (selection of a mask, elements selected from)

    # ----- basic protocol
    @property
    def k(self):
        return self.buf.k

    @property
    def dims(self):
        return self._shape

    @property
    def shape(self):
        return tuple(Sc(d, "i") if isz(d) else d for d in self._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        n = 1
        for d in self._shape:
            n = MUL(n, d)
        return wrapint(norm(n))

    @property
    def dtype(self):
        return Dtype(self.k)

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        d = self._shape[0]
        if isz(d):
            raise K.Unsupported("len of a symbolic array in native code")
        return d

    def slen(self):
        return wrapint(self._shape[0])

    def at(self, *idx):
        return self.buf.at(tuple(self.fwd(idx)))

    def getter(self):
        """Frozen element function of the present contents."""
        b, f = self.buf.snap(), self.fwd
        return lambda *idx: b.at(tuple(f(idx)))

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "Arr(shape={}, kind={})".format(self._shape, self.k)

    def __format__(self, spec):
        return "<sym array>"

    def __iter__(self):
        d = self._shape[0]
        if isz(d):
            raise K.Unsupported("iteration over a symbolic array")
        for i in range(d):
            yield self[i]

    def __bool__(self):
        if all(not isz(d) for d in self._shape) and K._size(self._shape) == 1:
            return bool(self.at(*[0] * self.ndim))
        if not self._shape:
            return bool(self.at())
        if all(not isz(d) for d in self._shape):
            lib_raise(ValueError("The truth value of an array with more than one element is ambiguous"))
        raise K.Unsupported("truth value of an array")

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def item(self):
        if K._size(self._shape) == 1:
            return self.at(*[0] * self.ndim)
        raise K.Unsupported("item() of an array")

    # ----- arithmetic
    def _op(self, f, o, rev=False):
        b = asarr(o, strict=False)
        if b is None:
            return NotImplemented
        return elementwise(f, b, self) if rev else elementwise(f, self, b)

    def __add__(self, o):
        return self._op(K.add, o)

    def __radd__(self, o):
        return self._op(K.add, o, True)

    def __sub__(self, o):
        return self._op(K.sub, o)

    def __rsub__(self, o):
        return self._op(K.sub, o, True)

    def __mul__(self, o):
        return self._op(K.mul, o)

    def __rmul__(self, o):
        return self._op(K.mul, o, True)

    def __truediv__(self, o):
        return self._op(K.div, o)

    def __rtruediv__(self, o):
        return self._op(K.div, o, True)

    def __floordiv__(self, o):
        return self._op(K.floordiv, o)

    def __mod__(self, o):
        return self._op(K.mod, o)

    def __pow__(self, o):
        return self._op(K.power, o)

    def __and__(self, o):
        return self._op(K.land, o)

    __rand__ = __and__

    def __or__(self, o):
        return self._op(K.lor, o)

    __ror__ = __or__

    def __neg__(self):
        return unary(K.neg, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return unary(K.absolute, self)

    def __invert__(self):
        if self.k != "b":
            raise K.Unsupported("~ on a number array")
        return unary(lambda a: Sc(NOT(a.t), "b"), self)

    def __lt__(self, o):
        return self._op(K.lt, o)

    def __le__(self, o):
        return self._op(K.le, o)

    def __gt__(self, o):
        return self._op(K.gt, o)

    def __ge__(self, o):
        return self._op(K.ge, o)

    def __eq__(self, o):
        return self._op(K.eq, o)

    def __ne__(self, o):
        return self._op(K.ne, o)

    def __matmul__(self, o):
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        return matmul(asarr(o), self)

    # in-place
    def _iop(self, f, o):
        b = asarr(o)
        r = elementwise(f, self, b)
        if r.ndim != self.ndim:
            lib_raise(ValueError("non-broadcastable output operand"))
        if self.k in "ib" and r.k == "r" and f is not K.land:
            lib_raise(TypeError("Cannot cast ufunc output from float64 to int64"))
        self._store(r)
        return self

    def __iadd__(self, o):
        return self._iop(K.add, o)

    def __isub__(self, o):
        return self._iop(K.sub, o)

    def __imul__(self, o):
        return self._iop(K.mul, o)

    def __itruediv__(self, o):
        return self._iop(K.div, o)

    def __iand__(self, o):
        return self._iop(K.land, o)

    def __ior__(self, o):
        return self._iop(K.lor, o)

    def _store(self, v):
        """self[...] = v"""
        v = asarr(v)
        k = self.k
        vg, vs = v.getter(), v._shape
        bmap = bcast_map(vs, self._shape)
        inv = self.inv
        old = self.buf.snap()

        def fn(root):
            c, ix = inv(root)
            if not isz(c) and not c:
                return old.at(root)
            new = cast(vg(*bmap(ix)), k)
            return new if (not isz(c)) else K.where(c, new, old.at(root))
        self.buf.set(fn)
        if self.blocks:
            self.blocks = None
        if self.owner:
            self.owner()

    def fill(self, v):
        self._store(v)

    # ----- shape
    @property
    def T(self):
        n = self.ndim
        return self.transpose(*range(n)[::-1])

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = ax[0]
        ax = tuple(ax) or tuple(range(self.ndim))[::-1]
        sh = [self._shape[a] for a in ax]
        f, g = self.fwd, self.inv

        def fwd(ix):
            o = [None] * len(ax)
            for p, a in enumerate(ax):
                o[a] = ix[p]
            return f(tuple(o))

        def inv(root):
            c, ix = g(root)
            return c, tuple(ix[a] for a in ax)
        return Arr(sh, self.k, buf=self.buf, fwd=fwd, inv=inv)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def copy(self, *a, **k):
        g = self.getter()
        return Arr(self._shape, self.k, lambda ix: g(*ix), blocks=self.blocks)

    def astype(self, ty, copy=True):
        k = Dtype.of(ty).k
        g = self.getter()
        bl = None
        if self.blocks:
            bl = [(s, (lambda h: lambda i: cast(h(i), k))(h)) for s, h in self.blocks]
        return Arr(self._shape, k, lambda ix: cast(g(*ix), k), blocks=bl)

    def flatten(self, *a):
        return self.ravel().copy()

    def ravel(self, order="C"):
        if order in ("f", "F"):
            return self.T.ravel()
        if self.ndim == 1:
            return self
        if self.ndim == 0:
            return self.reshape(1)
        sym = [a for a, d in enumerate(self._shape) if isz(d)]
        if not sym:
            return self.reshape(K._size(self._shape))
        if len(sym) > 1:
            raise K.Unsupported("ravel of an array with two symbolic dimensions")
        if K._size(self._shape[:sym[0]]) == 1:
            return self.reshape(-1)
        g = self.getter()
        lead = [range(d) for d in self._shape[:sym[0]]]
        tail = self._shape[sym[0] + 1:]
        m = self._shape[sym[0]]
        c = K._size(tail)
        blocks = []
        for lx in itertools.product(*lead):
            blocks.append((norm(MUL(c, m)), (lambda lx: lambda i: g(*lx, *unravel(i, (m,) + tail)))(lx)))
        return from_blocks(blocks, self.k)

    def reshape(self, *sh, order="C"):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        sh = [rawdim(d) for d in sh]
        tot = 1
        for d in self._shape:
            tot = MUL(tot, d)
        tot = norm(tot)
        if any((not isz(d)) and d == -1 for d in sh):
            c = 1
            for d in sh:
                if not (not isz(d) and d == -1):
                    c = MUL(c, d)
            c = norm(c)
            if isz(c):
                if dkey(c) == dkey(tot):
                    q = 1
                else:
                    raise K.Unsupported("reshape with a symbolic inner size")
            else:
                if c == 0:
                    lib_raise(ValueError("cannot reshape"))
                q, r = divmod_c(tot, c)
                if not (not isz(r) and r == 0):
                    if not ctx().decide(EQ(r, 0)):
                        lib_raise(ValueError("cannot reshape array"))
            sh = [q if (not isz(d) and d == -1) else d for d in sh]
        else:
            c = 1
            for d in sh:
                c = MUL(c, d)
            if not samedim(norm(c), tot):
                lib_raise(ValueError("cannot reshape array"))
        sh = [norm(d) for d in sh]
        if [dkey(a) for a in sh] == [dkey(a) for a in self._shape]:
            return Arr(self._shape, self.k, buf=self.buf, fwd=self.fwd, inv=self.inv, blocks=self.blocks)
        src = self
        if sum(isz(d) for d in self._shape) and K._size([d for d in self._shape[:[isz(x) for x in self._shape].index(True)]]) != 1:
            src = self.ravel()
        osh, f, g = src._shape, src.fwd, src.inv
        if any(isz(d) for d in sh[1:]):
            # (static, sym) from blocks of equal size
            if len(sh) == 2 and not isz(sh[0]) and len(osh) == 1:
                h = src.getter()
                m = sh[1]
                return Arr(sh, self.k, lambda ix: h(norm(ADD(MUL(ix[0], m), ix[1]))))
            raise K.Unsupported("reshape to a symbolic inner dimension")

        def fwd(ix):
            return f(unravel(ravel_index(ix, sh), osh))

        def inv(root):
            c, ix = g(root)
            return c, unravel(ravel_index(ix, osh), sh)
        return Arr(sh, self.k, buf=src.buf, fwd=fwd, inv=inv)

    def squeeze(self, axis=None):
        keep = [a for a, d in enumerate(self._shape) if isz(d) or d != 1]
        return self[tuple(slice(None) if a in keep else 0 for a in range(self.ndim))]

    # ----- reductions
    def min(self, axis=None, initial=None):
        return reduce_minmax(self, axis, K.le, "min", initial)

    def max(self, axis=None, initial=None):
        return reduce_minmax(self, axis, K.ge, "max", initial)

    def all(self, axis=None):
        return reduce_bool(self, axis, True)

    def any(self, axis=None):
        return reduce_bool(self, axis, False)

    def sum(self, axis=None):
        return reduce_fold(self, axis, K.add, 0)

    def prod(self, axis=None):
        return reduce_fold(self, axis, K.mul, 1)

    def mean(self, axis=None):
        s = reduce_fold(self, axis, K.add, 0)
        n = self._shape[axis] if axis is not None else K._size(self._shape)
        return s / wrapint(n)

    def argsort(self, axis=-1, kind=None):
        return argsort(self, axis, kind)

    def sort(self, axis=-1, kind=None):
        self._store(sort(self, axis))

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def nonzero(self):
        m = as_mask(self)
        s = compress_of(m)
        return (Arr((s.m,), "i", lambda ix: Sc(s.sel(ix[0]), "i")),)

    def dot(self, o):
        return matmul(self, asarr(o))

    def repeat(self, n, axis=None):
        return repeat(self, n, axis)

    # ----- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, v):
        setitem(self, key, v)


def wrapint(n):
    return Sc(n, "i") if isz(n) else int(n)


def rawdim(d):
    """python int / Sc / z3 -> raw dimension"""
    if isinstance(d, Sc):
        if d.k != "i":
            raise K.Unsupported("non-integer dimension")
        return norm(d.t)
    if isinstance(d, Arr) and d.ndim == 0:
        return rawdim(d.at())
    if isz(d):
        return norm(d)
    if isinstance(d, bool) or isinstance(d, int):
        return int(d)
    if isinstance(d, float) and d != int(d) or isinstance(d, float):
        lib_raise(TypeError("'float' object cannot be interpreted as an integer"))
    if type(d).__module__ == "numpy":
        return int(d)
    raise K.Unsupported("dimension {!r}".format(d))


def cast(v, k):
    if k == "o" or v.k == k:
        return v
    return K.cast(v, k)


def ravel_index(ix, sh):
    t = 0
    for i, d in zip(ix, sh):
        t = ADD(MUL(t, d) if not (not isz(t) and t == 0) else 0, i)
    return norm(t)


def unravel(t, sh):
    big = [a for a, d in enumerate(sh) if isz(d) or d != 1]
    if len(big) == 1 and isz(sh[big[0]]):
        return tuple(norm(t) if a == big[0] else 0 for a in range(len(sh)))
    out = []
    for d in reversed(sh[1:]):
        if isz(d):
            raise K.Unsupported("index arithmetic over a symbolic inner dimension")
        if d == 1:
            out.append(0)
            continue
        t, r = divmod_c(t, d)
        out.append(r)
    out.append(norm(t))
    return tuple(reversed(out))


def samedim(a, b):
    """Are two dimensions equal on this path? (decides)"""
    if not isz(a) and not isz(b):
        return a == b
    if dkey(a) == dkey(b):
        return True
    c = ctx()
    if c.decide(EQ(a, b)):
        c.union(dkey(a), dkey(b))
        return True
    return False


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for a in range(n):
        cur = 1
        for s in shapes:
            p = a - (n - len(s))
            if p < 0:
                continue
            d = s[p]
            if not isz(d) and d == 1:
                continue
            if not isz(cur) and cur == 1:
                cur = d
            elif not samedim(cur, d):
                if isz(d) and ctx().decide(EQ(d, 1)):
                    pass
                elif isz(cur) and ctx().decide(EQ(cur, 1)):
                    cur = d
                else:
                    lib_raise(ValueError("operands could not be broadcast together with shapes"))
            elif isz(cur) and not isz(d):
                cur = d
        out.append(cur)
    return tuple(out)


def bcast_map(src, dst):
    """index of dst -> index of src (src broadcast to dst)."""
    off = len(dst) - len(src)
    if off < 0:
        lead = src[:-off]
        if all(not isz(d) and d == 1 for d in lead):
            inner = bcast_map(src[-off:], dst)
            return lambda ix: tuple([0] * -off) + inner(ix)
        lib_raise(ValueError("could not broadcast"))
    one = []
    for a, d in enumerate(src):
        if not isz(d) and d == 1 and not (not isz(dst[off + a]) and dst[off + a] == 1):
            one.append(True)
        elif samedim(d, dst[off + a]):
            one.append(False)
        elif isz(d) and ctx().decide(EQ(d, 1)):
            one.append(True)
        else:
            lib_raise(ValueError("could not broadcast input array from shape into shape"))

    def f(ix):
        return tuple(0 if o else ix[off + a] for a, o in enumerate(one))
    return f


CMP = None


def reskind(f, a, b):
    if f in (K.lt, K.le, K.gt, K.ge, K.eq, K.ne, K.land, K.lor):
        return "b"
    if f is K.div:
        return "r"
    if a == "b" and b == "b" and f in (K.add, K.mul):
        return "b"
    return "r" if "r" in (a, b) else "i"


def opkind(a, b, f):
    return reskind(f, a.k, b.k)


def elementwise(f, a, b):
    if a.k == "o" or b.k == "o":
        if f not in (K.eq, K.ne):
            raise K.Unsupported("arithmetic on objects")
    if f in (K.land, K.lor) and not (a.k == b.k == "b"):
        raise K.Unsupported("bitwise operation on numbers")
    sh = bshape(a._shape, b._shape)
    if not sh:
        x, y = a.at(), b.at()
        if f is K.div:
            return K.divtop(x, y)
        return f(x, y)
    ma, mb = bcast_map(a._shape, sh), bcast_map(b._shape, sh)
    ga, gb = a.getter(), b.getter()
    k = opkind(a, b, f)
    op = f
    if f is K.div and nonzero(b):
        op = lambda x, y: K.div(x, y, True)
    if f is K.eq or f is K.ne:
        op = f
    blocks = None
    if len(sh) == 1:
        blocks = merge_blocks(a, b, op, k)
    return Arr(sh, k, lambda ix: cast(op(ga(*ma(ix)), gb(*mb(ix))), k), blocks=blocks)


def nonzero(b):
    """Are all elements of b provably non-zero (and not special)?"""
    c = ctx()
    ck = [K.canon(("nz", dkey(d)), a) for a, d in enumerate(b._shape)]
    v = b.at(*ck)
    g = AND(v.fin, NE(v.t, 0)) if v.sp else NE(v.t, 0)
    if not isz(g):
        return bool(g)
    key = ("nz", g.get_id(), c.stamp())
    if key not in c.memo:
        K.keep(g)
        sk = [c.int("nz") for _ in b._shape]
        w = b.at(*sk)
        res, _ = c.refute([inr(s, d) for s, d in zip(sk, b._shape)] + [NOT(NE(K.num(w).t, 0))], 2, 3000,
                          touch=[(d, s) for s, d in zip(sk, b._shape)])
        c.memo[key] = res == "unsat"
    return c.memo[key]


def merge_blocks(a, b, op, k):
    A, B = a.blocks, b.blocks
    if not A and not B:
        return None
    if A and not B:
        if not b._shape or not isz(b._shape[0]) and b._shape[0] == 1:
            y, z = b.getter(), (0,) * len(b._shape)
            return [(s, (lambda h: lambda i: cast(op(h(i), y(*z)), k))(h)) for s, h in A] if len(b._shape) <= 1 else None
        return None
    if B and not A:
        if not a._shape or not isz(a._shape[0]) and a._shape[0] == 1:
            x, z = a.getter(), (0,) * len(a._shape)
            return [(s, (lambda h: lambda i: cast(op(x(*z), h(i)), k))(h)) for s, h in B] if len(a._shape) <= 1 else None
        return None
    if [dkey(s) for s, _ in A] != [dkey(s) for s, _ in B]:
        return None
    return [(s, (lambda h, q: lambda i: cast(op(h(i), q(i)), k))(h, q)) for (s, h), (_, q) in zip(A, B)]


def unary(f, a, k=None):
    g = a.getter()
    if not a._shape:
        return f(a.at())
    kk = k or a.k
    if f in (K.neg, K.absolute) and kk == "b":
        kk = "i"
    bl = [(s, (lambda h: lambda i: f(h(i)))(h)) for s, h in a.blocks] if a.blocks else None
    return Arr(a._shape, kk, lambda ix: f(g(*ix)), blocks=bl)


def scalar_arr(v):
    return Arr((), v.k, lambda ix: v)


def asarr(x, strict=True, dtype=None):
    """Anything array-like -> Arr (no copy of an Arr)."""
    if isinstance(x, Arr):
        return x if dtype is None or Dtype.of(dtype).k == x.k else x.astype(dtype)
    if hasattr(x, "_as_arr"):
        return asarr(x._as_arr(), dtype=dtype)
    v = lift(x)
    if v is not None:
        if dtype is not None:
            v = cast(v, Dtype.of(dtype).k)
        return scalar_arr(v)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)) or type(x).__name__ in ("dict_values", "dict_keys", "map", "zip", "generator"):
        items = [asarr(e, strict=strict) for e in x]
        if any(e is None for e in items):
            return None
        a = stack(items)
        return a if dtype is None else a.astype(dtype)
    if type(x).__module__ == "numpy":
        return asarr(x.tolist(), dtype=dtype)
    if strict:
        raise K.Unsupported("array from {!r}".format(type(x)))
    return None


def stack(items):
    """np.array of a python list of equally shaped things."""
    if not items:
        return Arr((0,), "r", lambda ix: Sc(0, "r"))
    sh = items[0]._shape
    for e in items[1:]:
        if len(e._shape) != len(sh) or not all(samedim(p, q) for p, q in zip(sh, e._shape)):
            lib_raise(ValueError("setting an array element with a sequence. inhomogeneous shape"))
    k = "b" if all(e.k == "b" for e in items) else ("r" if any(e.k == "r" for e in items) else "i")
    if any(e.k == "o" for e in items):
        k = "o"
    gs = [e.getter() for e in items]

    def fn(ix):
        i = ix[0]
        if not isz(i):
            return cast(gs[i](*ix[1:]), k)
        out = cast(gs[-1](*ix[1:]), k)
        for p in range(len(gs) - 2, -1, -1):
            out = K.where(EQ(i, p), cast(gs[p](*ix[1:]), k), out)
        return out
    return Arr((len(items),) + tuple(sh), k, fn)


def from_blocks(blocks, k):
    """1-D concatenation of [(size, getter)]."""
    tot = 0
    offs = []
    for s, _ in blocks:
        offs.append(norm(tot))
        tot = ADD(tot, s)
    tot = norm(tot)
    c = ctx()

    def fn(ix):
        i = ix[0]
        out = None
        for p in range(len(blocks) - 1, -1, -1):
            s, h = blocks[p]
            if not isz(s) and s == 0:
                continue
            loc = norm(SUB(i, offs[p]))
            if not isz(i) and not isz(offs[p]) and not isz(s):
                if offs[p] <= i < offs[p] + s:
                    return cast(h(loc), k)
                continue
            if not isz(loc) and not isz(s):
                if 0 <= loc < s:
                    return cast(h(loc), k)
                continue
            v = cast(h(loc), k)
            if out is None:
                out = v
            else:
                out = K.where(LT(i, norm(ADD(offs[p], s))), v, out)
        if out is None:
            # no such element: an arbitrary value (every use is guarded by an empty range)
            if k not in "rib":
                raise K.Unsupported("element of an empty array")
            return Sc({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[k]("void_" + k), k)
        return out
    if isz(tot):
        for p, (s, _) in enumerate(blocks):
            inject(s, tot, offs[p])
    return Arr((tot,), k, fn, blocks=list(blocks))


def inject(s, tot, off):
    """index terms of a block give index terms of the whole, and back."""
    c = ctx()
    key = ("inject", dkey(s), dkey(tot), dkey(off))
    if key in c.memo or dkey(s) == dkey(tot):
        return
    c.memo[key] = True
    if isz(s):
        c.facts.append(K.Fact([(dkey(s), s)], lambda i: (True, [(tot, norm(ADD(off, i)))]), "inject"))
    else:
        for i in range(min(s, 4)):
            c.touch(tot, norm(ADD(off, i)))
    if isz(s):
        c.facts.append(K.Fact([(dkey(tot), tot)], lambda i: (True, [(s, norm(SUB(i, off)))]), "project"))


def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    nd = arrs[0].ndim
    if axis < 0:
        axis += nd
    if any(a.ndim != nd for a in arrs):
        lib_raise(ValueError("all the input array dimensions must match"))
    k = "b" if all(a.k == "b" for a in arrs) else ("r" if any(a.k == "r" for a in arrs) else "i")
    if any(a.k == "o" for a in arrs):
        k = "o"
    if len(arrs) == 1:
        return arrs[0].copy()
    for a in arrs[1:]:
        for p in range(nd):
            if p != axis and not samedim(a._shape[p], arrs[0]._shape[p]):
                lib_raise(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    if nd == 1:
        blocks = []
        for a in arrs:
            if a.blocks:
                blocks += a.blocks
            else:
                blocks.append((a._shape[0], (lambda g: lambda i: g(i))(a.getter())))
        return from_blocks(blocks, k)
    # along one axis of an n-d array
    gs = [a.getter() for a in arrs]
    offs, tot = [], 0
    for a in arrs:
        offs.append(norm(tot))
        tot = norm(ADD(tot, a._shape[axis]))
    sizes = [a._shape[axis] for a in arrs]
    if isz(tot):
        for s, o in zip(sizes, offs):
            inject(s, tot, o)

    def fn(ix):
        i = ix[axis]
        out = None
        for p in range(len(arrs) - 1, -1, -1):
            loc = norm(SUB(i, offs[p]))
            s = sizes[p]
            if not isz(loc) and not isz(s):
                if 0 <= loc < s:
                    return cast(gs[p](*ix[:axis], loc, *ix[axis + 1:]), k)
                continue
            v = cast(gs[p](*ix[:axis], loc, *ix[axis + 1:]), k)
            out = v if out is None else K.where(LT(i, norm(ADD(offs[p], s))), v, out)
        if out is None:
            # no such element: an arbitrary value (every use is guarded by an empty range)
            if k not in "rib":
                raise K.Unsupported("element of an empty array")
            return Sc({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[k]("void_" + k), k)
        return out
    sh = list(arrs[0]._shape)
    sh[axis] = tot
    return Arr(sh, k, fn)


# ------------------------------------------------------------------ reductions

def reduce_bool(a, axis, conj):
    if a.k != "b":
        a = a.astype(bool)
    g = a.getter()
    c = ctx()
    if axis is None:
        if conj:
            b = c.forall_bool(a._shape, lambda *ix: g(*ix).t, "all")
        else:
            b = c.exists_bool(a._shape, lambda *ix: g(*ix).t, "any")
        return Sc(b, "b")
    axis = axis % a.ndim
    d = a._shape[axis]
    sh = a._shape[:axis] + a._shape[axis + 1:]
    if isz(d):
        def fn(ix):
            f = lambda j: g(*ix[:axis], j, *ix[axis:]).t
            return Sc(c.forall_bool([d], f, "all") if conj else c.exists_bool([d], f, "any"), "b")
    else:
        def fn(ix):
            v = [g(*ix[:axis], j, *ix[axis:]).t for j in range(d)]
            return Sc(AND(*v) if conj else OR(*v), "b")
    return Arr(sh, "b", fn)


def reduce_fold(a, axis, f, init):
    if a.k == "b":
        a = a.astype(int)
    g = a.getter()
    if axis is None:
        if any(isz(d) for d in a._shape):
            raise K.Unsupported("sum over a symbolic dimension")
        v = Sc(init, a.k)
        for ix in itertools.product(*[range(d) for d in a._shape]):
            v = f(v, g(*ix))
        return v
    axis = axis % a.ndim
    d = a._shape[axis]
    if isz(d):
        raise K.Unsupported("sum over a symbolic dimension")

    def fn(ix):
        v = Sc(init, a.k)
        for j in range(d):
            v = f(v, g(*ix[:axis], j, *ix[axis:]))
        return v
    sh = a._shape[:axis] + a._shape[axis + 1:]
    if not sh:
        return fn(())
    return Arr(sh, a.k, fn)


def reduce_minmax(a, axis, rel, name, initial=None):
    c = ctx()
    g = a.getter()
    if axis is not None:
        axis = axis % a.ndim
    if axis is not None and a.ndim > 1:
        d = a._shape[axis]
        if isz(d):
            if any(isz(x) or x > 8 for p, x in enumerate(a._shape) if p != axis):
                raise K.Unsupported("min/max along an axis")
            import numpy as _np
            sh = a._shape[:axis] + a._shape[axis + 1:]
            outs = [reduce_minmax(a[tuple(ix[:axis]) + (slice(None),) + tuple(ix[axis:])], None, rel, name, initial)
                    for ix in itertools.product(*[range(x) for x in sh])]
            return asarr(outs).reshape(*sh)
        pick = K.minimum if name == "min" else K.maximum

        def fn(ix):
            v = g(*ix[:axis], 0, *ix[axis:])
            for j in range(1, d):
                v = pick(v, g(*ix[:axis], j, *ix[axis:]))
            return v
        return Arr(a._shape[:axis] + a._shape[axis + 1:], a.k, fn)
    n = 1
    for d in a._shape:
        n = MUL(n, d)
    n = norm(n)
    init = None if initial is None else cast(lift(initial), "r" if a.k != "i" or lift(initial).k == "r" else "i")
    if init is None:
        nonempty = LT(0, n)
        if not (isz(nonempty) and ctx().known(nonempty)) and not ctx().decide(nonempty):
            lib_raise(ValueError("zero-size array to reduction operation {} which has no identity".format(name)))
    if not isz(n) and n <= 8:
        pick = K.minimum if name == "min" else K.maximum
        vals = [g(*ix) for ix in itertools.product(*[range(d) for d in a._shape])]
        v = init if init is not None else vals.pop(0)
        for w in vals:
            v = pick(v, w)
        return v
    ck = [K.canon(dkey(d), q) for q, d in enumerate(a._shape)]
    e = g(*ck)
    key = (name, tuple(dkey(d) for d in a._shape), rid(e.t), str(e.sp), str(initial))
    if isz(e.t):
        K.keep(e.t)
    if key in c.memo:
        return c.memo[key]
    w = [c.int(name + "_at") for _ in a._shape]
    for x, d in zip(w, a._shape):
        c.touch(d, x)
    r = g(*w)
    k = a.k if init is None else init.k
    if a.k == "b":
        raise K.Unsupported("min/max of booleans")
    t = c.int(name) if k == "i" else c.real(name)
    spc = None
    if r.sp or (init is not None and init.sp):
        spc = (c.bool(name + "_nan"), c.bool(name + "_pinf"), c.bool(name + "_ninf"))
        c.assume(NOT(OR(AND(spc[0], spc[1]), AND(spc[0], spc[2]), AND(spc[1], spc[2]))))
    v = Sc(t, k, spc)
    rng = AND(*[inr(x, d) for x, d in zip(w, a._shape)])
    hit = AND(rng, K.ident(v, cast(r, k)))
    if init is not None:
        hit = OR(hit, K.ident(v, init))
        c.assume(OR(v.nan, rel(v, init).t))
    c.assume(hit)
    c.forall(a._shape, lambda *ix: OR(v.nan, rel(v, cast(g(*ix), k)).t), name)
    if r.sp:
        c.forall(a._shape, lambda *ix: IMP(g(*ix).nan, v.nan), name + "_nan")
    c.memo[key] = v
    return v


# ------------------------------------------------------------------ compress

class Comp:
    """Order-preserving selection of the indices where a mask holds."""

    def __init__(self, n, fn):
        c = ctx()
        self.n, self.fn = n, fn
        self.m = c.int("count")
        self.f = c.leaf("sel", [self.m], K.I_)
        self.r = c.leaf("rank", [n], K.I_)
        c.assume(AND(LE(0, self.m), LE(self.m, n)))
        m, sel, rank = self.m, self.sel, self.rank
        c.forall([m], lambda k: AND(inr(sel(k), n), fn(sel(k)), EQ(rank(sel(k)), k)), "mask-sel")
        c.forall([n], lambda i: IMP(fn(i), AND(inr(rank(i), m), EQ(sel(rank(i)), i))), "mask-rank")
        c.forall([m, m], lambda k, l: IMP(LT(k, l), LT(sel(k), sel(l))), "mask-order",
                 trig=lambda a, b: a.get_id() != b.get_id())

    def sel(self, k):
        return self.f(K.toint(k))

    def rank(self, i):
        return self.r(K.toint(i))


def compress_of(mask):
    """mask: 1-D boolean Arr -> Comp (memoised by content)."""
    c = ctx()
    n = mask._shape[0]
    g = mask.getter()
    e = True if not isz(n) and n == 0 else g(K.canon(dkey(n), 0)).t
    if isz(e):
        K.keep(e)
        if z3.is_true(z3.simplify(e)):
            e = True
    key = ("comp", dkey(n), rid(e))
    if key not in c.memo:
        if not isz(e) and e or (not isz(n) and n == 0):
            s = Comp.__new__(Comp)
            s.n = s.m = n
            s.sel = s.rank = lambda k: k
            c.memo[key] = s
        else:
            c.memo[key] = Comp(n, lambda i: g(i).t)
    return c.memo[key]


def as_mask(a):
    if a.ndim != 1:
        raise K.Unsupported("mask of {} dimensions".format(a.ndim))
    return a if a.k == "b" else a.astype(bool)


# ------------------------------------------------------------------- indexing

def norm_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    for q in key:
        if hasattr(q, "_as_arr"):
            q = q._as_arr()
        if isinstance(q, (list, range)):
            q = asarr(list(q)) if len(q) else Arr((0,), "i", lambda ix: Sc(0, "i"))
        out.append(q)
    n_new = sum(1 for q in out if q is None)
    used = sum((q.ndim if isinstance(q, Arr) and q.k == "b" and q.ndim else 1) for q in out if q is not None and q is not Ellipsis)
    if any(q is Ellipsis for q in out):
        p = [q is Ellipsis for q in out].index(True)
        out[p:p + 1] = [slice(None)] * (a.ndim - used)
    else:
        out += [slice(None)] * (a.ndim - used)
    if len(out) - n_new > a.ndim:
        if any(isinstance(q, Arr) and q.k == "b" and q.ndim > 1 for q in out):
            return out
        lib_raise(IndexError("too many indices for array"))
    return out


def index_term(i, n):
    """Scalar index (python int or Sc) into a dimension n -> raw index."""
    v = lift(i) if not isinstance(i, Arr) else i.at()
    t = v.t
    if v.k == "b":
        raise K.Unsupported("boolean scalar index")
    if v.k != "i":
        lib_raise(IndexError("only integers are valid indices"))
    c = ctx()
    if not isz(t):
        ok = LE(-t, n) if t < 0 else LT(t, n)
        if not c.decide(ok):
            lib_raise(IndexError("index is out of bounds"))
        return norm(ADD(n, t)) if t < 0 else t
    if c.decide(inr(t, n)):
        return norm(t)
    if c.decide(AND(LE(SUB(0, n), t), LT(t, 0))):
        return norm(ADD(t, n))
    lib_raise(IndexError("index is out of bounds"))


def slice_map(s, n):
    """slice -> (length, start, step) raw."""
    step = 1 if s.step is None else rawdim(s.step)
    if isz(step):
        raise K.Unsupported("symbolic slice step")

    def bound(b, default):
        if b is None:
            return default
        b = rawdim(b)
        if not isz(b):
            if b < 0:
                t = norm(ADD(n, b))
                if not isz(t):
                    return max(t, 0)
                if ctx().known(LE(0, t)):
                    return t
                return norm(ITE(LE(0, t), t, 0))
            if not isz(n):
                return min(b, n)
            if b == 0 or ctx().known(LE(b, n)):
                return b
            return ITE(LE(b, n), b, n)
        if ctx().known(AND(LE(0, b), LE(b, n))):
            return b
        raise K.Unsupported("symbolic slice bound")
    if step > 0:
        lo, hi = bound(s.start, 0), bound(s.stop, n)
        span = norm(SUB(hi, lo))
        if isz(span) and not ctx().known(LE(0, span)):
            span = ITE(LE(0, span), span, 0)
        elif not isz(span):
            span = max(span, 0)
        q, _ = divmod_c(norm(ADD(span, step - 1)), step)
        return norm(q), lo, step
    if s.start is None and s.stop is None:
        if step == -1:
            return n, norm(SUB(n, 1)), -1
    if not isz(n):
        r = range(n)[slice(s.start if s.start is None else rawdim(s.start), s.stop if s.stop is None else rawdim(s.stop), step)]
        return len(r), r.start, step
    raise K.Unsupported("negative slice step with bounds")


def fancy_in_range(ix, n):
    """All entries of the integer array are valid indices; returns wrap flag."""
    c = ctx()
    g = ix.getter()
    B = c.forall_bool(ix._shape, lambda *q: inr(g(*q).t, n), "inrange")
    if c.known(B):
        return False
    if c.decide(B):
        return False
    W = c.forall_bool(ix._shape, lambda *q: AND(LE(SUB(0, n), g(*q).t), LT(g(*q).t, n)), "inrange_wrap")
    if not c.decide(W):
        lib_raise(IndexError("index is out of bounds for axis"))
    return True


def getitem(a, key):
    if isinstance(key, IxKey):
        return getitem(a, (key.rows, slice(None)))[:, key.cols] if a.ndim == 2 else unsupported("ix_")
    if isinstance(key, Arr) and key.k == "b" and key.ndim == a.ndim and a.ndim > 1:
        raise K.Unsupported("boolean mask of several dimensions")
    ks = norm_key(a, key)
    adv = [p for p, q in enumerate(ks) if isinstance(q, Arr) and q.ndim > 0]
    if not adv:
        return basic(a, ks)
    # advanced: resolve scalars among advanced as broadcast only when no arrays
    # axis bookkeeping
    axes, ax = [], 0
    for q in ks:
        axes.append(ax)
        if q is not None:
            ax += 1
    if any(q is None for q in ks):
        ks2 = [q for q in ks if q is not None]
        r = getitem(a, tuple(ks2))
        if len(adv) == 1 and ks[adv[0]].ndim == 1:
            out = tuple(None if q is None else slice(None) for q in ks if q is None or not (isinstance(q, (int, Sc))))
            return r[out]
        raise K.Unsupported("newaxis with advanced indexing")
    masks = {}
    idx = []
    for p in adv:
        q = ks[p]
        if q.k == "b":
            m = as_mask(q)
            if not samedim(m._shape[0], a._shape[axes[p]]):
                lib_raise(IndexError("boolean index did not match indexed array"))
            s = compress_of(m)
            idx.append((p, Arr((s.m,), "i", (lambda s: lambda ix: Sc(s.sel(ix[0]), "i"))(s)), False))
        else:
            if q.k != "i":
                lib_raise(IndexError("arrays used as indices must be of integer (or boolean) type"))
            idx.append((p, q, fancy_in_range(q, a._shape[axes[p]])))
    # scalar integer keys together with arrays are advanced indices as well
    sc = [p for p, q in enumerate(ks) if not isinstance(q, (slice, Arr)) or (isinstance(q, Arr) and q.ndim == 0)]
    sh = bshape(*[q._shape for _, q, _ in idx])
    maps = [(p, q.getter(), bcast_map(q._shape, sh), wrap) for p, q, wrap in idx]
    first = min([p for p in adv] + sc)
    last = max([p for p in adv] + sc)
    contiguous = set(range(first, last + 1)) == set(adv) | set(sc)
    sl = [p for p, q in enumerate(ks) if isinstance(q, slice)]
    slm = {p: slice_map(ks[p], a._shape[p]) for p in sl}
    scv = {p: index_term(ks[p], a._shape[p]) for p in sc}
    pre = [p for p in sl if p < first] if contiguous else []
    post = [p for p in sl if p not in pre]
    shape = [slm[p][0] for p in pre] + list(sh) + [slm[p][0] for p in post]
    g = a.getter()
    nd = len(sh)

    def fn(ix):
        o = [None] * a.ndim
        for w, p in enumerate(pre):
            n, lo, st = slm[p]
            o[p] = norm(ADD(lo, MUL(st, ix[w])))
        for w, p in enumerate(post):
            n, lo, st = slm[p]
            o[p] = norm(ADD(lo, MUL(st, ix[len(pre) + nd + w])))
        for p, t in scv.items():
            o[p] = t
        bx = ix[len(pre):len(pre) + nd]
        for p, gg, mp, wrap in maps:
            t = gg(*mp(bx)).t
            if wrap:
                t = ITE(LT(t, 0), ADD(t, a._shape[p]), t)
            o[p] = norm(t) if isz(t) else t
        return g(*o)
    r = Arr(shape, a.k, fn)
    if len(ks) == 1 and isinstance(ks[0], Arr) and ks[0].k == "b":
        r.taken = (compress_of(as_mask(ks[0])), g)
    return r


def basic(a, ks):
    """basic indexing: a view"""
    shape, plan, ax = [], [], 0
    for q in ks:
        if q is None:
            shape.append(1)
            plan.append(("new",))
            continue
        n = a._shape[ax]
        if isinstance(q, slice):
            if q == slice(None):
                shape.append(n)
                plan.append(("sl", 0, 1, n))
            else:
                m, lo, st = slice_map(q, n)
                shape.append(m)
                plan.append(("sl", lo, st, m))
        else:
            plan.append(("ix", index_term(q, n)))
        ax += 1
    f, g = a.fwd, a.inv

    def fwd(ix):
        o, p = [], 0
        for s in plan:
            if s[0] == "new":
                p += 1
            elif s[0] == "ix":
                o.append(s[1])
            else:
                o.append(ix[p] if (s[1] == 0 if not isz(s[1]) else False) and s[2] == 1 else norm(ADD(s[1], MUL(s[2], ix[p]))))
                p += 1
        return f(tuple(o))

    def inv(root):
        c, ix = g(root)
        o, p = [], 0
        conds = [c]
        for s in plan:
            if s[0] == "new":
                o.append(0)
            elif s[0] == "ix":
                conds.append(EQ(ix[p], s[1]))
                p += 1
            else:
                _, lo, st, m = s
                t = norm(SUB(ix[p], lo))
                if st == 1:
                    if not ((not isz(lo) and lo == 0) and dkey(m) == dkey(a._shape[p])):
                        conds.append(inr(t, m))
                    o.append(t)
                elif st == -1:
                    t = norm(SUB(lo, ix[p]))
                    conds.append(inr(t, m))
                    o.append(t)
                elif st > 0:
                    qq, r = divmod_c(t, st)
                    conds.append(AND(EQ(r, 0), inr(qq, m)))
                    o.append(qq)
                else:
                    raise K.Unsupported("write through a negative step")
                p += 1
        return AND(*conds), tuple(o)
    if not shape:
        return a.buf.at(tuple(fwd(())))
    r = Arr(shape, a.k, buf=a.buf, fwd=fwd, inv=inv)
    r.owner = a.owner
    if len(ks) == 1 and isinstance(ks[0], slice) and ks[0] == slice(None):
        r.blocks = a.blocks
    return r


def setitem(a, key, v):
    ks = norm_key(a, key)
    adv = [p for p, q in enumerate(ks) if isinstance(q, Arr) and q.ndim > 0]
    if not adv:
        if any(q is None for q in ks):
            raise K.Unsupported("assignment through newaxis")
        full = [slice(q, None if q == -1 else q + 1) if isinstance(q, int) and not isinstance(q, bool) else q for q in ks]
        if any(isinstance(q, (Sc, Arr)) for q in full):
            # one element / row at a symbolic position
            plan = [("ix", index_term(q, a._shape[p])) if not isinstance(q, slice) else ("sl",) + slice_map(q, a._shape[p]) for p, q in enumerate(full)]
            va = asarr(v)
            rest = [s[1] for s in plan if s[0] == "sl"]
            mp, vg, inv, old, k = bcast_map(va._shape, rest), va.getter(), a.inv, a.buf.snap(), a.k

            def fn(root):
                c, ix = inv(root)
                conds, o = [c], []
                for s, i in zip(plan, ix):
                    if s[0] == "ix":
                        conds.append(EQ(i, s[1]))
                    else:
                        _, m, lo, st = s
                        t = norm(SUB(i, lo))
                        if st != 1:
                            raise K.Unsupported("strided symbolic assignment")
                        conds.append(inr(t, m))
                        o.append(t)
                return K.where(AND(*conds), cast(vg(*mp(tuple(o))), k), old.at(root))
            a.buf.set(fn)
            a.blocks = None
            if a.owner:
                a.owner()
            return
        w = basic(a, full)
        va = asarr(v)
        drop = [p for p, q in enumerate(ks) if isinstance(q, int)]
        if drop and va.ndim:
            sh = [d for p, d in enumerate(w._shape)]
            # re-insert the dropped axes
            nd = va.ndim
            rest = [p for p in range(len(ks)) if p not in drop]
            sel = []
            for p in range(len(ks)):
                sel.append(None if p in drop else slice(None))
            if nd == len(rest):
                va = va[tuple(sel)]
            else:
                raise K.Unsupported("assignment with broadcasting over dropped axes")
        w._store(va)
        a.blocks = None
        return
    if len(adv) != 1 or adv[0] != 0 or any(not (isinstance(q, slice) and q == slice(None)) for q in ks[1:]):
        return setitem_general(a, ks, adv, v)
    q = ks[0]
    va = asarr(v)
    inv, old, k = a.inv, a.buf.snap(), a.k
    rest = a._shape[1:]
    if q.k == "b":
        m = as_mask(q)
        if not samedim(m._shape[0], a._shape[0]):
            lib_raise(IndexError("boolean index did not match indexed array"))
        mg = m.getter()
        if va.ndim < 1 + len(rest) or (not isz(va._shape[0]) and va._shape[0] == 1):
            vv = va
            if va.ndim == 1 + len(rest):
                vv = va[0] if va.ndim > 1 else scalar_arr(va.at(0))
            mp, vg = bcast_map(vv._shape, rest), vv.getter()
            val = lambda ix: vg(*mp(ix[1:]))
        else:
            s = compress_of(m)
            if not samedim(va._shape[0], s.m):
                lib_raise(ValueError("NumPy boolean array indexing assignment cannot assign input values to the output values where the mask is true"))
            mp, vg = bcast_map(va._shape, (s.m,) + rest), va.getter()
            val = lambda ix: vg(*mp((s.rank(ix[0]),) + tuple(ix[1:])))

        def fn(root):
            c, ix = inv(root)
            if not isz(c) and not c:
                return old.at(root)
            return K.where(AND(c, mg(ix[0]).t), cast(val(ix), k), old.at(root))
    else:
        if q.ndim != 1:
            raise K.Unsupported("assignment through an index array of {} dimensions".format(q.ndim))
        wrap = fancy_in_range(q, a._shape[0])
        n, m = a._shape[0], q._shape[0]
        qg = q.getter()
        c0 = ctx()
        loc = (lambda k_: (lambda t: ITE(LT(t, 0), ADD(t, n), t) if wrap else t)(qg(k_).t))
        # last writer wins; the index array must be injective for us
        if not isz(m) and m <= 8:
            mp, vg = bcast_map(va._shape, (m,) + rest), va.getter()

            def fn(root):
                c, ix = inv(root)
                out = old.at(root)
                for p in range(m):
                    out = K.where(AND(c, EQ(ix[0], loc(p))), cast(vg(*mp((p,) + tuple(ix[1:]))), k), out)
                return out
        else:
            inj = c0.forall_bool([m, m], lambda x, y: IMP(LT(x, y), NE(loc(x), loc(y))), "injective")
            if va.ndim and not (not isz(va._shape[0]) and va._shape[0] == 1) and not c0.known(inj):
                raise K.Unsupported("assignment through a possibly repeating index array")
            pos = c0.leaf("writer", [n], K.I_)
            hit = lambda i: AND(inr(pos(K.toint(i)), m), EQ(loc(pos(K.toint(i))), i))
            c0.forall([m], lambda x: AND(EQ(pos(K.toint(loc(x))), x) if c0.known(inj) else True, hit(loc(x))), "writer")
            mp, vg = bcast_map(va._shape, (m,) + rest), va.getter()

            def fn(root):
                c, ix = inv(root)
                return K.where(AND(c, hit(ix[0])), cast(vg(*mp((pos(K.toint(ix[0])),) + tuple(ix[1:]))), k), old.at(root))
    a.buf.set(fn)
    a.blocks = None
    if a.owner:
        a.owner()


def setitem_general(a, ks, adv, v):
    """mask on one axis, integers/slices on the others."""
    if len(adv) == 1 and ks[adv[0]].k == "b":
        va = asarr(v)
        if va.ndim == 0:
            p = adv[0]
            m = as_mask(ks[p])
            mg = m.getter()
            others = [(slice(q, q + 1) if isinstance(q, int) else q) if r != p else slice(None) for r, q in enumerate(ks)]
            w = basic(a, others)
            inv, old, k, x = w.inv, a.buf.snap(), a.k, va.at()

            def fn(root):
                c, ix = inv(root)
                return K.where(AND(c, mg(ix[p]).t), cast(x, k), old.at(root))
            a.buf.set(fn)
            a.blocks = None
            if a.owner:
                a.owner()
            return
    raise K.Unsupported("assignment with this index")


class IxKey:
    def __init__(self, rows, cols):
        self.rows, self.cols = rows, cols


# ------------------------------------------------------------- linear algebra

def matmul(a, b):
    if hasattr(b, "_rmatmul"):
        return b._rmatmul(a)
    if a.ndim == 0 or b.ndim == 0:
        lib_raise(ValueError("matmul: Input operand does not have enough dimensions"))
    va, vb = a.ndim == 1, b.ndim == 1
    A = a[None, :] if va else a
    B = b[:, None] if vb else b
    m = A._shape[-1]
    if not samedim(m, B._shape[-2]):
        lib_raise(ValueError("matmul: Input operand 1 has a mismatch in its core dimension"))
    if isz(m):
        raise K.Unsupported("matrix product over a symbolic dimension")
    lead = bshape(A._shape[:-2], B._shape[:-2]) if (A.ndim > 2 or B.ndim > 2) else ()
    ma, mb = bcast_map(A._shape[:-2], lead), bcast_map(B._shape[:-2], lead)
    ga, gb = A.getter(), B.getter()
    k = "r" if "r" in (A.k, B.k) else "i"

    def fn(ix):
        l, i, j = ix[:-2], ix[-2], ix[-1]
        v = Sc(0, k)
        for q in range(m):
            v = K.add(v, K.mul(ga(*ma(l), i, q), gb(*mb(l), q, j)))
        return v
    r = Arr(tuple(lead) + (A._shape[-2], B._shape[-1]), k, fn)
    if va and vb:
        return r.at(*([0] * r.ndim))
    if va:
        return r[..., 0, :]
    if vb:
        return r[..., 0]
    return r


# ----------------------------------------------------------------- sort family

class Perm:
    """A permutation p of [0,n) with inverse q."""

    def __init__(self, n, name="perm"):
        c = ctx()
        self.n = n
        self.f = c.leaf(name, [n], K.I_)
        self.g = c.leaf(name + "_inv", [n], K.I_)
        c.forall([n], lambda k: AND(inr(self.p(k), n), EQ(self.q(self.p(k)), k)), name)
        c.forall([n], lambda i: AND(inr(self.q(i), n), EQ(self.p(self.q(i)), i)), name + "-inv")

    def p(self, k):
        return self.f(K.toint(k))

    def q(self, i):
        return self.g(K.toint(i))


class IdPerm(Perm):
    """The identity."""

    def __init__(self, n):
        self.n = n

    def p(self, k):
        return k

    def q(self, i):
        return i


def lexle(a, b, strict=False):
    """lists of Sc: a lexicographically <= (or <) b, raw Bool"""
    out = (not strict)
    for x, y in reversed(list(zip(a, b))):
        out = OR(K.lt(x, y).t, AND(K.eq(x, y).t, out))
    return out


def sort_perm(n, keyfn, stable, tag):
    """Permutation sorting keyfn(i) (list of Sc) in non-decreasing order."""
    c = ctx()
    cn = K.canon(dkey(n), 0)
    ks = keyfn(cn)
    for v in ks:
        if isz(v.t):
            K.keep(v.t)
    key = ("sort", dkey(n), tuple((rid(v.t), str(v.sp)) for v in ks), stable)
    old = c.memo.get(key)
    if old is not None and (isinstance(old, IdPerm) or not stable or old.stamp == c.stamp()):
        return old
    if isz(n):
        # a sequence known to be sorted (strictly, for an unstable sort) stays as it is
        w = c.int("adj")
        w1 = norm(ADD(w, 1))
        g = lexle(keyfn(w), keyfn(w1), strict=not stable)
        r = g is True
        if not r and isz(g):
            for d in (1, 2):
                if c.refute([LE(0, w), LT(w1, n), NOT(g)], d, 1500, touch=[(n, w), (n, w1)], only="focus", nl=False, limit=1500)[0] == "unsat":
                    r = True
                    break
        if r:
            c.rep.trusted.add("lemma (induction): a sequence non-decreasing at neighbouring positions is non-decreasing, and (stable) sorting leaves it unchanged")
            c.forall([n, n], lambda k, l: IMP(LT(k, l), lexle(keyfn(k), keyfn(l), strict=not stable)), "sorted",
                     trig=lambda a, b: a.get_id() != b.get_id())
            P = IdPerm(n)
            c.memo[key] = P
            if old is not None:
                for f in old.facts:
                    f.dead = True
                old.p = old.q = lambda k: k      # from now on
                c.memo[("superseded", id(old))] = old
            return P
    if old is not None:
        old.stamp = c.stamp()
        return old
    if not isz(n) and n <= 1:
        c.memo[key] = IdPerm(n)
        return c.memo[key]
    nf0 = len(c.facts)
    P = Perm(n, "order")
    c.memo[key] = P
    c.forall([n, n], lambda k, l: IMP(LT(k, l), lexle(keyfn(P.p(k)), keyfn(P.p(l)))), "sorted",
             trig=lambda a, b: a.get_id() != b.get_id())
    if stable:
        c.forall([n, n], lambda k, l: IMP(AND(LT(k, l), lexle(keyfn(P.p(l)), keyfn(P.p(k)))), LT(P.p(k), P.p(l))),
                 "stable", trig=lambda a, b: a.get_id() != b.get_id())
        # a stable sort of a sorted sequence is the identity
        w = c.int("unsorted_at")
        S = c.bool("is_sorted")
        c.touch(n, w, S)
        c.touch(n, ADD(w, 1), S)
        c.assume(OR(S, AND(LE(0, w), LT(ADD(w, 1), n), NOT(lexle(keyfn(w), keyfn(norm(ADD(w, 1))))))))
        c.forall([n], lambda k: IMP(S, EQ(P.p(k), k)), "sorted-identity", guard=S)
    # argsort of a permutation of 0..n-1 is its inverse
    if len(ks) == 1 and ks[0].k == "i":
        f = lambda i: keyfn(i)[0].t
        B = [c.int("ap"), c.int("ap")]
        def no(neg, *ts):
            return any(c.refute(neg, d, 3000, touch=[(n, t) for t in ts], only="focus", limit=2500)[0] == "unsat" for d in (1, 2))
        if no([inr(B[0], n), NOT(inr(f(B[0]), n))], B[0]):
            if no([inr(B[0], n), inr(B[1], n), LT(B[0], B[1]), EQ(f(B[0]), f(B[1]))], *B):
                c.rep.trusted.add("lemma: a sequence of n distinct integers in [0,n) sorted is 0..n-1")
                c.forall([n], lambda k: EQ(f(P.p(k)), k), "argsort-inverse")
                c.forall([n], lambda i: AND(EQ(P.p(f(i)), i), inr(f(i), n)), "argsort-inverse2")
    P.stamp = c.stamp()
    P.facts = c.facts[nf0:]
    return P


def argsort(a, axis=-1, kind=None):
    a = asarr(a)
    axis = axis % a.ndim
    d = a._shape[axis]
    if a.ndim == 1 and isz(d):
        g = a.getter()
        P = sort_perm(d, lambda i: [g(i)], kind in ("stable", "mergesort"), "argsort")
        return Arr((d,), "i", lambda ix: Sc(P.p(ix[0]), "i"))
    if isz(d):
        raise K.Unsupported("argsort along a symbolic axis of a 2-D array")
    g = a.getter()
    if d > 4:
        raise K.Unsupported("argsort of a wide static axis")

    # rank of each entry (insertion sort, hence stable, for these sizes)
    def fn(ix):
        i = ix[axis]
        vals = [g(*ix[:axis], q, *ix[axis + 1:]) for q in range(d)]
        rank = []
        for q in range(d):
            t = 0
            for p in range(d):
                if p != q:
                    before = K.le(vals[p], vals[q]).t if p < q else K.lt(vals[p], vals[q]).t
                    t = ADD(t, K.b2i(before))
            rank.append(t)
        out = d - 1
        for q in range(d - 2, -1, -1):
            out = ITE(EQ(rank[q], i), q, out)
        return Sc(out, "i")
    if d == 2:
        def fn(ix):
            i = ix[axis]
            v = [g(*ix[:axis], q, *ix[axis + 1:]) for q in range(2)]
            sw = K.lt(v[1], v[0]).t
            if not isz(i):
                return Sc(ITE(sw, 1 - i, i), "i")
            return Sc(ITE(sw, SUB(1, i), i), "i")
    return Arr(a._shape, "i", fn)


def sort(a, axis=-1, kind=None):
    a = asarr(a)
    if a.ndim == 1 and isz(a._shape[0]):
        g, n = a.getter(), a._shape[0]
        c = ctx()
        P = sort_perm(n, lambda i: [g(i)], True, "sort")   # the sorted values do not depend on ties
        return Arr((n,), a.k, lambda ix: g(P.p(ix[0])))
    ix = argsort(a, axis)
    return take_along_axis(a, ix, axis)


def take_along_axis(a, ix, axis):
    a, ix = asarr(a), asarr(ix)
    axis = axis % a.ndim
    for p in range(a.ndim):
        if p != axis and not samedim(a._shape[p], ix._shape[p]):
            lib_raise(IndexError("shape mismatch"))
    n = a._shape[axis]
    g, h = a.getter(), ix.getter()
    if isz(n):
        fancy_in_range(ix, n)

    def fn(q):
        t = h(*q).t
        if isz(t) and not isz(n):
            out = g(*q[:axis], n - 1, *q[axis + 1:])
            for p in range(n - 2, -1, -1):
                out = K.where(EQ(t, p), g(*q[:axis], p, *q[axis + 1:]), out)
            return out
        return g(*q[:axis], t, *q[axis + 1:])
    return Arr(ix._shape, a.k, fn)


def tobool_(b):
    K.keep(b) if isz(b) else None
    return b if isz(b) else None


def unique(a):
    a = asarr(a).ravel()
    c = ctx()
    n, g = a._shape[0], a.getter()
    if not isz(n) and n == 0:
        return a
    e = g(K.canon(dkey(n), 0))
    if isz(e.t):
        K.keep(e.t)
    key = ("unique", dkey(n), rid(e.t), str(e.sp))
    if key in c.memo:
        return c.memo[key]
    m = c.int("n_unique")
    c.assume(AND(LE(0, m), LE(m, n), IMP(LT(0, n), LT(0, m))))
    src = c.leaf("usrc", [m], K.I_)
    pos = c.leaf("upos", [n], K.I_)
    u = lambda k: g(src(K.toint(k)))
    c.forall([m], lambda k: AND(inr(src(K.toint(k)), n), EQ(pos(src(K.toint(k))), k)), "unique-src")
    c.forall([n], lambda i: AND(inr(pos(K.toint(i)), m), K.ident(u(pos(K.toint(i))), g(i))), "unique-pos")
    ne = lambda a_, b_: a_.get_id() != b_.get_id()
    c.forall([m, m], lambda k, l: IMP(LT(k, l), K.lt(u(k), u(l)).t), "unique-increasing", trig=ne)
    # m = n exactly when all values are distinct
    c.forall([n, n], lambda i, j: IMP(AND(EQ(m, n), LT(i, j)), NOT(K.ident(g(i), g(j)))), "unique-distinct", trig=ne)
    w1, w2 = c.int("dup"), c.int("dup")
    c.touch(n, w1, tobool_(EQ(m, n)))
    c.touch(n, w2, tobool_(EQ(m, n)))
    c.assume(OR(EQ(m, n), AND(LE(0, w1), LT(w1, w2), LT(w2, n), K.ident(g(w1), g(w2)))))
    # an increasing sequence is its own unique
    w = c.int("not_increasing_at")
    S = c.bool("is_increasing")
    c.touch(n, w, S)
    c.touch(n, ADD(w, 1), S)
    c.assume(OR(S, AND(LE(0, w), LT(ADD(w, 1), n), NOT(K.lt(g(w), g(norm(ADD(w, 1)))).t))))
    c.assume(IMP(S, EQ(m, n)))
    c.forall([m], lambda k: IMP(S, EQ(src(K.toint(k)), k)), "unique-identity", guard=S)
    r = Arr((m,), a.k, lambda ix: u(ix[0]))
    c.memo[key] = r
    return r


def repeat(a, n, axis=None):
    a = asarr(a)
    n = rawdim(n)
    if isz(n):
        raise K.Unsupported("repeat a symbolic number of times")
    if axis is None:
        a = a.ravel()
        axis = 0
    axis = axis % a.ndim
    g = a.getter()
    sh = list(a._shape)
    sh[axis] = norm(MUL(n, sh[axis]))
    return Arr(sh, a.k, lambda ix: g(*ix[:axis], divmod_c(ix[axis], n)[0], *ix[axis + 1:]))
