"""Loads the real source of /repo/src/fibermat with the contracts in place of
the libraries.  Nothing is dropped except docstrings and the `__main__` blocks
(which never run on import); `for`/`while` loops and list displays with stars
are routed through hooks so that symbolic ones can be cut by invariants."""
import ast
import builtins
import os
import sys
import types
import warnings

from . import core as K
from . import arr as A
from . import spd
from . import ssp
from .core import Sc, lift, isz, ctx
from .snp import np
from .spd import pd

REPO = os.environ.get("FM_REPO", "/repo")
SRC = os.path.join(REPO, "src", "fibermat")


# ---------------------------------------------------------------- builtins
def slen(x):
    if hasattr(x, "slen"):
        return x.slen()
    return builtins.len(x)


def smin(*a, **k):
    if k:
        return builtins.min(*a, **k)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (A.Arr, spd.Series, spd.Index)):
            r = A.asarr(x)
            return r.min()
        a = tuple(x)
    if any(isinstance(q, Sc) for q in a):
        v = lift(a[0])
        for q in a[1:]:
            v = K.where(K.lt(lift(q), v).t, lift(q), v)
        return v
    return builtins.min(*a)


def smax(*a, **k):
    if k:
        return builtins.max(*a, **k)
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (A.Arr, spd.Series, spd.Index)):
            return A.asarr(x).max()
        a = tuple(x)
    if any(isinstance(q, Sc) for q in a):
        v = lift(a[0])
        for q in a[1:]:
            v = K.where(K.gt(lift(q), v).t, lift(q), v)
        return v
    return builtins.max(*a)


def sabs(x):
    return abs(x)


def ssum(x, start=0):
    if isinstance(x, (A.Arr, spd.Series)):
        return A.asarr(x).sum() + start
    return builtins.sum(x, start)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, Sc) and o.k == cls._k or builtins.isinstance(o, cls._base)

    def __eq__(cls, o):
        return o is cls or o is cls._base or (isinstance(o, A.Dtype) and o == cls._base)

    def __hash__(cls):
        return hash(cls._base)


def sisinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        if isinstance(x, Sc):
            if q is int and x.k in "ib" or q is float and x.k == "r" or q is bool and x.k == "b":
                return True
        if q is list and isinstance(x, SymList):
            return True
    try:
        return builtins.isinstance(x, t)
    except TypeError:
        return False


def sint(x=0, *a):
    if isinstance(x, Sc):
        if x.sp and ctx().possible(K.NOT(x.fin)):
            raise K.Unsupported("int() of a possibly infinite value")
        return K.cast(x, "i")
    if isinstance(x, A.Arr):
        return sint(x.item())
    return builtins.int(x, *a)


def sfloat(x=0.):
    if isinstance(x, Sc):
        return K.cast(x, "r")
    if isinstance(x, A.Arr):
        return sfloat(x.item())
    return builtins.float(x)


def sbool(x=False):
    return K.cast(x, "b") if isinstance(x, Sc) else builtins.bool(x)


class SRange:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def slen(self):
        return A.wrapint(K.norm(K.SUB(self.hi, self.lo)))


def srange(*a):
    if any(isinstance(q, Sc) and isz(q.t) for q in a):
        if len(a) == 1:
            return SRange(0, a[0].t)
        if len(a) == 2:
            return SRange(A.rawdim(a[0]), A.rawdim(a[1]))
        raise K.Unsupported("range with a symbolic step")
    return builtins.range(*[q.__index__() if isinstance(q, Sc) else q for q in a])


class _Ty(type):
    """int / float / bool as both types and conversion functions"""


def mk_type(base, conv):
    # the code uses int/float/bool as functions, dtypes and isinstance targets
    class T(base if base is not bool else int):
        def __new__(cls, *a, **k):
            return conv(*a, **k)
    T.__name__ = base.__name__
    return T


class SymList(list):
    """a python list extended inside a cut loop (solver histories)"""


BUILTINS = dict(vars(builtins))
BUILTINS.update(len=slen, min=smin, max=smax, sum=ssum, isinstance=sisinstance, range=srange)


class IntProxy:
    """stands for the builtin type `int` (callable, comparable with dtypes)"""

    def __init__(self, base, conv):
        self.base, self.conv = base, conv

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __eq__(self, o):
        return o is self or o is self.base

    def __hash__(self):
        return hash(self.base)


_of = A.Dtype.of


def dtype_of(x):
    return _of(x.base) if isinstance(x, IntProxy) else _of(x)


A.Dtype.of = staticmethod(dtype_of)
np.dtype = dtype_of
BUILTINS["int"] = IntProxy(int, sint)
BUILTINS["float"] = IntProxy(float, sfloat)
BUILTINS["bool"] = IntProxy(bool, sbool)


def _si(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    return sisinstance(x, tuple(q.base if isinstance(q, IntProxy) else q for q in ts))


BUILTINS["isinstance"] = _si

# ------------------------------------------------------------------ modules


class Stub(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self.__name__ + "." + k)


class Opaque:
    """something of a library that no contract describes"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __call__(self, *a, **k):
        raise K.Unsupported("call of {}".format(self._name))

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Opaque(self._name + "." + k)

    def __mro_entries__(self, bases):
        return (object,)


class _Warn(types.ModuleType):
    pass


swarn = _Warn("warnings")


class _Catch:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


swarn.warn = lambda *a, **k: None
swarn.catch_warnings = _Catch
swarn.filterwarnings = lambda *a, **k: None
swarn.simplefilter = lambda *a, **k: None


class Tqdm:
    def __init__(self, it=None, total=None, **k):
        self.it, self.total = it, total

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def set_description(self, *a, **k):
        pass

    def update(self, *a, **k):
        pass

    def close(self):
        pass

    def __iter__(self):
        return iter(self.it)


MODULES = {}


def reg(name, mod):
    MODULES[name] = mod


tq = types.ModuleType("tqdm")
tq.tqdm = Tqdm
for _nm in ("numpy", "pandas", "warnings", "tqdm", "copy", "math", "itertools", "functools", "operator"):
    reg(_nm, dict(numpy=np, pandas=pd, warnings=swarn, tqdm=tq).get(_nm) or __import__(_nm))
reg("numpy.linalg", np.linalg)
reg("numpy.random", np.random)
for _nm, _m in ssp.make().items():
    reg(_nm, _m)


def get_module(name):
    if name in MODULES:
        return MODULES[name]
    m = Stub(name)
    MODULES[name] = m
    if "." in name:
        parent, leaf = name.rsplit(".", 1)
        setattr(get_module(parent), leaf, m)
    return m


# ------------------------------------------------------------ AST transform

class Tr(ast.NodeTransformer):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
            node.body = node.body[1:] or [ast.Pass()]
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        return self.loop(node, True)

    def visit_While(self, node):
        self.generic_visit(node)
        return self.loop(node, False)

    def loop(self, node, isfor):
        # for: iter is wrapped so that a symbolic iterable becomes a cut loop
        line = ast.Constant(node.lineno)
        if isfor:
            node.iter = ast.copy_location(ast.Call(ast.Name("__forloop__", ast.Load()), [node.iter, ast.Call(ast.Name("__frame__", ast.Load()), [], []), line], []), node.iter)
        else:
            node.test = ast.copy_location(ast.Call(ast.Name("__whileloop__", ast.Load()),
                        [ast.Lambda(ast.arguments([], [], None, [], [], None, []), node.test), ast.Call(ast.Name("__frame__", ast.Load()), [], []), line], []), node.test)
        ast.fix_missing_locations(node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(isinstance(e, ast.Starred) for e in node.elts):
            parts = []
            for e in node.elts:
                parts.append(ast.Tuple([ast.Constant(True), e.value], ast.Load()) if isinstance(e, ast.Starred) else ast.Tuple([ast.Constant(False), e], ast.Load()))
            n = ast.Call(ast.Name("__mklist__", ast.Load()), parts, [])
            return ast.fix_missing_locations(ast.copy_location(n, node))
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and not node.generators[0].is_async:
            g = node.generators[0]
            # [e for x in it] -> __comp__(lambda x: e, it)
            if isinstance(g.target, ast.Name):
                args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
                n = ast.Call(ast.Name("__comp__", ast.Load()), [ast.Lambda(args, node.elt), g.iter], [])
                return ast.fix_missing_locations(ast.copy_location(n, node))
        return node


def symbolic_iter(it):
    if isinstance(it, Tqdm):
        it = it.it
    if isinstance(it, SRange):
        return True
    if isinstance(it, (A.Arr, spd.Series, spd.Index)):
        return isz(A.asarr(it)._shape[0])
    return False


def mklist(*parts):
    out = []
    for star, v in parts:
        if star:
            if symbolic_iter(v):
                if len(parts) == 1:
                    return A.asarr(v).copy()
                raise K.Unsupported("list display with a symbolic sequence")
            out.extend(v)
        else:
            out.append(v)
    return out


def comp(f, it):
    if symbolic_iter(it):
        if isinstance(it, Tqdm):
            it = it.it
        if isinstance(it, SRange):
            a = A.Arr((K.norm(K.SUB(it.hi, it.lo)),), "i", lambda ix: Sc(K.norm(K.ADD(it.lo, ix[0])), "i"))
        else:
            a = A.asarr(it)
        if a.ndim != 1:
            raise K.Unsupported("comprehension over rows")
        g = a.getter()
        r = lift(f(g(K.canon(K.dkey(a._shape[0]), 0))))
        if r is None:
            raise K.Unsupported("comprehension building objects")
        return A.Arr(a._shape, r.k, lambda ix: lift(f(g(ix[0]))))
    return [f(x) for x in it]


class Hooks:
    """loop cuts, set by the specifications"""
    forloop = None
    whileloop = None


def forloop(it, frame, line):
    if symbolic_iter(it):
        if Hooks.forloop is None:
            raise K.Unsupported("loop over a symbolic sequence (line {})".format(line))
        return Hooks.forloop(it, frame, line)
    return it


def whileloop(test, frame, line):
    if Hooks.whileloop is not None:
        return Hooks.whileloop(test, frame, line)
    return test()


def load(only=None, extra_modules=None):
    """-> dict of module name -> module object for the fibermat package."""
    pkg = types.ModuleType("fibermat")
    pkg.__path__ = [SRC]
    mods = {"fibermat": pkg}
    sysm = dict(MODULES)
    if extra_modules:
        sysm.update(extra_modules)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level and name == "":
            name = "fibermat"
        elif level:
            name = "fibermat." + name
        if name == "fibermat" or name.startswith("fibermat."):
            if name not in mods:
                exec_module(name)
            m = mods[name] if fromlist else pkg
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f) and os.path.exists(os.path.join(SRC, f + ".py")) and name == "fibermat":
                    exec_module("fibermat." + f)
                    setattr(m, f, mods["fibermat." + f])
            return m
        if name in sysm:
            m = sysm[name]
        elif name.split(".")[0] in sysm and "." in name:
            m = sysm[name.split(".")[0]]
            for part in name.split(".")[1:]:
                m = getattr(m, part)
        else:
            m = get_module(name)
            sysm[name] = m
        if fromlist:
            return m
        return sysm.get(name.split(".")[0]) or get_module(name.split(".")[0])

    def exec_module(name):
        if name in mods:
            return mods[name]
        path = os.path.join(SRC, name.split(".", 1)[1] + ".py")
        if not os.path.exists(path):
            raise ImportError(name)
        src = open(path, encoding="utf-8").read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        tree = Tr().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = "fibermat"
        b = dict(BUILTINS)
        b["__import__"] = imp
        m.__dict__["__builtins__"] = b
        m.__dict__.update(__forloop__=forloop, __whileloop__=whileloop, __mklist__=mklist, __comp__=comp, __frame__=lambda: sys._getframe(1))
        mods[name] = m
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(tree, path, "exec")
        exec(code, m.__dict__)
        return m

    init = os.path.join(SRC, "__init__.py")
    for st in ast.parse(open(init, encoding="utf-8").read()).body:
        if isinstance(st, ast.ImportFrom) and st.module and st.module.startswith("fibermat.") or (isinstance(st, ast.ImportFrom) and st.level):
            nm = st.module if st.module.startswith("fibermat.") else "fibermat." + st.module
            if only and nm.split(".")[1] not in only:
                continue
            m = exec_module(nm)
            for k, v in m.__dict__.items():
                if not k.startswith("_"):
                    pkg.__dict__[k] = v
            setattr(pkg, nm.split(".")[1], getattr(pkg, nm.split(".")[1], m))
    pkg.mods = mods
    return pkg


def is_program_exception(e):
    """raised by the executed code (or prescribed by a library contract), as
    opposed to a limitation of the engine"""
    if getattr(e, "_lib", False):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return False
    fn = last.tb_frame.f_code.co_filename
    if not fn.startswith(SRC):
        return False
    # the failing line must be a raise or assert statement
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(open(fn, encoding="utf-8").read())
    except SyntaxError:
        return False
    for node in ast.walk(tree):
        if isinstance(node, (ast.Raise, ast.Assert)) and node.lineno <= last.tb_lineno <= (node.end_lineno or node.lineno):
            return True
    return False
