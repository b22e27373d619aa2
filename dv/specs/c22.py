"""C22: the settings panel, against the contracts of the widgets (dv/sui.py).

The state of a panel is the value of every widget and the state of every
switch; the units are the steps of an induction over the sequences of
assignments: construction reads back, and from *any* state one assignment
changes exactly the parameter it names."""
from .base import *
from .. import sui

W = ("widgets",)
for _k, _m in sui.modules().items():
    loader.reg(_k, _m)

PLAIN = dict(n="i", length="r", width="r", thickness="r", size="r", theta="unit", periodic="b", packing="r", itermax="iter", tol="tol", coupling="r", verbose="b")
MODULI = dict(shear="r", tensile="r")
OPTIONAL = dict(seed="i", threshold="r", lmin="r", lmax="r", interp_size="i")
NAMES = ["n", "length", "width", "thickness", "size", "theta", "shear", "tensile", "seed", "periodic", "threshold", "packing", "itermax", "tol", "lmin", "lmax",
         "coupling", "interp_size", "verbose"]
KIND = dict(PLAIN, **dict(MODULI, **OPTIONAL))


def value(c, name, tag, finite=None):
    """any value of the widget's range; moduli may be infinite, optional parameters None"""
    k = KIND[name]
    nm = "{}_{}".format(tag, name)
    if name in OPTIONAL and finite is None and c.choice(nm + "_none"):
        return None
    if name in MODULI and finite is None and c.choice(nm + "_inf"):
        return Sc(0, "r", (False, True, False))
    if k == "i":
        return Sc(c.int(nm), "i")
    if k == "b":
        return Sc(c.bool(nm), "b")
    if k == "iter":
        v = c.int(nm)
        c.assume(AND(LE(1, v), LE(v, 10 ** 6)))
        return Sc(v, "i")
    v = c.real(nm)
    if k == "unit":
        c.assume(AND(LE(0, v), LE(v, 1)))
    if k == "tol":
        c.assume(AND(LE(Fraction(1, 10 ** 10), v), LE(v, Fraction(1, 10))))
    return Sc(v, "r")


def agrees(name, got, v):
    """raw Bool: what is read for a parameter that was given v"""
    if v is None:
        return got is None
    if got is None:
        return False
    g = lift(got)
    if g is None:
        return False
    if name == "theta":
        return K.ident(K.cast(g, "r"), K.mul(v, Sc(PI, "r")))
    if v.k in "ib":
        return AND(g.k == v.k, K.ident(g, v)) if g.k == v.k else False
    return K.ident(K.cast(g, "r"), v)


def unchanged(a, b):
    if a is None or b is None:
        return a is b
    x, y = lift(a), lift(b)
    return AND(x.k == y.k, K.ident(x, y)) if x.k == y.k else False


def pick(c, names, tag):
    for q in names[:-1]:
        if c.choice("{}_{}".format(tag, q)):
            return q
    return names[-1]


def follows(w):
    """the text field is greyed out exactly when its switch is off"""
    ok = True
    for v in (True, False, True, False):
        w.switch.value = v
        ok = ok and isinstance(w.disabled, (bool, Sc)) and bool(w.disabled) == (not v)
    return ok


def any_state(c, panel):
    """every widget and every switch at an arbitrary value (a superset of the
    states that histories reach); a field that follows its switch does so"""
    for q in NAMES:
        w = getattr(panel, q)
        v = value(c, q, "state", finite=True)
        if q in MODULI or q in OPTIONAL:
            f = follows(w)
            b = c.bool("switch_" + q)
            w.switch._traits["value"] = Sc(b, "b")
            w._traits["disabled"] = Sc(NOT(b) if f else c.bool("disabled_" + q), "b")
        w._traits["value"] = w.coerce(v)


def construction(given, split):
    def f(c, pkg):
        kw = {}
        for q in NAMES:
            if q in given or (q in PLAIN and given):
                kw[q] = value(c, q, "given")
        if "thickness" in kw:
            c.assume(LT(0, kw["thickness"].t))
        panel = pkg.mods["fibermat.widgets"].Settings(**kw)
        if not given:
            want = dict(n=Sc(0, "i"), length=Sc(25, "r"), width=Sc(1, "r"), thickness=Sc(1, "r"), size=Sc(50, "r"), theta=Sc(1, "r"), shear=Sc(1, "r"),
                        tensile=Sc(0, "r", (False, True, False)), seed=Sc(0, "i"), periodic=Sc(True, "b"), threshold=None, packing=Sc(1, "r"), itermax=Sc(1000, "i"),
                        tol=Sc(Fraction(1, 10 ** 6), "r"), lmin=None, lmax=None, coupling=Sc(1, "r"), interp_size=None, verbose=Sc(True, "b"))
        else:
            want = kw
        for q, v in want.items():
            c.prove("{} reads the value given at construction".format(q), agrees(q, panel[q], v))
        un = dict(**panel)
        c.prove("unpacking yields all the parameters and no other", sorted(un) == sorted(NAMES))
        for q, v in want.items():
            c.prove("unpacked: the value given at construction", agrees(q, un[q], v))
    return f


unit("C22", "Settings() reads the default values", ["Settings.__init__", "Settings.__getitem__"], mods=W, canary=False)(construction((), None))
for _g in (["shear", "tensile", "seed", "threshold"], ["lmin", "lmax", "interp_size"], ["shear", "tensile", "lmin", "lmax"], ["seed", "threshold", "interp_size"]):
    unit("C22", "Settings(...) reads back what was given ({})".format(", ".join(["plain parameters"] + _g)), ["Settings.__init__", "Settings.__getitem__"], mods=W)(construction(_g, None))


for _name in NAMES:
    for _how in ("[]", "call"):
        @unit("C22", "from any state, assigning {} ({}) changes it and nothing else".format(_name, _how),
              ["Settings.__setitem__", "Settings.__getitem__", "Settings.__call__"], mods=W)
        def assign(c, pkg, name=_name, how=_how):
            panel = pkg.mods["fibermat.widgets"].Settings()
            any_state(c, panel)
            other = pick(c, [q for q in NAMES if q != name], "other")
            before = panel[other]
            v = value(c, name, "new")
            if how == "[]":
                panel[name] = v
            else:
                panel(**{name: v})
            c.prove("the parameter reads the value assigned", agrees(name, panel[name], v))
            c.prove("every other parameter reads the same as before", unchanged(before, panel[other]))


@unit("C22", "calling the panel with two values assigns both", ["Settings.__call__", "Settings.__setitem__", "Settings.__getitem__"], mods=W)
def call_two(c, pkg):
    panel = pkg.mods["fibermat.widgets"].Settings()
    any_state(c, panel)
    a = pick(c, ["seed", "shear", "theta", "length"], "first")
    b = pick(c, ["lmax", "tensile", "itermax", "n"], "second")
    u, v = value(c, a, "new"), value(c, b, "new")
    panel(**{a: u, b: v})
    c.prove("the first reads the value assigned", agrees(a, panel[a], u))
    c.prove("the second reads the value assigned", agrees(b, panel[b], v))


for _two in range(2):
    @unit("C22", "unpacking yields what reading yields in any state ({})".format("tensile on" if _two else "tensile off"), ["Settings.__getitem__"], mods=W)
    def unpack(c, pkg, two=_two):
        panel = pkg.mods["fibermat.widgets"].Settings()
        any_state(c, panel)
        panel.tensile.switch.value = bool(two)
        un = dict(**panel)
        c.prove("unpacking yields all the parameters and no other", sorted(un) == sorted(NAMES))
        for q in NAMES:
            c.prove("the unpacked value is the value read", unchanged(un[q], panel[q]) if q in un else False)
