"""Shared by C04-C06: symbolic tables with arbitrary columns, labels, values and
metadata, and the two-sided contract of a validation function."""
from .base import *


class Keys:
    def __init__(self, a):
        self.a = a

    def __contains__(self, k):
        return self.a.has(k)

    def __iter__(self):
        return iter(self.a.materialise())


class SymAttrs:
    """metadata in which the presence of each key is symbolic"""

    def __init__(self, pres, vals):
        self.pres, self.vals = dict(pres), dict(vals)

    def has(self, k):
        if k not in self.pres:
            return False
        p = self.pres[k]
        if isz(p):
            p = ctx().decide(p)
            self.pres[k] = p
        return p

    def keys(self):
        return Keys(self)

    def __contains__(self, k):
        return self.has(k)

    def __getitem__(self, k):
        if not self.has(k):
            K.lib_raise(KeyError(k))
        return self.vals[k]

    def get(self, k, d=None):
        return self.vals[k] if self.has(k) else d

    def materialise(self):
        return [k for k in self.pres if self.has(k)]

    def __iter__(self):
        return iter(self.materialise())

    def items(self):
        return [(k, self.vals[k]) for k in self.materialise()]

    def _copy(self):
        return self

    def _deep(self):
        return self

    def __bool__(self):
        return True


def sym_labels(c, n, ints):
    if ints:
        return spd.Index(icol(c, "label", n))
    return spd.Index(xcol(c, "label", n, nan=True))


def verdict(c, name, fn, accepted_implies, defects, skip):
    """Two-sided contract: acceptance implies well-formedness (or the flag), every
    refusal has a documented kind and a defect of this kind is present."""
    try:
        r = fn()
    except (K.Unsupported, K.PathEnd, K.Budget):
        raise
    except Exception as e:
        if not loader.is_program_exception(e):
            raise
        kind = type(e).__name__
        c.prove("{}: every refusal has a documented kind".format(name), kind in defects)
        if kind in defects:
            c.prove("{}: nothing is refused when the flag is set".format(name), NOT(skip))
            c.prove("{}: {} only for its own defect".format(name, kind), lambda: defects[kind](), depth=3, recent=True)
        c.state["refused"] = True
        return
    v = lift(r) if r is not None else None
    c.prove("{}: returns true when it accepts".format(name), False if v is None else K.cast(v, "b").t)
    # first the flag: a path on which it is set carries nothing more to prove
    if c.known(skip):
        return
    if c.known(NOT(skip)):
        skip = False
    for nm, f in accepted_implies:
        g = f() if callable(f) else f
        if isinstance(g, tuple):
            g, dims = g
            c.prove("{}: acceptance implies {}".format(name, nm), (lambda g: lambda *i: OR(skip, g(*i)))(g), dims)
        else:
            c.prove("{}: acceptance implies {}".format(name, nm), OR(skip, g))


def ctor_unit(pid, cname, check_of, others=()):
    """The constructor applied to a table validates it: it succeeds exactly when the
    validation (used by its contract) accepts, and lets its refusals through."""
    @unit(pid, "{}(table): the constructor validates".format(cname), ["{}.__init__".format(cname)])
    def ctor(c, pkg):
        cls = getattr(pkg, cname)
        n = c.int("rows")
        c.assume(n >= 0)
        cols = {q: rcol(c, q, n) for q in dict(Mat=MATCOLS, Net=NETCOLS, Stack=NETCOLS, Mesh=MESHCOLS)[cname]}
        attrs = {"n": Sc(c.int("n"), "i"), "size": Sc(c.real("size"), "r"), "periodic": Sc(c.bool("periodic"), "b")}
        t = spd.DataFrame._make(cols, spd.Index(rcol(c, "label", n)))
        t.__dict__["_attrs"] = attrs
        snap = snapshot(t)
        calls = []
        kinds = [None] + [KeyError, AttributeError, IndexError, TypeError, ValueError]
        pick = 0
        while pick < len(kinds) - 1 and not c.choice("outcome_{}".format(pick)):
            pick += 1

        def check(self=None):
            calls.append(self)
            if kinds[pick] is not None:
                K.lib_raise(kinds[pick]("refused"))
            return True
        for owner in (check_of,) + tuple(others):
            getattr(pkg, owner).check = check
        try:
            r = cls(t)
        except (KeyError, AttributeError, IndexError, TypeError, ValueError) as e:
            if not getattr(e, "_lib", False):
                raise
            c.prove("a refusal of the validation is passed on", kinds[pick] is not None and type(e) is kinds[pick])
            return
        if not calls:
            raise K.Unsupported("the constructor does not call {}.check".format(check_of))
        c.prove("a refused table is not constructed", kinds[pick] is None)
        c.prove("the result is a {}".format(cname), isinstance(r, cls))
        c.prove("the constructed object is the validated one", calls[-1] is r)
        prove_frame(c, "the constructed object holds the given table", r, snap)
