"""Reading the assembled systems of model.py: which block of coefficients holds which entry."""
from .pipeline import *

MODEL = ("mat", "net", "mesh", "model")


def capture_interp(c, pkg, abstract):
    """interp1d as used by stiffness.  `abstract`: its contract is that of C15 (positive lengths), nothing
    more; otherwise the library contract is executed and the call recorded."""
    mod = pkg.mods["fibermat.model"]
    real = mod.interp1d
    calls = []

    class Abstract:
        def __init__(self, x, y, **k):
            if k:
                raise K.Unsupported("options of interp1d")

        def __call__(self, l):
            l = A.asarr(l)
            if l.ndim != 1:
                raise K.Unsupported("lengths that are not one-dimensional")
            g = l.getter()
            f = c.leaf("effective_length", [l._shape[0]], R)
            c.forall([l._shape[0]], lambda e: LT(0, f(K.toint(e))), "positive effective lengths")
            out = Arr(l._shape, "r", lambda ix: Sc(f(K.toint(ix[0])), "r"))
            calls.append(dict(l=V(l), leff=V(out), n=l._shape[0]))
            return out

    class Recorded:
        def __init__(self, x, y, **k):
            self.f = real(x, y, **k)

        def __call__(self, l):
            l = A.asarr(l)
            out = self.f(l)
            if l.ndim != 1:
                raise K.Unsupported("lengths that are not one-dimensional")
            calls.append(dict(l=V(l), leff=V(out), n=l._shape[0]))
            return out
    mod.interp1d = Abstract if abstract else Recorded
    return calls


def quiet(c, cond_fn, n):
    """is it known for a generic element?"""
    return c.known(c.forall_bool([n], cond_fn, "holds"))


def elements(c, M, N, G, ok):
    """the enumeration e -> i(e) of the nodes, read from the coordinates of the blocks: the row of some block is 2 i(e),
    with i(e) satisfying `ok`"""
    for n, r, q, v in M.blocks:
        for f in (r, q):
            t = lambda e, f=f: f(e).t
            i = lambda e, t=t: K.divmod_c(t(e), 2)[0]
            if quiet(c, lambda e: AND(EQ(K.divmod_c(t(e), 2)[1], 0), inr(i(e), N), ok(i(e))), n):
                return n, i
    return None
