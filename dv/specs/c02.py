from .base import *
from .c01 import args


@unit("C02", "Mat.init directions", ["Mat.init"], mods=("mat",))
def init(c, pkg):
    n, kw = args(c)
    m = pkg.Mat.init(**kw)
    th, ps = kw["theta"].t, kw["psi"].t
    u, v, w = [V(m._cols[q]) for q in "uvw"]
    # |q| <= psi/2 with q in [-pi/2, pi/2]  <=>  |sin q| = |w| <= sin(psi/2)
    c.prove("out-of-plane angle at most psi/2", lambda i: AND(LE(w(i), SIN(ps / 2)), LE(-SIN(ps / 2), w(i))), [n])
    # |p| <= theta/2 for the in-plane direction (u, v)  <=>  u >= |(u, v)| cos(theta/2)
    c.prove("in-plane angle at most theta/2", lambda i: LE(MUL(SQRT(u(i) * u(i) + v(i) * v(i)), COS(th / 2)), u(i)), [n])
    c.prove("zero out-of-plane spread: exactly in the plane", lambda i: IMP(EQ(ps, 0), EQ(w(i), 0)), [n])
    c.prove("zero spreads: exactly along X", lambda i: IMP(AND(EQ(ps, 0), EQ(th, 0)), AND(EQ(u(i), 1), EQ(v(i), 0))), [n])
