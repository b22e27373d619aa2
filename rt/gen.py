"""Case generators of the contract-directed search (concrete side).

A case is a JSON-serialisable dict; `mat_of(case)` etc. rebuild the inputs from
it with the real classes of /repo, so that a case is also a replay.
"""
import numpy as np
import pandas as pd


def r(x, k=4):
    return float(np.round(x, k))


def mat_case(rng, nmin=0, nmax=8, finite=False, flat=False):
    n = int(rng.integers(nmin, nmax + 1))
    c = dict(
        n=n,
        length=r(rng.choice([1., 25., rng.uniform(0.5, 60)])),
        width=r(rng.choice([1., rng.uniform(0.1, 5)])),
        thickness=r(rng.choice([1., rng.uniform(0.1, 5)])),
        size=r(rng.choice([50., 20., rng.uniform(1, 80)])),
        theta=r(rng.choice([np.pi, 0., 2 * np.pi, rng.uniform(0, 2 * np.pi)])),
        psi=r(rng.choice([0., 0., np.pi, rng.uniform(0, np.pi)])) if not flat else 0.,
        shear=r(rng.choice([1., 2., rng.uniform(0.1, 100)])),
        tensile=(None if (not finite and rng.random() < .4) else r(rng.uniform(0.1, 1e4))),
        seed=int(rng.integers(0, 10000)),
        mods=[], mseed=int(rng.integers(0, 10000)))
    if not finite and rng.random() < .1:
        c["shear"] = None
    for m in ("l", "b", "h", "G", "E", "bound", "z", "axis", "dup"):
        if rng.random() < 0.3:
            c["mods"].append(m)
    return c


def dense(rng, c, n=16):
    """many long fibres in a small box: many nodes per fibre"""
    c["n"] = int(rng.integers(n // 2, n + 1))
    c["size"] = r(c["length"] * rng.uniform(.4, .8))
    return c


def inf(v):
    return np.inf if v is None else v


def kwargs_of(c):
    return dict(n=c["n"], length=c["length"], width=c["width"], thickness=c["thickness"],
                size=c["size"], theta=c["theta"], psi=c["psi"], shear=inf(c["shear"]),
                tensile=inf(c["tensile"]), seed=c["seed"])


def mat_of(c, finite=False):
    """A valid Mat: generated, then perturbed column by column."""
    import fibermat as fm
    mat = fm.Mat(**kwargs_of(c))
    n = len(mat)
    rng = np.random.default_rng(c["mseed"])
    if n == 0:
        return mat
    for m in c["mods"]:
        if m == "l":
            mat["l"] = mat["l"].values * rng.uniform(0.3, 2.5, n)
        elif m == "b":
            mat["b"] = mat["b"].values * rng.uniform(0.3, 2.5, n)
        elif m == "h":
            mat["h"] = mat["h"].values * rng.uniform(0.3, 2.5, n)
        elif m == "G":
            mat["G"] = rng.uniform(0.2, 5, n)
        elif m == "E":
            mat["E"] = rng.uniform(0.2, 50, n)
        elif m == "bound":
            k = rng.integers(0, n)
            mat.loc[k, "x"] = rng.choice([-.5, .5]) * c["size"]
            mat.loc[k, "y"] = rng.choice([-.5, .5]) * c["size"]
        elif m == "z":
            mat["z"] = rng.permutation(mat["z"].values)
        elif m == "axis":
            k = rng.integers(0, n)
            mat.loc[k, list("uvw")] = [[1., 0, 0], [0, 1., 0], [0, -1., 0]][rng.integers(0, 3)]
        elif m == "dup" and n > 1:
            a, b = rng.permutation(n)[:2]
            mat.loc[a, list("xyz")] = mat.loc[b, list("xyz")].values
    if finite:
        for g in "GE":
            v = mat[g].values.copy()
            v[np.isinf(v)] = 3.
            mat[g] = v
    assert fm.Mat.check(mat)
    return mat


def net_table(n, seed, contacts, size=50., periodic=True, ties=False, seen=False):
    """A synthetic valid network on n fibres: every end row plus random contacts,
    with contact nodes strictly inside their fibres."""
    rng = np.random.default_rng(seed)
    rows = []
    L = rng.uniform(2, 30, n)
    P = rng.uniform(-20, 20, (n, 3))
    T = rng.normal(size=(n, 3))
    T /= np.linalg.norm(T, axis=1)[:, None] if n else 1
    for a in range(n):
        rows.append((a, a, L[a] / 2, -L[a] / 2))
    used = set()
    if n > 1:
        for _ in range(contacts):
            a, b = sorted(rng.choice(n, 2, replace=False).tolist())
            sa, sb = [rng.uniform(-.49, .49) * L[k] for k in (a, b)]
            if ties and rng.random() < .3:
                sa = 0.
            if (a, b) in used and rng.random() < .5:
                continue
            used.add((a, b))
            rows.append((a, b, sa, sb))
    order = rng.permutation(len(rows)) if seen else np.argsort([q[0] * 1000 + q[1] for q in rows], kind="stable")
    rows = [rows[k] for k in order]
    out = []
    for a, b, sa, sb in rows:
        pa, pb = P[a] + sa * T[a], P[b] + sb * T[b]
        out.append([a, b, sa, sb, *pa, *pb])
    df = pd.DataFrame(out, columns=["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"], dtype=float)
    df["A"] = df["A"].astype(int)
    df["B"] = df["B"].astype(int)
    df.attrs = dict(n=n, size=size, periodic=periodic)
    return df
