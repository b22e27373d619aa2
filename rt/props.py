"""Run-time evaluation of the contracts on the real code (concrete side).

Each property P has `gen(rng, lvl)` -> case (JSON) and `check(case)` which runs
the real functions of /repo on the case and raises Bad when the postcondition of
P fails.  `check` returns True when the case is non-trivial.  Tolerances are
wide against rounding; inputs on a decision boundary are skipped, never judged.
"""
import copy
import warnings

import numpy as np
import pandas as pd

import gen as G

warnings.simplefilter("ignore")
PROPS = {}


class Bad(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Bad(msg.format(*args) if args else msg)


def prop(cls):
    PROPS[cls.__name__] = cls
    return cls


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fin = np.isfinite(a) & np.isfinite(b)
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    sc = 1 + (np.max(np.abs(a[fin])) if fin.any() else 0)
    with np.errstate(all="ignore"):
        ok = same | (fin & (np.abs(a - b) <= tol * sc))
    return bool(np.all(ok))


MATCOLS = [*"lbhxyzuvwGE"]
NETCOLS = ["A", "B", "sA", "sB", "xA", "yA", "zA", "xB", "yB", "zB"]
MESHCOLS = ["fiber", "s", "x", "y", "z", "beam", "constraint"]


def fm():
    import fibermat
    return fibermat


# --------------------------------------------------------------------- C01-03

@prop
class C01:
    def gen(rng, lvl):
        c = G.mat_case(rng, 0, [3, 12, 60][lvl])
        c["mods"] = []
        c["npsize"] = int(rng.integers(0, 3))
        return c

    def check(c):
        kw = G.kwargs_of(c)
        for mat in (fm().Mat(**kw), fm().Mat.init(**kw)):
            n = c["n"]
            need(len(mat) == n, "asked for {} fibres, got {}", n, len(mat))
            need(list(mat.columns) == MATCOLS, "columns {}", list(mat.columns))
            need(list(mat.index) == list(range(n)), "labels {}", list(mat.index))
            z = mat.z.values
            need(bool(np.all(z[:-1] <= z[1:])), "heights not non-decreasing: {}", z)
            for col, name in zip("lbhGE", ("length", "width", "thickness", "shear", "tensile")):
                need(bool(np.all(mat[col].values == kw[name])), "column {}: {} instead of {}", col, mat[col].values, kw[name])
            half = 0.5 * c["size"] * (1 + 1e-12)
            for col in "xyz":
                need(bool(np.all(np.abs(mat[col].values) <= half)), "column {} leaves the box of size {}: {}", col, c["size"], mat[col].values)
            nn = np.linalg.norm(mat[[*"uvw"]].values, axis=1)
            need(bool(np.all(np.abs(nn - 1) < 1e-9)), "direction lengths {}", nn)
            need(mat.attrs.get("n") == n and mat.attrs.get("size") == c["size"], "metadata {}", dict(mat.attrs))
            try:
                ok = fm().Mat.check(mat)
            except Exception as e:
                raise Bad("Mat.check refuses the generated mat: {!r}".format(e))
            need(ok is True or ok == True, "Mat.check returned {}", ok)
        return c["n"] > 1


@prop
class C02:
    def gen(rng, lvl):
        c = G.mat_case(rng, 1, [3, 12, 60][lvl])
        c["mods"] = []
        return c

    def check(c):
        mat = fm().Mat(**G.kwargs_of(c))
        u, v, w = mat.u.values, mat.v.values, mat.w.values
        hor = np.hypot(u, v)
        p = np.arctan2(v, u)
        sel = hor > 1e-6
        need(bool(np.all(np.abs(p[sel]) <= 0.5 * c["theta"] + 1e-9)), "in-plane angles {} exceed half of {}", p, c["theta"])
        q = np.arctan2(w, hor)
        need(bool(np.all(np.abs(q) <= 0.5 * c["psi"] + 1e-9)), "out-of-plane angles {} exceed half of {}", q, c["psi"])
        if c["psi"] == 0:
            need(bool(np.all(w == 0)), "zero out-of-plane spread but w = {}", w)
            if c["theta"] == 0:
                need(bool(np.all(u == 1) and np.all(v == 0)), "zero spreads but directions {}", mat[[*"uvw"]].values)
        return True


@prop
class C03:
    def gen(rng, lvl):
        c = G.mat_case(rng, 1, [3, 12, 40][lvl])
        c["mods"] = []
        if rng.random() < .2:
            c["seed"] = int(rng.choice([0, 1, 2, c["n"], c["n"] + 1, int(c["size"]), int(c["length"]), 42, 123, 2 ** 32 - 1]))
        if rng.random() < .1:
            c["length"] = c["size"]
        c["noise"] = [int(k) for k in rng.integers(0, 2 ** 31, 2)]
        return c

    def check(c):
        kw = G.kwargs_of(c)
        import random
        tabs = []
        for k, s in enumerate(c["noise"]):
            np.random.seed(s % 2 ** 31)
            random.seed(s)
            np.random.random(s % 17)
            tabs.append(fm().Mat(**kw))
        a, b = tabs
        need(a.values.shape == b.values.shape and np.array_equal(a.values, b.values), "same arguments and seed, different tables")
        need(dict(a.attrs) == dict(b.attrs), "same arguments, different metadata")
        kw2 = dict(kw, length=kw["length"] * 1.5 + 1, width=3.7, thickness=0.7, theta=0.123 + kw["theta"] / 3,
                   psi=0.77, shear=5.5, tensile=77.)
        d = fm().Mat(**kw2)
        for col in "xyz":
            need(np.array_equal(a[col].values, d[col].values), "column {} depends on dimensions, moduli or spreads", col)
        if c["n"] >= 3:
            S = c["size"]
            smp = dict(x=a.x.values / S, y=a.y.values / S, z=a.z.values / S)
            dd = fm().Mat(**dict(kw, theta=1., psi=0.5))
            hor = np.hypot(dd.u.values, dd.v.values)
            smp["p"] = np.arctan2(dd.v.values, dd.u.values) / 1.
            smp["q"] = np.arctan2(dd.w.values, hor) / 0.5
            names = list(smp)
            for i in range(5):
                for j in range(i):
                    for sgn in (1, -1):
                        need(not np.allclose(np.sort(smp[names[i]]), np.sort(sgn * smp[names[j]]), atol=1e-9, rtol=0),
                             "attributes {} and {} share their random draws", names[i], names[j])
        return True


# --------------------------------------------------------------------- C04-06

KINDS = dict(KeyError=KeyError, AttributeError=AttributeError, IndexError=IndexError,
             TypeError=TypeError, ValueError=ValueError)


def verdict(f, *a):
    try:
        r = f(*a)
    except Exception as e:
        return type(e).__name__ if type(e) in KINDS.values() else repr(e)
    return "ok" if (r is True or r == True) else "returned {!r}".format(r)


def judge(defects, got, what):
    """defects: list of admissible error kinds (empty: must be accepted)."""
    if not defects:
        need(got == "ok", "{}: well-formed table refused with {}", what, got)
    else:
        need(got in defects, "{}: expected a refusal with {}, got {}", what, sorted(set(defects)), got)


def idx_mut(rng, df, kind):
    m = len(df)
    lab = list(range(m))
    if kind == "swap" and m > 1:
        i, j = rng.permutation(m)[:2]
        lab[i], lab[j] = lab[j], lab[i]
    elif kind == "shift":
        lab = [k + 1 for k in lab]
    elif kind == "dup" and m > 1:
        i, j = rng.permutation(m)[:2]
        lab[i] = lab[j]
    elif kind == "gap" and m > 0:
        lab[-1] += 1
    elif kind == "neg" and m > 0:
        lab[0] = -1
    elif kind == "rev":
        lab = lab[::-1]
    elif kind == "str":
        lab = [str(k) for k in lab]
    df.index = lab
    return df


def bad_index(df):
    lab = list(df.index)
    return lab != list(range(len(lab)))


IDX = ["swap", "shift", "dup", "gap", "neg", "rev"]


@prop
class C04:
    def gen(rng, lvl):
        c = G.mat_case(rng, 0, [2, 5, 9][lvl])
        muts = []
        for _ in range(int(rng.choice([0, 1, 1, 1, 1, 2, 3]))):
            muts.append([str(rng.choice(["col", "attr", "index", "count", "dim", "pos", "norm", "mod", "skip", "extra", "reorder", "edge", "nan"])), int(rng.integers(0, 10 ** 6))])
        c["muts"] = muts
        return c

    def build(c):
        mat = G.mat_of(c)
        df = pd.DataFrame(mat.values.copy(), columns=MATCOLS)
        df.attrs = dict(mat.attrs)
        for kind, s in c["muts"]:
            rng = np.random.default_rng(s)
            n = len(df)
            have = [q for q in MATCOLS if q in df.columns]
            k = int(rng.integers(0, n)) if n else 0
            at = dict(df.attrs)
            if kind == "col" and have:
                df = df.drop(columns=[str(rng.choice(have))])
            elif kind == "attr":
                at.pop(str(rng.choice(["n", "size"])), None)
            elif kind == "index":
                df = idx_mut(rng, df, str(rng.choice(IDX)))
            elif kind == "count" and "n" in at:
                at["n"] = at["n"] + int(rng.choice([-1, 1, 2]))
            elif kind == "dim" and n:
                q = str(rng.choice(list("lbh")))
                if q in df:
                    df.iloc[k, df.columns.get_loc(q)] = rng.choice([0., -1., -1e-9])
            elif kind == "pos" and n:
                q = str(rng.choice(list("xy")))
                if q in df and "size" in at:
                    df.iloc[k, df.columns.get_loc(q)] = rng.choice([-1., 1.]) * at["size"] * rng.choice([.500001, .8, 3])
            elif kind == "edge" and n:
                q = str(rng.choice(list("xy")))
                if q in df and "size" in at:
                    df.iloc[k, df.columns.get_loc(q)] = rng.choice([-.5, .5]) * at["size"]
            elif kind == "norm" and n and all(q in df for q in "uvw"):
                df.loc[df.index[k], list("uvw")] *= rng.choice([.9, 1.1, 0., 1 + 1e-9, 1.001])
            elif kind == "mod" and n:
                q = str(rng.choice(list("GE")))
                if q in df:
                    df.iloc[k, df.columns.get_loc(q)] = rng.choice([0., -1., np.inf, -np.inf])
            elif kind == "skip":
                at["skip_check"] = bool(rng.integers(0, 4))
            elif kind == "extra":
                df["extra"] = -1.
                at["foo"] = "bar"
            elif kind == "reorder":
                df = df[list(rng.permutation(df.columns))]
            elif kind == "nan" and n:
                q = str(rng.choice(list("lbhxyGE")))
                if q in df:
                    df.iloc[k, df.columns.get_loc(q)] = np.nan
            df.attrs = at
        return df

    def defects(df):
        at = df.attrs
        if at.get("skip_check"):
            return []
        d = []
        if not all(q in df.columns for q in MATCOLS):
            d.append("KeyError")
        if "n" not in at or "size" not in at:
            d.append("AttributeError")
        if "n" in at and at["n"] != len(df):
            d.append("ValueError")
        if bad_index(df):
            d.append("IndexError")
        v = []
        for q in "lbhGE":
            if q in df:
                v.append(bool(np.all(df[q].values > 0)))
        for q in "xy":
            if q in df and "size" in at:
                v.append(bool(np.all((df[q].values >= -.5 * at["size"]) & (df[q].values <= .5 * at["size"]))))
        if all(q in df for q in "uvw"):
            nn = np.sqrt((df[[*"uvw"]].values ** 2).sum(axis=1))
            v.append(bool(np.all(np.abs(nn - 1) < 1e-6)))
        if not all(v):
            d.append("ValueError")
        return d

    def check(c):
        df = C04.build(c)
        d = C04.defects(df)
        judge(d, verdict(fm().Mat.check, df), "Mat.check")
        before = df.copy(deep=True)
        judge(d, verdict(lambda t: len(fm().Mat(t)) == len(t), df), "Mat(table)")
        need(before.equals(df), "Mat.check changed the table")
        return True


def net_of(c):
    """A valid network table, synthetic or built from a mat."""
    if c.get("real"):
        mat = G.mat_of(c["mat"])
        net = fm().Net(mat, periodic=c["periodic"])
        df = pd.DataFrame({q: net[q].values.copy() for q in NETCOLS})
        df.attrs = dict(net.attrs)
        return df
    return G.net_table(c["n"], c["seed"], c["contacts"], periodic=c["periodic"],
                       ties=c.get("ties", False), seen=c.get("shuffled", False))


def net_case(rng, lvl, shuffled=False, nmin=0):
    c = dict(n=int(rng.integers(nmin, [3, 6, 10][lvl] + 1)), seed=int(rng.integers(0, 10 ** 6)),
             contacts=int(rng.integers(0, [3, 10, 30][lvl])), periodic=bool(rng.integers(0, 2)),
             ties=bool(rng.integers(0, 2)), shuffled=bool(shuffled and rng.integers(0, 2)))
    if rng.random() < .3:
        c = dict(real=True, mat=G.mat_case(rng, nmin, [4, 7, 12][lvl]), periodic=bool(rng.integers(0, 2)))
    return c


@prop
class C05:
    def gen(rng, lvl):
        c = net_case(rng, lvl, shuffled=True)
        c["muts"] = []
        for _ in range(int(rng.choice([0, 1, 1, 1, 1, 2, 3]))):
            c["muts"].append([str(rng.choice(["col", "attr", "index", "float", "neg", "big", "n", "swapAB", "dup", "near", "skip", "extra", "reorder"])), int(rng.integers(0, 10 ** 6))])
        return c

    def build(c):
        df = net_of(c)
        for kind, s in c["muts"]:
            rng = np.random.default_rng(s)
            m = len(df)
            k = int(rng.integers(0, m)) if m else 0
            at = dict(df.attrs)
            have = [q for q in NETCOLS if q in df.columns]
            if kind == "col" and have:
                df = df.drop(columns=[str(rng.choice(have))])
            elif kind == "attr":
                at.pop(str(rng.choice(["n", "size", "periodic"])), None)
            elif kind == "index":
                df = idx_mut(rng, df, str(rng.choice(IDX)))
            elif kind == "float":
                q = str(rng.choice(["A", "B"]))
                if q in df:
                    df[q] = df[q].astype(float)
            elif kind == "neg" and m:
                q = str(rng.choice(["A", "B"]))
                if q in df:
                    df.iloc[k, df.columns.get_loc(q)] = -1
            elif kind == "big" and m and "n" in at:
                q = str(rng.choice(["A", "B"]))
                if q in df:
                    df.iloc[k, df.columns.get_loc(q)] = at["n"] + int(rng.integers(0, 2))
            elif kind == "n" and "n" in at:
                at["n"] = at["n"] + int(rng.choice([-1, 1]))
            elif kind == "swapAB" and m and "A" in df and "B" in df:
                a, b = df.columns.get_loc("A"), df.columns.get_loc("B")
                x, y = df.iat[k, a], df.iat[k, b]
                df.iat[k, a], df.iat[k, b] = y, x
            elif kind in ("dup", "near") and m:
                at0 = df.attrs
                df = pd.concat([df, df.iloc[[k]]], ignore_index=True)
                df.attrs = at0
                if kind == "near":
                    q = str(rng.choice(["sA", "sB"]))
                    if q in df:
                        df.iloc[-1, df.columns.get_loc(q)] += 0.25
                    else:
                        df = df.iloc[:-1]
                elif rng.random() < .5 and "xA" in df:
                    df.iloc[-1, df.columns.get_loc("xA")] += 1.
            elif kind == "skip":
                at["skip_check"] = bool(rng.integers(0, 4))
            elif kind == "extra":
                df["extra"] = -1.
            elif kind == "reorder":
                df = df[list(rng.permutation(df.columns))]
            df.attrs = at
        return df

    def defects(df):
        at = df.attrs
        if at.get("skip_check"):
            return []
        d = []
        if not all(q in df.columns for q in NETCOLS):
            d.append("KeyError")
        if not all(q in at for q in ("n", "size", "periodic")):
            d.append("AttributeError")
        if bad_index(df):
            d.append("IndexError")
        if len(df) == 0 and any(q in df and df[q].dtype != int for q in "AB"):
            d.append("TypeError")
        if any(q in df and df[q].dtype != int for q in "AB"):
            d.append("TypeError")
        lab = [q for q in "AB" if q in df]
        if lab and len(df) and "n" in at:
            v = df[lab].values
            if v.min() < 0 or v.max() >= at["n"]:
                d.append("ValueError")
        if len(lab) == 2 and np.any(df.A.values > df.B.values):
            d.append("ValueError")
        if all(q in df for q in ("A", "B", "sA", "sB")):
            t = [tuple(x) for x in df[["A", "B", "sA", "sB"]].values.tolist()]
            if len(set(t)) != len(t):
                d.append("ValueError")
        return d

    def check(c):
        df = C05.build(c)
        d = C05.defects(df)
        before = df.copy(deep=True)
        for name, cls in (("Net", fm().Net), ("Stack", fm().Stack)):
            judge(d, verdict(cls.check, df), name + ".check")
            judge(d, verdict(lambda t: len(cls(t)) == len(t), df), name + "(table)")
        need(before.equals(df), "the check changed the table")
        return True


def mesh_of_net(df):
    """Reference construction of a mesh from a network table (independent)."""
    m = len(df)
    nodes = []
    for k in range(m):
        for e in "AB":
            nodes.append([int(df[e].iloc[k]), df["s" + e].iloc[k], df["x" + e].iloc[k], df["y" + e].iloc[k], df["z" + e].iloc[k], 2 * k + (e == "B")])
    order = sorted(range(2 * m), key=lambda q: (nodes[q][0], nodes[q][1]))
    pos = {q: p for p, q in enumerate(order)}
    out = []
    for p, q in enumerate(order):
        f = nodes[q][0]
        if p + 1 < 2 * m and nodes[order[p + 1]][0] == f:
            beam = p + 1
        else:
            beam = min(r for r in range(2 * m) if nodes[order[r]][0] == f)
        other = q ^ 1
        con = pos[other] if nodes[other][0] != f else p
        out.append([f, *nodes[q][1:5], beam, con])
    t = pd.DataFrame(out, columns=MESHCOLS, dtype=float)
    for q in ("fiber", "beam", "constraint"):
        t[q] = t[q].astype(int)
    t.attrs = dict(df.attrs)
    return t


@prop
class C06:
    def gen(rng, lvl):
        c = net_case(rng, lvl)
        c["muts"] = []
        for _ in range(int(rng.choice([0, 1, 1, 1, 1, 2, 3]))):
            c["muts"].append([str(rng.choice(["col", "attr", "index", "float", "range", "n", "fib", "s", "beam", "beamswap", "con", "conswap", "selfcon", "endcon", "concycle", "beamrev", "beamfull", "skip", "extra", "tie"])), int(rng.integers(0, 10 ** 6))])
        return c

    def build(c):
        df = mesh_of_net(net_of(c))
        for kind, s in c["muts"]:
            rng = np.random.default_rng(s)
            m = len(df)
            at = dict(df.attrs)
            k, k2 = (int(rng.integers(0, m)), int(rng.integers(0, m))) if m else (0, 0)
            have = [q for q in MESHCOLS if q in df.columns]
            labs = [q for q in ("fiber", "beam", "constraint") if q in df]

            def put(q, row, val):
                df.iloc[row, df.columns.get_loc(q)] = val

            if kind == "col" and have:
                df = df.drop(columns=[str(rng.choice(have))])
            elif kind == "attr":
                at.pop(str(rng.choice(["n", "size", "periodic"])), None)
            elif kind == "index":
                df = idx_mut(rng, df, str(rng.choice(IDX)))
            elif kind == "float" and labs:
                q = str(rng.choice(labs))
                df[q] = df[q].astype(float)
            elif kind == "range" and m and labs:
                q = str(rng.choice(labs))
                put(q, k, int(rng.choice([-1, m, at.get("n", 0) + m])))
            elif kind == "n" and "n" in at:
                at["n"] -= 1
            elif kind == "fib" and m and "fiber" in df:
                put("fiber", k, df["fiber"].iloc[k2])
            elif kind == "s" and m and "s" in df:
                a, b = df["s"].iloc[k], df["s"].iloc[k2]
                put("s", k, b)
                put("s", k2, a)
            elif kind == "tie" and m > 1 and "s" in df and "fiber" in df:
                j = (k + 1) % m
                if j and df["fiber"].iloc[j] == df["fiber"].iloc[k]:
                    put("s", j, df["s"].iloc[k])
            elif kind == "beam" and m and "beam" in df:
                put("beam", k, k2)
            elif kind == "beamswap" and m and "beam" in df:
                a, b = df["beam"].iloc[k], df["beam"].iloc[k2]
                put("beam", k, b)
                put("beam", k2, a)
            elif kind == "con" and m and "constraint" in df:
                put("constraint", k, k2)
            elif kind == "conswap" and m and "constraint" in df:
                put("constraint", k, k2)
                put("constraint", k2, k)
            elif kind == "selfcon" and m and "constraint" in df:
                put("constraint", k, k)
            elif kind == "endcon" and m > 3 and "constraint" in df and "fiber" in df:
                f = df["fiber"].values
                ends = [i for i in range(m) if i == 0 or f[i - 1] != f[i] or i == m - 1 or f[i + 1] != f[i]]
                a, b = rng.permutation(ends)[:2] if len(ends) > 1 else (0, 0)
                put("constraint", int(a), int(b))
                put("constraint", int(b), int(a))
            elif kind == "concycle" and m > 4 and "constraint" in df and "fiber" in df:
                f = df["fiber"].values
                inner = [i for i in range(1, m - 1) if f[i - 1] == f[i] == f[i + 1]]
                if len(inner) > 2:
                    w = rng.permutation(inner)[:int(rng.integers(3, len(inner) + 1))]
                    for a, b in zip(w, np.roll(w, 1)):
                        put("constraint", int(a), int(b))
            elif kind in ("beamrev", "beamfull") and m and "beam" in df and "fiber" in df:
                f = df["fiber"].values
                for g in (np.unique(f)[:1] if kind == "beamrev" else [None]):
                    w = np.flatnonzero(f == g) if g is not None else np.arange(m)
                    for a, b in zip(w, np.roll(w, 1 if kind == "beamrev" else -1)):
                        put("beam", int(a), int(b))
            elif kind == "skip":
                at["skip_check"] = bool(rng.integers(0, 4))
            elif kind == "extra":
                df["extra"] = -1.
            df.attrs = at
        return df

    def defects(df):
        at = df.attrs
        if at.get("skip_check"):
            return []
        d = []
        if not all(q in df.columns for q in MESHCOLS):
            d.append("KeyError")
        if not all(q in at for q in ("n", "size", "periodic")):
            d.append("AttributeError")
        if bad_index(df):
            d.append("IndexError")
        labs = [q for q in ("fiber", "beam", "constraint") if q in df]
        if any(df[q].dtype != int for q in labs):
            d.append("TypeError")
        m = len(df)
        if d or m == 0:
            # with other defects present a ValueError is only possible after the
            # earlier kinds are clean; nothing more to add
            if m and "KeyError" not in d and "AttributeError" not in d:
                pass
            return d
        f, s, b, c = (df[q].values for q in ("fiber", "s", "beam", "constraint"))
        ok = bool(f.min() >= 0 and f.max() < at["n"] and b.min() >= 0 and b.max() < m and c.min() >= 0 and c.max() < m)
        if ok:
            for i in range(m - 1):
                ok = ok and (f[i] < f[i + 1] or (f[i] == f[i + 1] and s[i] <= s[i + 1]))
            if ok:
                for i in range(m):
                    last = i == m - 1 or f[i + 1] != f[i]
                    first = i == 0 or f[i - 1] != f[i]
                    nxt = i + 1 if not last else int(np.argmax(f == f[i]))
                    ok = ok and b[i] == nxt and c[c[i]] == i
                    if last or first:
                        ok = ok and c[i] == i
        if not ok:
            d.append("ValueError")
        return d

    def check(c):
        df = C06.build(c)
        d = C06.defects(df)
        before = df.copy(deep=True)
        judge(d, verdict(fm().Mesh.check, df), "Mesh.check")
        judge(d, verdict(lambda t: len(fm().Mesh(t)) == len(t), df), "Mesh(table)")
        need(before.equals(df), "the check changed the table")
        return True


# --------------------------------------------------------------------- C07-08

def geo(mat):
    return (mat[[*"xyz"]].values.astype(float), mat[[*"uvw"]].values.astype(float), mat["l"].values.astype(float))


@prop
class C07:
    def gen(rng, lvl):
        c = dict(mat=G.mat_case(rng, 0, [4, 9, 25][lvl]), periodic=bool(rng.integers(0, 2)), pairs=None)
        n = c["mat"]["n"]
        if n and rng.random() < .4:
            c["pairs"] = [[int(a), int(b)] for a, b in rng.integers(0, n, (int(rng.integers(1, 12)), 2))]
        return c

    def check(c):
        mat = G.mat_of(c["mat"])
        kw = {} if c["pairs"] is None else dict(pairs=np.array(c["pairs"]))
        net = fm().Net(mat, periodic=c["periodic"], **kw)
        X, U, L = geo(mat)
        S = mat.attrs["size"]
        R = range(-2, 3) if c["periodic"] else [0]
        sc = 1 + np.abs(X).max() + L.max() if len(mat) else 1
        tol = 1e-7 * sc
        seen = 0
        for k in range(len(net)):
            row = net.iloc[k]
            a, b = int(row.A), int(row.B)
            pts = []
            for e, f in (("A", a), ("B", b)):
                s = row["s" + e]
                p = X[f] + s * U[f]
                q = row[["x" + e, "y" + e, "z" + e]].values.astype(float)
                need(bool(np.all(np.abs(p - q) < tol)), "row {}: node {} = {} is not the point {} of fibre {} at abscissa {}", k, e, q, p, f, s)
                need(abs(s) <= L[f] / 2 * (1 + 1e-12), "row {}: abscissa {} beyond half length {}", k, s, L[f] / 2)
                if a != b:
                    need(abs(s) < L[f] / 2, "row {}: abscissa {} not strictly inside {}", k, s, L[f] / 2)
                pts.append(q)
            if a != b:
                seen += 1
                best = np.inf
                for tx in R:
                    for ty in R:
                        dlt = pts[0] - pts[1] + np.array([tx * S, ty * S, 0.])
                        best = min(best, max(abs(dlt @ U[a]), abs(dlt @ U[b])))
                need(best < tol * 10, "row {} ({},{}): the joining segment is not perpendicular to both fibres for any translation (residual {})", k, a, b, best)
        return seen > 0


@prop
class C08:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 0, [4, 9, 25][lvl]), periodic=bool(rng.integers(0, 2)))

    def expected(X, U, L, a, b, tx, ty, S):
        """True / False / None (too close to call)."""
        r = (X[b] + np.array([tx * S, ty * S, 0.])) - X[a]
        g = np.array([[U[a] @ U[a], U[a] @ U[b]], [U[a] @ U[b], U[b] @ U[b]]])
        det = g[0, 0] * g[1, 1] - g[0, 1] ** 2
        dist = np.hypot(r[0], r[1])
        D = 0.5 * (L[a] + L[b])
        if dist > D * (1 + 1e-9) + 1e-9:
            return False
        par = bool(np.array_equal(U[a], U[b]) or np.array_equal(U[a], -U[b]))
        if par:
            return None if np.abs(U[a]).max() != 1 else False
        if det < 1e-9:
            return None
        near = abs(dist - D) <= 1e-9 * D + 1e-9
        s = np.linalg.solve(g, np.array([U[a] @ r, U[b] @ r]))
        sa, sb = s[0], -s[1]
        m = max(abs(sa) / (L[a] / 2), abs(sb) / (L[b] / 2))
        if m > 1 + 1e-6:
            return False
        if near or m > 1 - 1e-6:
            return None
        return True

    def check(c):
        mat = G.mat_of(c["mat"])
        net = fm().Net(mat, periodic=c["periodic"])
        X, U, L = geo(mat)
        S = mat.attrs["size"]
        n = len(mat)
        A, B = net.A.values, net.B.values
        need(bool(np.all(A <= B)), "a row has its first label above the second")
        key = A.astype(np.int64) * (n + 1) + B
        need(bool(np.all(key[:-1] <= key[1:])), "rows not sorted by fibre labels")
        cnt = {}
        for a, b in zip(A.tolist(), B.tolist()):
            cnt[(a, b)] = cnt.get((a, b), 0) + 1
        for i in range(n):
            need(cnt.get((i, i), 0) == 1, "fibre {} has {} rows joining it to itself", i, cnt.get((i, i), 0))
            row = net[(net.A == i) & (net.B == i)].iloc[0]
            need(np.isclose(row.sA, L[i] / 2, rtol=1e-12) and np.isclose(row.sB, -L[i] / 2, rtol=1e-12), "fibre {}: end abscissae {} {}", i, row.sA, row.sB)
        R = range(-1, 2) if c["periodic"] else [0]
        R2 = range(-3, 4) if c["periodic"] else [0]
        pos = 0
        for a in range(n):
            for b in range(a + 1, n):
                got = cnt.get((a, b), 0)
                need(got <= 1, "fibres {} and {} joined {} times", a, b, got)
                small = [C08.expected(X, U, L, a, b, tx, ty, S) for tx in R for ty in R]
                if True in small:
                    pos += 1
                    need(got == 1, "fibres {} and {} cross but are not joined", a, b)
                elif None not in small and got:
                    large = [C08.expected(X, U, L, a, b, tx, ty, S) for tx in R2 for ty in R2]
                    need(True in large or None in large, "fibres {} and {} are joined but cross for no translation", a, b)
        return pos > 0


# --------------------------------------------------------------------- C09

def snap(df):
    return (df.copy(deep=True), list(df.columns), list(df.index), copy.deepcopy(dict(df.attrs)), df.dtypes.to_dict())


def unchanged(what, df, s, heights=False, addcol=None):
    d, cols, idx, at, dt = s
    now = [q for q in df.columns if q != addcol or addcol in cols]
    need(now == cols, "{}: columns changed to {}", what, list(df.columns))
    need(list(df.index) == idx, "{}: labels changed", what)
    need(dict(df.attrs) == at, "{}: metadata changed from {} to {}", what, at, dict(df.attrs))
    for q in cols:
        if heights and q == "z":
            continue
        need(df[q].dtype == dt[q], "{}: type of column {} changed", what, q)
        a, b = df[q].values, d[q].values
        need(bool(np.all((a == b) | ((a != a) & (b != b)))), "{}: column {} changed", what, q)


@prop
class C09:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 1, [3, 6, 10][lvl], finite=True), periodic=bool(rng.integers(0, 2)),
                    thr=(None if rng.random() < .5 else G.r(rng.uniform(0, 6))), vtk=bool(rng.random() < .25),
                    plain=bool(rng.integers(0, 2)))

    def check(c):
        F = fm()
        mat = G.mat_of(c["mat"], finite=True)
        if c["plain"]:
            at = dict(mat.attrs)
            mat = pd.DataFrame(mat)
            mat.attrs = at
            mat = F.Mat(mat)
        s0 = snap(mat)
        net = F.Net(mat, periodic=c["periodic"])
        unchanged("Net(mat): the mat", mat, s0)
        net.attrs["marker"] = 1
        need("marker" not in mat.attrs, "metadata set on the network shows up on its mat")
        del net.attrs["marker"]
        net.attrs["periodic"] = c["periodic"]
        s1 = snap(net)
        F.Stack.constraint(mat, net)
        unchanged("Stack.constraint: the mat", mat, s0)
        unchanged("Stack.constraint: the network", net, s1)
        F.Stack.solve(mat, net)
        unchanged("Stack.solve: the mat", mat, s0)
        unchanged("Stack.solve: the network", net, s1)
        stack = F.Stack(mat, net, threshold=c["thr"])
        unchanged("Stack(mat, net): the mat", mat, s0, heights=True)
        unchanged("Stack(mat, net): the network", net, s1)
        s0 = snap(mat)
        s2 = snap(stack)
        mesh = F.Mesh(stack)
        unchanged("Mesh(stack): the stack", stack, s2)
        s3 = snap(mesh)
        F.stiffness(mat, mesh, lmin=0.05)
        unchanged("stiffness: the mat", mat, s0)
        unchanged("stiffness: the mesh", mesh, s3)
        F.constraint(mat, mesh)
        unchanged("constraint: the mat", mat, s0)
        unchanged("constraint: the mesh", mesh, s3, addcol="h")
        if c["vtk"]:
            mesh = pd.DataFrame(F.Mesh(stack))
            mesh.attrs = dict(stack.attrs)
            mesh.attrs["periodic"] = False
            mesh = F.Mesh(mesh)
            s3 = snap(mesh)
            F.vtk_mat(mat, verbose=False)
            unchanged("vtk_mat: the mat", mat, s0)
            if distinct_s(mesh):
                d = np.linspace(0, 1, len(mesh))
                d0 = d.copy()
                F.vtk_mesh(mat, mesh, d, d * 0, d, d * 0, verbose=False)
                unchanged("vtk_mesh: the mat", mat, s0)
                unchanged("vtk_mesh: the mesh", mesh, s3)
                need(np.array_equal(d, d0), "vtk_mesh changed the displacement given")
        return True


def distinct_s(mesh):
    f, s = mesh.fiber.values, mesh.s.values
    return all(f[i] != f[i + 1] or s[i] < s[i + 1] for i in range(len(f) - 1))


# --------------------------------------------------------------------- C10-11

@prop
class C10:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 0, [4, 9, 20][lvl]), periodic=bool(rng.integers(0, 2)),
                    mode=str(rng.choice(["net", "none", "sub", "custom"])), seed=int(rng.integers(0, 10 ** 6)),
                    scale=G.r(rng.choice([1., .3])))

    def inputs(c):
        F = fm()
        mat = G.mat_of(c["mat"])
        n = len(mat)
        rng = np.random.default_rng(c["seed"])
        if c["mode"] == "none":
            return mat, None
        if c["mode"] == "custom" and n:
            t = G.net_table(n, c["seed"], int(rng.integers(0, 3 * n)), size=mat.attrs["size"], periodic=c["periodic"])
            return mat, F.Net(t)
        net = F.Net(mat, periodic=c["periodic"])
        if c["mode"] == "sub" and n:
            keep = (rng.random(len(net)) < .6) | (net.A.values == net.B.values)
            t = pd.DataFrame({q: net[q].values[keep] for q in NETCOLS})
            t.attrs = dict(net.attrs)
            net = F.Net(t)
        return mat, net

    def check(c):
        F = fm()
        mat, net = C10.inputs(c)
        ref = net if net is not None else F.Net(mat)
        A, B = ref.A.values.copy(), ref.B.values.copy()
        h = mat.h.values.copy()
        n = len(mat)
        zs = []
        m2 = F.Mat(mat.copy())
        sol = F.Stack.solve(m2, net)
        F.Stack(mat, net) if net is not None else F.Stack(mat)
        zs = [("Stack.solve", np.asarray(sol.x))] if n else []
        zs.append(("Stack", mat.z.values))
        con = 0
        for what, z in zs:
            need(len(z) == n, "{}: {} heights for {} fibres", what, len(z), n)
            tol = 1e-6 * (1 + (np.abs(z).max() if n else 0))
            need(bool(np.all(z >= h / 2 - tol)), "{}: heights {} below half thickness {}", what, z, h / 2)
            rest = np.abs(z - h / 2) <= tol
            for a, b in zip(A, B):
                if a < b:
                    con += 1
                    gap = z[b] - z[a] - .5 * (h[a] + h[b])
                    need(gap >= -tol, "{}: fibres {} and {} interpenetrate by {}", what, a, b, -gap)
                    if gap <= tol:
                        rest[b] = True
            need(bool(np.all(rest)), "{}: fibres {} rest on nothing (heights {})", what, np.flatnonzero(~rest), z)
        return con > 0


@prop
class C11:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 0, [4, 9, 20][lvl]), periodic=bool(rng.integers(0, 2)),
                    thr=[str(rng.choice(["none", "zero", "row", "num", "num", "inf"])), G.r(rng.uniform(0, 8)), int(rng.integers(0, 10 ** 6))])

    def check(c):
        F = fm()
        mat = G.mat_of(c["mat"])
        net = F.Net(mat, periodic=c["periodic"])
        m2 = F.Mat(mat.copy())
        F.Stack(m2, F.Net(mat, periodic=c["periodic"]))
        ref = F.Net(m2, periodic=c["periodic"])
        kind, val, s = c["thr"]
        thr = dict(none=None, zero=0., num=val, inf=1e9).get(kind)
        if kind == "row":
            dz = np.abs(ref.zB.values - ref.zA.values)[ref.A.values < ref.B.values]
            if len(dz) == 0:
                return False
            thr = float(dz[s % len(dz)])
        st = F.Stack(mat, net, threshold=thr)
        need(np.array_equal(mat.z.values, m2.z.values), "stacked heights differ between two identical calls")
        ref = F.Net(mat, periodic=c["periodic"])
        dz = np.abs(ref.zB.values - ref.zA.values)
        keep = np.ones(len(ref), bool) if thr is None else ((dz <= thr) | (ref.A.values == ref.B.values))
        need(len(st) == keep.sum(), "{} rows kept, {} expected (threshold {})", len(st), keep.sum(), thr)
        need(list(st.index) == list(range(len(st))), "labels {}", list(st.index))
        for q in NETCOLS:
            need(q in st.columns and np.array_equal(st[q].values, ref[q].values[keep]), "column {} of the stack differs from the kept rows of the network", q)
        need(st.attrs.get("periodic") == c["periodic"], "periodicity {} became {}", c["periodic"], st.attrs.get("periodic"))
        return len(ref) > len(mat)


# --------------------------------------------------------------------- C12-13

def mesh_checks(df, mesh, nodes=True, topo=True):
    m = len(df)
    need(len(mesh) == 2 * m, "{} nodes for {} rows", len(mesh), m)
    f, b, c = (mesh[q].values for q in ("fiber", "beam", "constraint"))
    s = mesh.s.values
    need(list(mesh.index) == list(range(2 * m)), "node labels {}", list(mesh.index)[:10])
    got = [tuple(x) for x in mesh[["fiber", "s", "x", "y", "z"]].values.tolist()]
    if nodes:
        want = []
        for e in "AB":
            want += [tuple(x) for x in df[[e, "s" + e, "x" + e, "y" + e, "z" + e]].values.astype(float).tolist()]
        need(sorted(got) == sorted(want), "mesh nodes are not the ends of the network rows")
        need(bool(np.all(f[b] == f)), "a beam joins nodes of different fibres")
    if not topo:
        return
    for i in range(2 * m - 1):
        need(f[i] < f[i + 1] or (f[i] == f[i + 1] and s[i] <= s[i + 1]), "nodes {} {} not grouped by fibre and ordered by abscissa", i, i + 1)
    for k in np.unique(f):
        sel = np.flatnonzero(f == k)
        need(np.array_equal(b[sel], np.roll(sel, -1)), "fibre {}: beams {} do not chain nodes {}", k, b[sel], sel)
        for q in (sel[0], sel[-1]):
            need(c[q] == q, "fibre {}: end node {} constrained to {}", k, q, c[q])
    need(np.array_equal(c[c], np.arange(2 * m)), "constraint relation is not its own inverse")
    other = {}
    pairs = {}
    for k in range(m):
        a, bb = df.A.iloc[k], df.B.iloc[k]
        if a == bb:
            continue
        na = (float(a), float(df.sA.iloc[k]), *[float(df[q + "A"].iloc[k]) for q in "xyz"])
        nb = (float(bb), float(df.sB.iloc[k]), *[float(df[q + "B"].iloc[k]) for q in "xyz"])
        pairs.setdefault(na, []).append(nb)
        pairs.setdefault(nb, []).append(na)
    for i in range(2 * m):
        if c[i] == i:
            sel = np.flatnonzero(f == f[i])
            need(i in (sel[0], sel[-1]), "inner node {} constrained to itself", i)
            continue
        need(f[c[i]] != f[i], "constraint joins nodes {} and {} of one fibre", i, c[i])
        need(got[c[i]] in pairs.get(got[i], []), "node {} is constrained to {}, not the other end of its connection", i, c[i])


class _MeshProp:
    def gen(rng, lvl):
        c = net_case(rng, lvl, shuffled=True)
        c["stackthr"] = G.r(rng.uniform(0, 5)) if c.get("real") and rng.random() < .5 else None
        return c

    def inputs(c):
        F = fm()
        if c.get("stackthr") is not None:
            mat = G.mat_of(c["mat"])
            return F.Stack(mat, F.Net(mat, periodic=c["periodic"]), threshold=c["stackthr"])
        return F.Net(net_of(c))


@prop
class C12(_MeshProp):
    def check(c):
        net = _MeshProp.inputs(c)
        df = pd.DataFrame({q: net[q].values.copy() for q in NETCOLS})
        try:
            mesh = fm().Mesh(net)
        except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError) as e:
            raise Bad("Mesh(net) refused a network with all end rows: {!r}".format(e))
        need(verdict(fm().Mesh.check, mesh) == "ok", "Mesh.check refuses the mesh")
        mesh_checks(df, mesh, nodes=False)
        return len(df) > 2


@prop
class C13(_MeshProp):
    def check(c):
        net = _MeshProp.inputs(c)
        df = pd.DataFrame({q: net[q].values.copy() for q in NETCOLS})
        mesh_checks(df, fm().Mesh.init(net), topo=False)
        return len(df) > 2


# --------------------------------------------------------------------- C14-16

def finite_mesh(c):
    F = fm()
    mat = G.mat_of(c["mat"], finite=True)
    net = F.Net(mat, periodic=c["periodic"])
    if c.get("stack"):
        net = F.Stack(mat, net, threshold=c.get("thr"))
    return mat, F.Mesh(net)


def mesh_case(rng, lvl, nmin=0):
    m = G.mat_case(rng, nmin, [3, 6, 12][lvl], finite=True)
    return dict(mat=G.dense(rng, m) if lvl and rng.random() < .1 else m, periodic=bool(rng.integers(0, 2)),
                stack=bool(rng.integers(0, 2)), thr=None if rng.random() < .6 else G.r(rng.uniform(.5, 6)))


def beams(mesh):
    f, s = mesh.fiber.values, mesh.s.values
    return [(i, i + 1, f[i], s[i + 1] - s[i]) for i in range(len(f) - 1) if f[i] == f[i + 1]]


def ref_K(mat, mesh, eff, coupling):
    N = len(mesh)
    K = np.zeros((2 * N, 2 * N))
    for (i, j, f, _), l in zip(beams(mesh), eff):
        Gm, E, b, h = (float(mat[q].iloc[f]) for q in "GEbh")
        k0 = np.pi / 4 * Gm * b * h / l / (1 + G_over(Gm, E) * (l / h) ** 2)
        k1 = k0 * l / 2 * coupling
        d = k0 * (l ** 2 / 3 + E / Gm * h ** 2)
        o = k0 * (l ** 2 / 6 - E / Gm * h ** 2)
        Ke = np.array([[k0, k1, -k0, k1], [k1, d, -k1, o], [-k0, -k1, k0, -k1], [k1, o, -k1, d]])
        ix = [2 * i, 2 * i + 1, 2 * j, 2 * j + 1]
        K[np.ix_(ix, ix)] += Ke
    return K


def G_over(a, b):
    return a / b


def kclose(K, R):
    if K.shape != R.shape:
        return False
    return bool(np.all(np.abs(K - R) <= 1e-8 * (np.abs(R).max(initial=0) * 1e-3 + np.abs(K) + np.abs(R)) + 1e-12))


@prop
class C14:
    def gen(rng, lvl):
        c = mesh_case(rng, lvl)
        c["coupling"] = G.r(rng.choice([1., .99, 0., rng.uniform(0, 1), 1.5]))
        c["lmin"] = None if rng.random() < .6 else G.r(rng.uniform(.01, 1))
        return c

    def check(c):
        mat, mesh = finite_mesh(c)
        kw = {} if c["lmin"] is None else dict(lmin=c["lmin"])
        L = np.array([q[3] for q in beams(mesh)])
        if len(L) and L.min() < 1e-6:
            return False
        K, u, F, du, dF = fm().stiffness(mat, mesh, coupling=c["coupling"], **kw)
        N = 2 * len(mesh)
        for q, v in dict(u=u, F=F, du=du, dF=dF).items():
            need(v.shape == (N,) and not np.any(v), "vector {} is not {} zeros", q, N)
        D = K.toarray()
        need(D.shape == (N, N), "matrix shape {}", D.shape)
        eff = L
        if len(L) and c["lmin"] is not None:
            a, b, lo, hi = min(L.min(), c["lmin"]), max(L.max(), L.max()), c["lmin"], L.max()
            if lo > hi:
                return False
            eff = np.full(len(L), lo) if b == a else lo + (L - a) * (hi - lo) / (b - a)
        R = ref_K(mat, mesh, eff, c["coupling"])
        need(kclose(D, R), "stiffness matrix differs from the Timoshenko assembly (max difference {})", np.abs(D - R).max(initial=0))
        return len(L) > 1


@prop
class C15:
    def gen(rng, lvl):
        c = mesh_case(rng, lvl, nmin=1)
        c["b"] = [str(rng.choice(["none", "lo", "hi", "both", "both", "exact", "eq"])), G.r(rng.uniform(.05, 30)), G.r(rng.uniform(.05, 30))]
        return c

    def check(c):
        mat, mesh = finite_mesh(c)
        bs = beams(mesh)
        L = np.array([q[3] for q in bs])
        if L.min() < 1e-6:
            return False
        kind, a, b = c["b"]
        lo, hi = min(a, b), max(a, b)
        kw = dict(none={}, lo=dict(lmin=min(lo, float(L.max()))), hi=dict(lmax=max(hi, float(L.min()))),
                  both=dict(lmin=lo, lmax=hi), exact=dict(lmin=float(L.min()), lmax=float(L.max())),
                  eq=dict(lmin=lo, lmax=lo))[kind]
        K = fm().stiffness(mat, mesh, coupling=1., **kw)[0].tocsr()
        eff = np.array([2 * K[2 * i, 2 * j + 1] / -K[2 * i, 2 * j] for i, j, _, _ in bs])
        lmin, lmax = kw.get("lmin", L.min()), kw.get("lmax", L.max())
        tol = 1e-7 * (1 + lmax)
        need(bool(np.all((eff >= lmin - tol) & (eff <= lmax + tol))), "effective lengths {} outside [{}, {}]", eff, lmin, lmax)
        o = np.argsort(L, kind="stable")
        need(bool(np.all(np.diff(eff[o]) >= -tol)), "longer beams get shorter effective lengths: {} -> {}", L[o], eff[o])
        if kind in ("none", "exact"):
            need(bool(np.all(np.abs(eff - L) <= tol)), "effective lengths {} instead of {}", eff, L)
        if L.max() - L.min() > 1e-3:
            i0, i1 = int(np.argmin(L)), int(np.argmax(L))
            aff = eff[i0] + (L - L[i0]) * (eff[i1] - eff[i0]) / (L[i1] - L[i0])
            need(bool(np.all(np.abs(eff - aff) <= 10 * tol)), "length map is not affine: {} -> {}", L, eff)
        return len(L) > 1


@prop
class C16:
    def gen(rng, lvl):
        c = mesh_case(rng, lvl)
        c["mat"]["mods"] = sorted(set(c["mat"]["mods"]) | ({"h"} if rng.random() < .7 else set()))
        return c

    def check(c):
        mat, mesh = finite_mesh(c)
        C, f, H, df, dH = fm().constraint(mat, mesh)
        N = len(mesh)
        con, z, fib = mesh.constraint.values, mesh.z.values, mesh.fiber.values
        h = mat.h.values[fib] if N else np.zeros(0)
        Z = np.max(z + h / 2) if N else 0
        want = []
        for i in range(N):
            j = con[i]
            if i <= j:
                want.append((((2 * i, -1.),), z[i] - h[i] / 2, 0.))
                if i == j:
                    want.append(((), np.inf, 0.))
                else:
                    want.append((((2 * i, 1.), (2 * j, -1.)), z[j] - z[i] - (h[i] + h[j]) / 2, 0.))
                want.append((((2 * j, 1.),), Z - z[j] - h[j] / 2, 1.))
        D = C.toarray()
        need(D.shape == (len(want), 2 * N), "constraint matrix shape {} instead of {}", D.shape, (len(want), 2 * N))
        for q, v in dict(f=f, df=df).items():
            need(v.shape == (len(want),) and not np.any(v), "vector {} is not zero", q)
        need(H.shape == dH.shape == (len(want),), "bound vectors of shapes {} {}", H.shape, dH.shape)
        got = [(tuple((int(k), float(D[r, k])) for k in np.flatnonzero(D[r])), float(H[r]), float(dH[r])) for r in range(len(want))]
        got.sort(key=lambda t: (t[0], t[2], t[1]))
        want.sort(key=lambda t: (t[0], t[2], t[1]))
        for g, w in zip(got, want):
            need(g[0] == w[0] and close(g[1:], w[1:], 1e-9 * (1 + abs(Z))), "inequality {} instead of {}", g, w)
        if c["stack"] and N and not np.any(mat.w.values):
            need(bool(np.all(H >= -1e-6 * (1 + abs(Z)))), "stacked mesh with a negative gap {}", H.min())
        return N > 4


# --------------------------------------------------------------------- C17-18

class _Solve:
    def gen(rng, lvl):
        c = mesh_case(rng, lvl, nmin=1)
        c["stack"] = True
        c["mat"]["n"] = max(c["mat"]["n"], int(rng.integers(1, [4, 8, 14][lvl])))
        c["mat"]["size"] = G.r(rng.uniform(3, 20))
        c["mat"]["length"] = G.r(rng.uniform(5, 20))
        c["mat"]["thickness"] = G.r(rng.uniform(.2, 2))
        c["mat"]["tensile"] = G.r(rng.uniform(1, 500))
        c["mat"]["psi"] = 0.
        if lvl and rng.random() < .12:
            G.dense(rng, c["mat"], 20)       # a few hundred unknowns
        c["packing"] = G.r(rng.choice([1., 1.2, 2., 4.]))
        c["itermax"] = int(rng.choice([0, 1, 2, 5, 30, 100]))
        c["solver"] = str(rng.choice(["default", "default", "lstsq", "dense", "wrong", "scaled", "noisy", "noisy"]))
        c["errtol"] = float(rng.choice([1e-6, 1e-6, 1e-3]))
        c["perm"] = str(rng.choice(["none", "random", "rcm", "reversed"]))
        c["pseed"] = int(rng.integers(0, 10 ** 6))
        c["tol"] = float(rng.choice([1e-6, 1e-6, 1e-4]))
        c["lmin"] = 0.05
        return c

    def run(c):
        import scipy as sp
        F = fm()
        mat, mesh = finite_mesh(c)
        L = np.array([q[3] for q in beams(mesh)])
        if len(L) == 0 or len(mesh) > 160:
            return None
        kw = dict(lmin=c["lmin"])
        if L.max() < c["lmin"]:
            kw = {}
        K, u0, F0, du, dF = F.stiffness(mat, mesh, **kw)
        C, f0, H0, df, dH = F.constraint(mat, mesh)
        rng = np.random.default_rng(c["pseed"])
        args = dict(kw)
        N = K.shape[0] + C.shape[0]
        if c["perm"] == "random":
            args["perm"] = rng.permutation(N)
        elif c["perm"] == "reversed":
            args["perm"] = np.arange(N)[::-1]
        elif c["perm"] == "rcm":
            P = sp.sparse.bmat([[K, C.T], [C, None]], format="csc")
            args["perm"] = sp.sparse.csgraph.reverse_cuthill_mckee(P, symmetric_mode=True)
        if c["solver"] == "lstsq":
            args["solve"] = lambda A, b: np.linalg.lstsq(A.toarray(), b, rcond=None)[0]
        elif c["solver"] == "dense":
            args["solve"] = lambda A, b: np.linalg.solve(A.toarray(), b)
        elif c["solver"] == "wrong":
            # exact for the first calls, then wrong: the step must not be recorded
            k = [0]

            def bad(A, b):
                k[0] += 1
                x = np.linalg.lstsq(A.toarray(), b, rcond=None)[0]
                return x if k[0] <= 2 else x + 0.01
            args["solve"] = bad
        elif c["solver"] == "scaled":
            args["solve"] = lambda A, b: np.linalg.lstsq(A.toarray(), b, rcond=None)[0] + 0j
        resid = []
        errtol = c.get("errtol", 1e-6)
        if c["solver"] == "noisy":
            # residuals on both sides of the tolerance
            def noisy(A, b):
                A = A.toarray()
                x = np.linalg.lstsq(A, b, rcond=None)[0]
                d = rng.standard_normal(len(x))
                r = np.linalg.norm(A @ d)
                if r > 0:
                    x = x + d * (errtol * rng.choice([.2, .5, .8, 1.3, 3., 9.], p=[.3, .3, .2, .08, .06, .06]) / r)
                resid.append(np.linalg.norm(A @ x - b))
                return x
            args["solve"] = noisy
        try:
            out = F.solve(mat, mesh, packing=c["packing"], itermax=c["itermax"], tol=c["tol"], errtol=errtol, verbose=False, **args)
        except (np.linalg.LinAlgError, RuntimeError):
            return None        # the linear solver itself gave up
        names = ["K", "C", "u", "f", "F", "H", "Z", "rlambda", "mask", "err"]
        o = dict(zip(names, out))
        o["resid"] = resid
        hist = {q: np.asarray(o[q]()) for q in names[2:]}
        return mat, mesh, K.toarray(), C.toarray(), F0, H0, dH, hist, o


@prop
class C17:
    gen = _Solve.gen

    def check(c):
        if c["solver"] == "noisy":
            c = dict(c, solver="lstsq")      # C17 is about solvers that are exact up to rounding
        res = _Solve.run(c)
        if res is None:
            return False
        mat, mesh, K, C, F0, H0, dH, h, o = res
        need(np.array_equal(o["K"].toarray(), K) and np.array_equal(o["C"].toarray(), C), "the matrices returned are not those of the model")
        ns = {q: len(v) for q, v in h.items()}
        m = min(ns.values())
        et = c.get("errtol", 1e-6)
        fin = np.isfinite(H0)
        u, f, F, H = (h[q] for q in ("u", "f", "F", "H"))
        scale = 1 + np.abs(K).max(initial=0)
        # a recorded step was accepted with residual <= errtol (1e-6) per unit of plate travel
        travel = 1 + abs(float(h["Z"][0] - h["Z"][-1]))
        for k in range(m):
            need(np.all(np.isfinite(u[k])) and np.all(np.isfinite(f[k])), "state {}: displacement or force not finite", k)
            res = K @ u[k] + C.T @ f[k] - F[k]
            sc = 1 + np.abs(f[k]).max(initial=0) + np.abs(u[k]).max(initial=0)
            need(np.abs(res).max(initial=0) <= 2 * et * travel + 1e-9 * scale * sc, "state {}: forces do not balance (residual {})", k, np.abs(res).max(initial=0))
            gap = (H[k] - C @ u[k])[fin]
            need(gap.min(initial=0) >= -(2 * et * travel + 1e-9 * sc), "state {}: contact inequality violated by {}", k, -gap.min(initial=0))
            act = np.abs(f[k][fin]) > 1e-9 * (1 + np.abs(f[k]).max(initial=0))
            need(np.all(gap[act] <= c["tol"] + 2 * et * travel + 1e-9 * sc), "state {}: contact force at a gap of {}", k, gap[act].max(initial=0))
            need(not np.any(f[k][~fin]), "state {}: force on a vacuous inequality", k)
        return m > 2


@prop
class C18:
    gen = _Solve.gen

    def check(c):
        res = _Solve.run(c)
        if res is None:
            return False
        mat, mesh, K, C, F0, H0, dH, h, o = res
        ns = {q: len(v) for q, v in h.items()}
        need(len(set(ns.values())) == 1, "histories of different lengths {}", ns)
        m = ns["Z"]
        Z, rl = h["Z"].astype(float), h["rlambda"].astype(float)
        need(m <= c["itermax"] + 1, "{} states for {} iterations", m, c["itermax"])
        z0 = np.max(mesh.z.values + .5 * mat.h.values[mesh.fiber.values])
        fin = np.isfinite(H0)
        need(abs(Z[0] - z0) < 1e-9 * (1 + z0), "initial plate height {} instead of {}", Z[0], z0)
        need(not np.any(h["u"][0]) and not np.any(h["f"][0]) and close(h["F"][0], F0), "first state is not the undeformed one")
        need(close(h["H"][0][fin], H0[fin]), "first bounds differ from the initial gaps")
        for k in range(m):
            need(abs(rl[k] - Z[0] / Z[k]) <= 1e-9 * abs(rl[k]), "state {}: packing factor {} with heights {} {}", k, rl[k], Z[0], Z[k])
            need(close(h["F"][k], F0), "state {}: loads changed", k)
            need(close(h["H"][k][fin], (H0 + dH * (Z[k] - Z[0]))[fin], 1e-9), "state {}: bounds do not follow the plate", k)
            need(h["err"][k] <= c.get("errtol", 1e-6), "state {}: recorded although the residual {} exceeds the tolerance", k, h["err"][k])
            if k:
                need(Z[k] < Z[k - 1], "state {}: the plate does not move down", k)
                need(rl[k - 1] < c["packing"], "state {}: recorded after the target {} was reached", k, c["packing"])
        big = [k for k, r in enumerate(o["resid"]) if r > 1.01 * c.get("errtol", 1e-6)]
        if big and len(o["resid"]) >= m - 1:
            need(m - 1 <= big[0], "{} steps recorded although the residual of step {} is {}", m - 1, big[0], o["resid"][big[0]])
        if c["packing"] <= 1:
            need(m == 1, "target 1 but {} states", m)
        return m > 2


# --------------------------------------------------------------------- C19

@prop
class C19:
    def gen(rng, lvl):
        N = int(rng.choice([1, 1, 2, 3, 4, 7, [8, 20, 60][lvl]]))
        return dict(N=N, dim=int(rng.choice([0, 1, 3])), type=str(rng.choice(["float", "int", "bool"])),
                    kind=str(rng.choice(["linear", "linear", "previous"])),
                    size=(None if rng.random() < .5 else int(rng.choice([2, 3, 5, 11, 40]))),
                    seed=int(rng.integers(0, 10 ** 6)), aslist=bool(rng.integers(0, 2)))

    def check(c):
        rng = np.random.default_rng(c["seed"])
        shape = (c["N"],) + ((c["dim"],) if c["dim"] else ())
        if c["type"] == "float":
            y = rng.uniform(-100, 100, shape)
        elif c["type"] == "int":
            y = rng.integers(-50, 50, shape)
        else:
            y = rng.integers(0, 2, shape).astype(bool)
        kind = c["kind"]
        data = [q for q in y] if c["aslist"] else y
        before = np.array(y)
        kw = dict(kind="previous") if kind == "previous" else {}
        if c["size"] is not None:
            kw["size"] = c["size"]
        I = fm().Interpolate(data, **kw)
        need(np.array_equal(np.array(data), before), "the data given were changed")
        N = c["N"]
        t = np.linspace(0, 1, N)
        tol = 1e-9 * 100

        def eq(a, b):
            a, b = np.asarray(a), np.asarray(b)
            return a.shape == b.shape and bool(np.all(np.abs(a.astype(float) - b.astype(float)) <= tol)) if c["type"] == "float" else np.array_equal(a, b)

        need(np.asarray(I(0.5)).dtype == y.dtype and np.asarray(I()).dtype == y.dtype, "type {} became {}", y.dtype, np.asarray(I(0.5)).dtype)
        for q in (-5., -1e-3, 1 + 1e-3, 7.):
            need(eq(I(q), y[-1]), "outside [0,1] at {}: {} instead of {}", q, I(q), y[-1])
        if c["size"] is None:
            for k in range(N):
                need(eq(I(t[k]), y[k]), "at {}/{}: {} instead of {}", k, N - 1, I(t[k]), y[k])
            own = np.asarray(I())
            need(own.shape == y.shape and eq(own, y), "called without argument: {} instead of the values", own)
        else:
            own = np.asarray(I())
            need(own.shape == (c["size"],) + y.shape[1:], "called without argument: shape {}", own.shape)
        own = np.asarray(I())
        for k, q in enumerate(np.atleast_1d(I.t)):
            need(eq(I(q), own[k]), "I(t)[{}] differs from I()[{}]", k, k)
        if N == 1:
            for q in (0., .3, 1., 2.):
                need(eq(I(q), y[0]), "single value: {} at {}", I(q), q)
        elif kind == "linear":
            need(eq(I(0.), y[0]) and eq(I(1.), y[-1]), "ends {} {} instead of {} {}", I(0.), I(1.), y[0], y[-1])
            lo, hi = y.min(axis=0).astype(float), y.max(axis=0).astype(float)
            for q in np.linspace(0, 1, 23):
                v = np.asarray(I(q)).astype(float)
                need(bool(np.all(v >= lo - tol) and np.all(v <= hi + tol)), "value {} at {} leaves the recorded range", v, q)
            if c["size"] is None and c["type"] == "float":
                for k in range(N - 1):
                    need(eq(I(.5 * (t[k] + t[k + 1])), .5 * (y[k] + y[k + 1])), "not linear between samples {} and {}", k, k + 1)
        elif c["size"] is None:
            for k in range(N - 1):
                need(eq(I(.5 * (t[k] + t[k + 1])), y[k]), "'previous' between samples {} and {}", k, k + 1)
        return N > 1


# --------------------------------------------------------------------- C20-21

def vkw(rng):
    return dict(r_resolution=int(rng.integers(1, 4)), theta_resolution=int(rng.integers(3, 9)), z_resolution=int(rng.integers(2, 9)))


@prop
class C20:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 0, [2, 4, 8][lvl]), kw=vkw(rng) if rng.random() < .7 else {})

    def one(P, xyz, fib, i, tol, thetas):
        """P: points, xyz: local coordinates."""
        c0 = fib[[*"xyz"]].values.astype(float)
        u = fib[[*"uvw"]].values.astype(float)
        d = fib[[*"lbh"]].values.astype(float)
        need(bool(np.all(np.abs(xyz) <= d / 2 + tol)), "fibre {}: local coordinates beyond half dimensions", i)
        need(abs(xyz[:, 0].min() + d[0] / 2) <= tol and abs(xyz[:, 0].max() - d[0] / 2) <= tol, "fibre {}: the ends of the length are not reached", i)
        # every cross-section is an ellipse of the right size, filled to the axis
        rad = np.hypot(xyz[:, 1] / d[1], xyz[:, 2] / d[2])
        need(rad.max() >= .4, "fibre {}: cross-section of radius {}", i, rad.max())
        need(thetas % 4 or (abs(rad.max() - .5) <= 1e-6 and rad.min() <= 1e-6), "fibre {}: cross-section radii from {} to {} instead of 0 to 0.5", i, rad.min(), rad.max())
        need(bool(np.all(np.abs((P - c0) @ u - xyz[:, 0]) <= tol)), "fibre {}: points are not at their abscissa along the fibre", i)
        # orthonormal frame: P - c0 = xyz @ M with M orthonormal
        M, *_ = np.linalg.lstsq(xyz, P - c0, rcond=None)
        need(bool(np.all(np.abs(xyz @ M - (P - c0)) <= tol * 10)), "fibre {}: points are not a linear image of the local coordinates", i)
        need(bool(np.all(np.abs(M @ M.T - np.eye(3)) <= 1e-5)), "fibre {}: the local frame is not orthonormal", i)
        need(bool(np.all(np.abs(M[0] - u) <= 1e-5)), "fibre {}: first axis {} instead of {}", i, M[0], u)

    def check(c):
        mat = G.mat_of(c["mat"])
        msh = fm().vtk_mat(mat, verbose=False, **c["kw"])
        n = len(mat)
        if n == 0:
            need(msh.n_points == 0, "empty mat gives points")
            return False
        kw = dict(r_resolution=1, theta_resolution=8, z_resolution=20)
        kw.update(c["kw"])
        per = (kw["r_resolution"] + 1) * (kw["theta_resolution"] + 1) * kw["z_resolution"]
        need(msh.n_points == n * per, "{} points for {} fibres of {}", msh.n_points, n, per)
        fib = np.asarray(msh["fiber"])
        need(np.array_equal(fib, np.repeat(np.arange(n), per)), "fibre labels of the points are not in label order")
        P, X = np.asarray(msh.points, float), np.asarray(msh["xyz"], float)
        for i in range(n):
            row = mat.iloc[i]
            s = slice(i * per, (i + 1) * per)
            tol = 1e-5 * (1 + np.abs(row[[*"lbhxyz"]].values.astype(float)).max())
            need(close(msh["lbh"][s], np.tile(row[[*"lbh"]].values.astype(float), (per, 1)), 1e-6), "fibre {}: dimensions field", i)
            need(close(msh["uvw"][s], np.tile(row[[*"uvw"]].values.astype(float), (per, 1)), 1e-6), "fibre {}: direction field", i)
            for q in "GE":
                need(close(msh[q][s], np.full(per, float(row[q])), 1e-6), "fibre {}: field {}", i, q)
            C20.one(P[s], X[s], row, i, tol, kw["theta_resolution"])
        return n > 1


@prop
class C21:
    def gen(rng, lvl):
        m = G.mat_case(rng, 1, [3, 5, 9][lvl], finite=True)
        if lvl and rng.random() < .25:
            m = G.dense(rng, m)
        return dict(mat=m, periodic=bool(rng.integers(0, 2)), kw=vkw(rng) if rng.random() < .7 else {},
                    seed=int(rng.integers(0, 10 ** 6)), fields=int(rng.integers(0, 4)), rot=bool(rng.integers(0, 2)))

    def check(c):
        F = fm()
        mat = G.mat_of(c["mat"], finite=True)
        net = F.Net(mat, periodic=c["periodic"])
        mesh = F.Mesh(net)
        t = pd.DataFrame({q: mesh[q].values for q in MESHCOLS})
        t.attrs = dict(mesh.attrs)
        t.attrs["periodic"] = False
        mesh = F.Mesh(t)
        m = len(mesh)
        bl = np.array([q[3] for q in beams(mesh)])
        if bl.min() < 2e-5 * mat.l.max():
            return False
        rng = np.random.default_rng(c["seed"])
        d, r, f, mo = (rng.uniform(-1, 1, m) for _ in range(4))
        kw = dict(c["kw"])
        if c["fields"] & 1:
            kw["displacement"] = d.copy()
            if c["rot"]:
                kw["rotation"] = r.copy()
        if c["fields"] & 2:
            kw["force"] = f.copy()
            if c["rot"]:
                kw["moment"] = mo.copy()
        msh = F.vtk_mesh(mat, mesh, verbose=False, **kw)
        base = F.vtk_mat(mat, verbose=False, **c["kw"])
        need(msh.n_points == base.n_points, "{} points instead of {}: the fibre mesh options are not honoured", msh.n_points, base.n_points)
        node = np.asarray(msh["node"], float)
        fib = np.asarray(msh["fiber"]).astype(int)
        x = np.asarray(msh["xyz"])[:, 0]
        fm_, s = mesh.fiber.values, mesh.s.values
        k = np.floor(node + 1e-9).astype(int)
        for p in range(len(node)):
            i = fib[p]
            sel = np.flatnonzero(fm_ == i)
            need(sel[0] <= node[p] + 1e-6 and node[p] <= sel[-1] + 1e-6, "point {} of fibre {} located at node {} (nodes {}..{})", p, i, node[p], sel[0], sel[-1])
            q = min(max(k[p], sel[0]), sel[-1] - 1)
            at = s[q] + (node[p] - q) * (s[q + 1] - s[q])
            need(abs(at - x[p]) <= 1e-4 * abs(x[p]) + 3e-6 * mat.l.iloc[i] + 1e-9, "point {} at abscissa {} located at node {} (abscissa {})", p, x[p], node[p], at)

        def hermite(val, der):
            q = np.clip(np.floor(node).astype(int), 0, m - 2)
            w = node - q
            return ((1 + 2 * w) * (1 - w) ** 2 * val[q] + w * (1 - w) ** 2 * der[q] + w ** 2 * (3 - 2 * w) * val[q + 1] + w ** 2 * (w - 1) * der[q + 1])
        z0 = np.zeros(m)
        if c["fields"] & 1:
            want = hermite(d, r if c["rot"] else z0)
            D = np.asarray(msh["displacement"])
            need(not np.any(D[:, :2]), "the displacement field is not vertical")
            need(close(D[:, 2], want, 1e-6), "displacement differs from the nodal interpolation by {}", np.abs(D[:, 2] - want).max())
            mv = np.asarray(msh.points) - np.asarray(base.points)
            need(np.abs(mv[:, :2]).max() < 1e-6 * (1 + np.abs(base.points).max()), "points moved horizontally")
            need(close(mv[:, 2], want, 1e-5 * (1 + np.abs(base.points).max())), "points did not move by the displacement")
        else:
            need(close(msh.points, base.points, 1e-7), "points moved without displacement")
        if c["fields"] & 2:
            want = hermite(f, mo if c["rot"] else z0)
            need(close(msh["force"], want, 1e-6), "force differs from the nodal interpolation by {}", np.abs(np.asarray(msh["force"]) - want).max())
        return m > 4


# --------------------------------------------------------------------- C22

SPEC = dict(n=("int", 0), length=("pos", 25.), width=("pos", 1.), thickness=("pos", 1.), size=("pos", 50.),
            theta=("unit", 1.), shear=("inf", 1.), tensile=("inf", np.inf), seed=("oint", 0), periodic=("bool", True),
            threshold=("opt", None), packing=("pos", 1.), itermax=("iter", 1000), tol=("tol", 1e-6), lmin=("opt", None),
            lmax=("opt", None), coupling=("pos", 1.0), interp_size=("oint", None), verbose=("bool", True))


def sval(rng, kind):
    if kind == "int":
        return int(rng.integers(0, 50))
    if kind == "pos":
        return G.r(rng.uniform(.1, 30))
    if kind == "unit":
        return G.r(rng.choice([0., 1., rng.uniform(0, 1)]))
    if kind == "inf":
        return [None, "inf", "npinf", G.r(rng.uniform(.1, 30))][int(rng.integers(1, 4))] if rng.random() < .9 else G.r(rng.uniform(.1, 9))
    if kind == "oint":
        return None if rng.random() < .4 else int(rng.integers(0, 50))
    if kind == "opt":
        return None if rng.random() < .4 else G.r(rng.choice([0., rng.uniform(.1, 30)]))
    if kind == "bool":
        return bool(rng.integers(0, 2))
    if kind == "iter":
        return int(rng.choice([1, 10, 100, 1000, 37]))
    if kind == "tol":
        return float(rng.choice([1e-6, 1e-3, 1e-9]))


def conv(v):
    return {"inf": float("inf"), "npinf": np.float64("inf")}.get(v, v) if isinstance(v, str) else v


@prop
class C22:
    def gen(rng, lvl):
        names = list(SPEC)
        init = {q: sval(rng, SPEC[q][0]) for q in names if rng.random() < .35}
        ops = []
        for _ in range(int(rng.integers(0, [3, 8, 20][lvl]))):
            q = str(rng.choice(names if rng.random() < .5 else ["shear", "tensile", "seed", "threshold", "lmin", "lmax", "interp_size", "theta"]))
            ops.append([q, sval(rng, SPEC[q][0]), bool(rng.integers(0, 2))])
        return dict(init=init, ops=ops)

    def check(c):
        want = {q: d for q, (k, d) in SPEC.items()}
        init = {q: conv(v) for q, v in c["init"].items()}
        S = fm().Settings(**init)
        want.update(init)

        def compare(when):
            got = dict(**S)
            need(sorted(got) == sorted(want), "{}: parameters {}", when, sorted(got))
            for q, v in want.items():
                e = v * np.pi if q == "theta" else v
                for g in (S[q], got[q]):
                    if e is None:
                        need(g is None, "{}: {} reads {} instead of None", when, q, g)
                    else:
                        need(g is not None and (g == e or abs(g - e) <= 1e-12 * abs(e)), "{}: {} reads {} instead of {}", when, q, g, e)
        compare("after construction")
        for q, v, call in c["ops"]:
            v = conv(v)
            if call:
                S(**{q: v})
            else:
                S[q] = v
            want[q] = v
            compare("after setting {} to {}".format(q, v))
        return bool(c["ops"])


# --------------------------------------------------------------------- C23

@prop
class C23:
    def gen(rng, lvl):
        return dict(mat=G.mat_case(rng, 0, [3, 6, 10][lvl]), periodic=bool(rng.integers(0, 2)), thr=None if rng.random() < .5 else G.r(rng.uniform(0, 5)),
                    empty=bool(rng.random() < .3))

    def check(c):
        F = fm()
        if c["empty"]:
            d0 = dict(n=0, size=50.)
            d1 = dict(n=0, size=50., periodic=True)
            mk = [("Mat()", lambda: F.Mat(), MATCOLS, d0), ("Mat(0)", lambda: F.Mat(0), MATCOLS, d0), ("Mat.init()", lambda: F.Mat.init(), MATCOLS, d0)]
            for a, x in (("", []), ("None", [None]), ("Mat()", [F.Mat()])):
                mk.append(("Net({})".format(a), lambda x=x: F.Net(*x), NETCOLS, d1))
                mk.append(("Stack({})".format(a), lambda x=x: F.Stack(*x), NETCOLS, d1))
            mk.append(("Stack(None, None)", lambda: F.Stack(None, None), NETCOLS, d1))
            mk.append(("Stack(Mat(), Net(), threshold=1)", lambda: F.Stack(F.Mat(), F.Net(), threshold=1.), NETCOLS, d1))
            mk.append(("Stack(None, Net())", lambda: F.Stack(None, F.Net()), NETCOLS, d1))
            for a, x in (("", []), ("None", [None]), ("Net()", [F.Net()]), ("Stack()", [F.Stack()])):
                mk.append(("Mesh({})".format(a), lambda x=x: F.Mesh(*x), MESHCOLS, d1))
            for name, f, cols, at in mk:
                try:
                    t = f()
                except Exception as e:
                    raise Bad("{} raised {!r}".format(name, e))
                need(len(t) == 0 and list(t.columns) == cols, "{}: {} rows, columns {}", name, len(t), list(t.columns))
                need(dict(t.attrs) == at, "{}: metadata {}", name, dict(t.attrs))
            for cls in (F.Mat, F.Net, F.Stack, F.Mesh):
                need(verdict(cls.check, None) == "ok", "{}.check(None) refused", cls.__name__)
                need(verdict(cls.check, cls()) == "ok", "{}.check of the empty table refused", cls.__name__)
            return True
        mat = G.mat_of(c["mat"])
        n, S = len(mat), c["mat"]["size"]
        net = F.Net(mat, periodic=c["periodic"])
        stack = F.Stack(mat, net, threshold=c["thr"])
        for name, t in (("network", net), ("stack", stack), ("mesh of the network", F.Mesh(net)), ("mesh of the stack", F.Mesh(stack))):
            at = dict(t.attrs)
            need(at.get("n") == n and at.get("size") == S, "{}: metadata {} instead of n={} size={}", name, at, n, S)
            need(at.get("periodic") is c["periodic"] or at.get("periodic") == c["periodic"], "{}: periodicity {} instead of {}", name, at.get("periodic"), c["periodic"])
        need(mat.attrs.get("n") == n and mat.attrs.get("size") == S, "mat metadata {}", mat.attrs)
        if c["periodic"]:
            need(F.Net(mat).attrs["periodic"] is True, "default network is not periodic")
        return n > 0
