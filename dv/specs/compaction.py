"""The compaction loop of solver.solve, cut by its invariant (C17, C18).

The callees stiffness and constraint are used by their contracts (C14, C16); the
system matrix is an abstract symmetric operator; the loop is cut at its head: the
invariant is proved on entry, assumed for an arbitrary state, and proved again
after one execution of the real body."""
import ctypes

from .pipeline import *
from .. import ssp

SOLVER = ("mat", "net", "mesh", "model", "interpolation", "solver")
HIST = ("u_", "f_", "F_", "H_", "Z_", "rlambda_", "mask_", "err_")
INF = Sc(0, "r", (False, True, False))


class Hist(list):
    """A history of symbolic length: first and last state are known, the rest is not."""

    def __init__(self, first, last, n):
        list.__init__(self)
        self.first, self.lastv, self.n0 = first, last, n
        self.new = []

    def slen(self):
        return A.wrapint(norm(ADD(self.n0, len(self.new))))

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0:
            return self.first
        if isinstance(k, int) and -len(self.new) <= k < 0:
            return self.new[k]
        if k == -1:
            return self.lastv
        K.unsupported("element of a history")

    def __iadd__(self, o):
        self.new.extend(o)
        return self

    def append(self, o):
        self.new.append(o)

    def extend(self, o):
        self.new.extend(o)

    def __iter__(self):
        K.unsupported("iteration over a history")

    def __len__(self):
        K.unsupported("length of a history in native code")


def set_local(frame, **kw):
    loc = frame.f_locals
    loc.update(kw)
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def vec(c, name, n):
    f = c.leaf(name, [n], R)
    return lambda i: f(K.toint(i))


def zeros(n):
    return Arr((n,), "r", lambda ix: Sc(0, "r"))


class Done(BaseException):
    """the loop has been executed once from an arbitrary state"""


class Run:
    def __init__(self, c, pkg, exact, perm=False, solver=False, size=False):
        self.c, self.pkg, self.exact, self.given = c, pkg, exact, (perm, solver, size)
        n = c.int("n")
        c.assume(n >= 1)
        self.mat, self.mesh = mat_mesh(c, pkg)
        N = self.mesh._n
        self.nu = nu = norm(MUL(2, N))
        self.nc = nc = c.int("inequalities")
        c.assume(nc >= 1)
        self.n = norm(ADD(nu, nc))
        self.K = ssp.LinOp("K", (nu, nu), symmetric=True)
        self.C = ssp.LinOp("C", (nc, nu))
        h = c.leaf("H0", [nc], R)
        hinf = c.leaf("H0_inf", [nc], z3.BoolSort())
        rate = c.leaf("dH", [nc], R)
        self.h0 = lambda j: Sc(h(K.toint(j)), "r", (False, hinf(K.toint(j)), False))
        self.dH = lambda j: rate(K.toint(j))
        c.forall([nc], lambda j: AND(LE(0, h(K.toint(j))), OR(EQ(self.dH(j), 0), EQ(self.dH(j), 1)), IMP(hinf(K.toint(j)), EQ(self.dH(j), 0))), "bounds of a stacked mat")
        self.hinf = lambda j: hinf(K.toint(j))
        self.packing, self.tol, self.errtol = c.real("packing"), c.real("tol"), c.real("errtol")
        c.assume(AND(LE(0, self.tol), LE(0, self.errtol)))
        self.itermax = c.int("itermax")
        c.assume(self.itermax >= 0)
        self.made, self.calls = [], dict(stiffness=0, constraint=0)
        self.phase = 0
        th = self.mat.__dict__["_spec"]["g"]["h"]
        fib = self.mesh.__dict__["_spec"]["g"]["fiber"]
        z = self.mesh.__dict__["_spec"]["g"]["z"]
        self.top = lambda t: ADD(z(t), DIV(th(fib(t)), 2))
        r = self

        def stiffness(mat, mesh, **k):
            r.calls["stiffness"] += 1
            c.prove("the stiffness is that of the mat and mesh given", mat is r.mat and mesh is r.mesh)
            return r.K, zeros(nu), zeros(nu), zeros(nu), zeros(nu)

        def constraint(mat, mesh, **k):
            r.calls["constraint"] += 1
            c.prove("the constraints are those of the mat and mesh given", mat is r.mat and mesh is r.mesh)
            mesh["h"] = Arr((mesh._n,), "r", lambda ix: Sc(th(fib(ix[0])), "r"))
            return r.C, zeros(nc), Arr((nc,), "r", lambda ix: r.h0(ix[0])), zeros(nc), Arr((nc,), "r", lambda ix: Sc(r.dH(ix[0]), "r"))

        class Interp:
            def __init__(self, data, *a, **k):
                self.data, self.a, self.k = data, a, k
                r.made.append(self)
        m = pkg.mods["fibermat.solver"]
        if not hasattr(m, "stiffness") or not hasattr(m, "constraint") or not hasattr(m, "Interpolate"):
            raise K.Unsupported("solver.py does not import its parts by name")
        m.stiffness, m.constraint, m.Interpolate = stiffness, constraint, Interp
        self.m = m

    def step(self, *a, **k):
        """an obligation of C18 alone"""
        if not self.exact:
            self.c.prove(*a, **k)

    # --- the system
    def part(self, a, lo, n):
        g = a if callable(a) else A.asarr(a).getter()
        return lambda i: g(norm(ADD(i, lo)))

    def same_vec(self, name, a, b, n, la=0, lb=0):
        """a[la + i] == b[lb + i] for i in range(n)"""
        self.c.prove(name, lambda i: K.ident(K.num(a(norm(ADD(i, la)))), K.num(b(norm(ADD(i, lb))))), [n])

    def go(self):
        c, n = self.c, self.n
        kw = dict(packing=Sc(self.packing, "r"), itermax=A.wrapint(self.itermax), tol=Sc(self.tol, "r"), errtol=Sc(self.errtol, "r"), verbose=bool(any(self.given) or c.choice("verbose")))
        if self.given[0]:
            self.P = A.Perm(n, "given_perm")
            kw["perm"] = Arr((n,), "i", lambda ix: Sc(self.P.p(ix[0]), "i"))
        if self.given[1]:
            def solver(Am, b):
                if not isinstance(Am, ssp.SubOp):
                    raise K.Unsupported("the linear solver is given something else than a part of the system")
                return ssp.spsolve(Am, b)
            kw["solve"] = solver
        size = None
        if self.given[2]:
            size = c.int("interp_size")
            c.assume(size >= 2)
            kw["interp_size"] = A.wrapint(size)
        if self.exact:
            # the linear solver is exact whenever its residual is accepted
            real = self.m.np.linalg.norm
            et = self.errtol

            class LA:
                def __getattr__(s, k):
                    return getattr(self.pkg.mods["fibermat.mesh"].np.linalg, k)

                @staticmethod
                def norm(a, *x, **k):
                    v = real(a, *x, **k)
                    c.assume(OR(EQ(v.t, 0), LT(et, v.t)))
                    return v

            class NP:
                linalg = LA()

                def __getattr__(s, k):
                    return getattr(self.pkg.mods["fibermat.mesh"].np, k)
            self.m.np = NP()
        loader.Hooks.whileloop = self.head
        try:
            out = self.m.solve(self.mat, self.mesh, **kw)
        except Done:
            return
        finally:
            loader.Hooks.whileloop = None
        if not self.phase:
            raise K.Unsupported("the compaction loop is not a while loop")
        self.exit(out, size)

    # --- invariant
    def D(self, q, px):
        """the slack of every row of the system"""
        return lambda i: K.sub(K.num(q(i)), Sc(px(i), "r"))

    def invariant(self, x, q, px, Z, Z0):
        """name -> (fn, dims) over the rows of the system"""
        nu, nc, tol = self.nu, self.nc, self.tol
        D = self.D(q, px)
        at = lambda j: norm(ADD(j, nu))
        if self.exact:
            inv = [("the loads are finite", lambda i: K.num(q(i)).fin, nu), ("a bound stays infinite", lambda j: IFF(NOT(K.num(q(at(j))).fin), self.hinf(j)), nc),
                   ("an infinite bound is positive", lambda j: OR(K.num(q(at(j))).fin, K.lt(Sc(0, "r"), K.num(q(at(j)))).t), nc)]
        else:
            inv = [("the loads are constant", lambda i: K.ident(K.num(q(i)), Sc(0, "r")), nu),
                   ("the bounds follow the upper plate", lambda j: K.ident(K.num(q(at(j))), K.add(self.h0(j), Sc(MUL(self.dH(j), SUB(Z, Z0)), "r"))), nc)]
        if self.exact:
            inv += [("forces balance at every node", lambda i: EQ(D(i).t, 0), nu),
                    ("no contact inequality is violated", lambda j: K.le(Sc(0, "r"), D(at(j))).t, nc),
                    ("a contact force acts only within the contact tolerance", lambda j: IMP(NE(x(at(j)).t, 0), K.le(D(at(j)), Sc(tol, "r")).t), nc)]
        return inv

    def states(self, tag, x, q, vals):
        """the recorded vectors are those of the state (x, q)"""
        nu, nc = self.nu, self.nc
        for nm, src, lo, m in (("u_", x, 0, nu), ("f_", x, nu, nc), ("F_", q, 0, nu), ("H_", q, nu, nc)):
            if not self.exact and nm in ("u_", "f_"):
                continue
            a = A.asarr(vals[nm])
            self.c.prove("{}: the recorded {} has its dimension".format(tag, nm[0]), a.ndim == 1 and bool(A.samedim(a._shape[0], m)))
            if a.ndim == 1:
                self.same_vec("{}: the recorded {} is that of the state".format(tag, nm[0]), a.getter(), src, m, 0, lo)

    def head(self, test, frame, line):
        c = self.c
        L = dict(frame.f_locals)
        need_ = HIST + ("x", "q", "dx", "dq", "P", "i")
        if any(k not in L for k in need_):
            raise K.Unsupported("the loop state is not held where the invariant expects it")
        self.phase += 1
        if self.phase == 2:
            self.preserved(L, frame)
            raise Done()
        need([1] * self.calls["stiffness"], "stiffness")
        need([1] * self.calls["constraint"], "constraint")
        P = L["P"]
        if not isinstance(P, ssp.LinOp) or P.blocks is None:
            raise K.Unsupported("the system matrix is not assembled by blocks")
        B = P.blocks
        c.prove("the system matrix is [[K, C^T], [C, 0]]", B[0][0] is self.K and B[0][1] is self.C.T and B[1][0] is self.C and B[1][1] is None)
        if not P.symmetric:
            return test()
        self.op = P
        P.semantic = self.exact
        x, q = A.asarr(L["x"]), A.asarr(L["q"])
        xg, qg = x.getter(), q.getter()
        # on entry
        for k in HIST:
            if not isinstance(L[k], list) or isinstance(L[k], Hist):
                raise K.Unsupported("a history that is not a list")
            c.prove("on entry: one state is recorded in each history", len(L[k]) == 1)
        if any(len(L[k]) != 1 for k in HIST):
            return False
        self.step("on entry: nothing is counted", EQ(lift(L["i"]).t, 0))
        first = {k: L[k][0] for k in HIST}
        c.prove("on entry: no displacement and no force", lambda i: EQ(xg(i).t, 0), [self.n])
        pz = lambda i: 0        # the product with a null vector
        Z0 = lift(first["Z_"])
        self.step("on entry: the plate is at the top of the mat", AND(K.num(Z0).fin, c.exists_bool([self.mesh._n], lambda t: EQ(self.top(t), Z0.t), "top node")))
        self.step("on entry: no node is above the plate", lambda t: LE(self.top(t), Z0.t), [self.mesh._n])
        self.step("on entry: the packing is 1", EQ(lift(first["rlambda_"]).t, 1))
        self.step("on entry: no residual", EQ(lift(first["err_"]).t, 0))
        Z0 = Z0.t
        for nm, f, d in self.invariant(xg, qg, pz, Z0, Z0):
            c.prove("on entry: " + nm, f, [d])
        self.states("on entry", xg, qg, first)
        firstg = {k: A.asarr(first[k]).getter() for k in ("u_", "f_", "F_", "H_")}
        # an arbitrary state
        X, Q = vec(c, "state_x", self.n), vec(c, "state_q", self.n)
        dx = vec(c, "state_dx", self.n)
        px = vec(c, "state_Px", self.n)
        Zc = c.real("state_Z")
        done = c.int("state_i")
        c.assume(AND(LE(0, done), LE(done, self.itermax)))
        hinf = self.hinf
        Qs = lambda i: Sc(Q(i), "r", (False, AND(LE(self.nu, i), hinf(norm(SUB(i, self.nu)))), False))
        x.buf.set(lambda root: Sc(X(root[0]), "r"))
        q.buf.set(lambda root: Qs(root[0]))
        A.asarr(L["dx"]).buf.set(lambda root: Sc(dx(root[0]), "r"))
        x.blocks = q.blocks = L["dx"].blocks = None
        P.colsums()
        c.forall([self.nc], lambda j: IFF(EQ(P._cs(K.toint(ADD(j, self.nu))), 0), hinf(j)), "a vacuous inequality is one without coefficients")
        P.record(lambda i: Sc(X(i), "r"), px)
        xs = lambda i: Sc(X(i), "r")
        for nm, f, d in self.invariant(xs, Qs, px, Zc, Z0):
            c.forall([d], f, "invariant: " + nm)
        # rows of the system are loads or bounds
        c.facts.append(K.Fact([(dkey(self.n), self.n)], lambda i: (True, [(self.nu, i), (self.nc, norm(SUB(i, self.nu)))]), "rows"))
        for k in ("u_", "f_", "F_", "H_") if self.exact else ("F_", "H_"):
            g, h = firstg[k], A.asarr(first[k]).getter()
            m = A.asarr(first[k])._shape[0]
            c.prove("the first state recorded is a copy: {}".format(k[0]), lambda i: K.ident(K.num(g(i)), K.num(h(i))), [m])
        self.Z0, self.Zc, self.done, self.px, self.X, self.Q = Z0, Zc, done, px, xs, Qs
        nst = norm(ADD(done, 1))
        ml = c.leaf("state_mask", [self.n], z3.BoolSort())
        el = c.real("state_err")
        c.assume(AND(LE(0, el), LE(el, self.errtol)))
        nu, nc = self.nu, self.nc
        part = lambda g, lo, m: Arr((m,), "r", lambda ix: g(norm(ADD(ix[0], lo))))
        last = dict(u_=part(xs, 0, nu), f_=part(xs, nu, nc), F_=part(Qs, 0, nu), H_=part(Qs, nu, nc), Z_=Sc(Zc, "r"),
                    rlambda_=K.div(Sc(Z0, "r"), Sc(Zc, "r")), mask_=Arr((self.n,), "b", lambda ix: Sc(ml(K.toint(ix[0])), "b")), err_=Sc(el, "r"))
        self.hist = {k: Hist(first[k], last[k], nst) for k in HIST}
        self.dq = A.asarr(L["dq"]).getter()
        set_local(frame, i=Sc(done, "i"), **self.hist)
        self.before = {k: (v, A.asarr(v).getter() if isinstance(v, Arr) else None) for k, v in L.items() if k not in HIST + ("x", "q", "dx", "i", "u", "f", "F", "H", "du", "df")}
        return test()

    def preserved(self, L, frame):
        c, P = self.c, self.op
        for k, (v, g) in self.before.items():
            w = L.get(k)
            if w is not v and not (isinstance(w, (int, float, bool, str)) and w == v):
                raise K.Unsupported("the loop changes {} which the invariant does not describe".format(k))
            if g is not None:
                h = w.getter()
                B = c.forall_bool(w._shape, lambda *i: K.ident(K.num(g(*i)), K.num(h(*i))), "kept")
                if not c.known(B):
                    raise K.Unsupported("the loop changes the content of {}".format(k))
        for k in HIST:
            if L[k] is not self.hist[k]:
                raise K.Unsupported("a history is replaced")
        new = {}
        c.prove("every iteration records one state in each history", all(len(self.hist[k].new) == 1 for k in HIST))
        if any(len(self.hist[k].new) != 1 for k in HIST):
            return
        new = {k: self.hist[k].new[0] for k in HIST}
        Z0, Zc = self.Z0, self.Zc
        Z = lift(new["Z_"])
        self.step("an iteration is counted", EQ(lift(L["i"]).t, ADD(self.done, 1)))
        self.step("no more states than iterations allowed", LE(ADD(self.done, 1), self.itermax))
        self.step("no state follows one that reached the target", K.lt(K.div(Sc(Z0, "r"), Sc(Zc, "r")), Sc(self.packing, "r")).t)
        self.step("the plate moves strictly down", AND(K.num(Z).fin, LT(Z.t, Zc)))
        self.step("the packing is the ratio of the heights", K.ident(K.num(lift(new["rlambda_"])), K.div(Sc(Z0, "r"), Z)))
        c.prove("the residual recorded is accepted", AND(K.num(lift(new["err_"])).fin, LE(lift(new["err_"]).t, self.errtol)))
        x, q = A.asarr(L["x"]), A.asarr(L["q"])
        xg, qg = x.getter(), q.getter()
        self.states("every state", xg, qg, new)
        X, Q, n = self.X, self.Q, self.n
        # the new state is the old one plus a multiple of a vector whose product is known
        t = None
        cand = [("Z", SUB(Z.t, Zc))]
        if lift(L.get("dU")) is not None:
            cand.append(("dU", lift(L["dU"]).t))
        pw = None
        for nm, s in cand:
            for w, r in reversed(P.products):
                i = c.int("step")
                if any(c.refute([inr(i, n), NOT(EQ(xg(i).t, ADD(X(i).t, MUL(s, w(i).t))))], d, 4000, touch=[(n, i)], nl=True)[0] == "unsat" for d in (0, 1)):
                    t, pw, step = s, r, w
                    break
            if pw is not None:
                break
        if self.exact and pw is None:
            raise K.Unsupported("the new state is not the old one plus a step")
        if self.exact:
            mg = A.asarr(new["mask_"]).getter()
            for nm, f in (("the selected rows are solved", lambda i: IMP(mg(i).t, EQ(pw(i), self.dq(i).t))), ("the other unknowns do not change", lambda i: IMP(NOT(mg(i).t), EQ(step(i).t, 0)))):
                i = c.int("lemma")
                if any(c.refute([inr(i, n), NOT(f(i))], d, 4000, touch=[(n, i)], nl=False, only=True)[0] == "unsat" for d in (1, 2)):
                    c.forall([n], f, nm)
            d = lambda i: K.sub(K.num(self.Q(i)), Sc(self.px(i), "r"))
            v = lambda i: SUB(self.dq(i).t, pw(i))
            f = lambda i: IMP(AND(K.num(d(i)).fin, LT(self.tol, d(i).t), LT(0, v(i))), LE(0, ADD(d(i).t, MUL(t, v(i)))))
            i = c.int("lemma")
            if any(c.refute([inr(i, n), NOT(f(i))], dd, 8000, touch=[(n, i)], nl=nl, only=True)[0] == "unsat" for dd, nl in ((1, True), (2, False), (2, True))):
                c.forall([n], f, "the step is the first contact")
        px = self.px
        npx = (lambda i: ADD(px(i), MUL(t, pw(i)))) if pw is not None else None
        for nm, f, d in self.invariant(xg, qg, npx, Z.t, Z0):
            c.prove("every state: " + nm, f, [d], poly=False)
        # recorded vectors must not follow the state any more
        hist = ("u_", "f_", "F_", "H_") if self.exact else ("F_", "H_")
        keep_ = {k: A.asarr(new[k]).getter() for k in hist}
        for nm in ("x", "q", "dx"):
            v = vec(c, "later_" + nm, n)
            A.asarr(L[nm]).buf.set(lambda root, v=v: Sc(v(root[0]), "r"))
        for k in hist:
            a = A.asarr(new[k])
            g, h = keep_[k], a.getter()
            c.prove("the states recorded are copies: {}".format(k[0]), lambda i: K.ident(K.num(g(i)), K.num(h(i))), [a._shape[0]])

    def exit(self, out, size):
        c = self.c
        c.prove("ten results", isinstance(out, tuple) and len(out) == 10)
        if not (isinstance(out, tuple) and len(out) == 10) or not hasattr(self, "hist"):
            return
        c.prove("the matrices are returned", out[0] is self.K and out[1] is self.C)
        for nm, o in zip(("u", "f", "F", "H", "Z", "rlambda", "mask", "err"), out[2:]):
            if nm in (("Z", "rlambda", "mask", "err") if self.exact else ("u", "f")):
                continue
            h = self.hist[nm + "_"]
            if not hasattr(o, "data"):
                raise K.Unsupported("a history is not returned by Interpolate")
            c.prove("{}: the history recorded is returned".format(nm), o.data is h)
            c.prove("{}: a stopped step leaves no state".format(nm), len(h.new) == 0)
            if nm in ("mask", "err"):
                c.prove("{}: piecewise constant".format(nm), o.k.get("kind") == "previous")
            else:
                c.prove("{}: linear in time".format(nm), o.k.get("kind", "linear") == "linear")
            if nm in ("u", "f", "F", "H", "Z"):
                s = o.k.get("size", o.a[0] if o.a else None)
                c.prove("{}: resampled as asked".format(nm), (s is None) if size is None else (lift(s) is not None and bool(K.EQ(lift(s).t, size) is True or c.known(EQ(lift(s).t, size)))))
            else:
                c.prove("{}: not resampled".format(nm), o.k.get("size") is None and not o.a)
