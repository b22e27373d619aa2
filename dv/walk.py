"""Forward chaining over the facts of a path.

From ground hypotheses and a few index terms, the facts over one index (and the
enumeration of the pairs) are instantiated at terms proved to lie in their range; each
instance is simplified with the equalities known so far, the branches of its
if-then-elses are decided, and its conclusion is kept when its premise is proved.  Every
formula kept is a consequence of the path, so that it may be assumed there."""
import time

import z3

from . import core as K
from . import poly
from .core import AND, OR, NOT, IMP, EQ, NE, LT, LE, inr, isz, toint, norm, dkey


class Walk:
    def __init__(self, c, hyps, terms, depth=8, tmo=2500, seconds=60, skip=()):
        self.c, self.tmo, self.depth, self.skip = c, tmo, depth, set(skip)
        self.end = time.time() + seconds
        self.known = [h for h in hyps if isz(h)]
        self.base = [g for g in c.ground if not z3.is_or(g)]
        self.rules, self.ids, self.cache = [(K.SQRT(z3.RealVal(0)), z3.RealVal(0))], set(), {}
        self.terms = {}
        for d, t in terms:
            self.term(d, t, 0)
        for h in self.known:
            self.rule(h)
        self.used, self.pending = set(), []
        self.hook = None
        self.failed = set()
        self.purified, self.atoms = {}, {}
        self.stop, self.goal, self.same = False, None, False

    def term(self, d, t, gen):
        self.c.addterm(self.terms, dkey(d), toint(t), gen)

    # ---- rewriting
    def rule(self, f):
        """index equalities f(..) == smaller term become rewriting rules"""
        if z3.is_eq(f) and f.arg(0).sort() == z3.IntSort():
            a, b = f.arg(0), f.arg(1)
            for p, q in ((a, b), (b, a)):
                if z3.is_app(p) and p.num_args() and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and size(q) < size(p):
                    self.rules.append((p, q))
                    self.cache = {}
                    return

    def rw(self, f):
        """f with the known equalities applied and the decided branches taken"""
        if not isz(f):
            return f
        key = f.get_id()
        if key in self.cache:
            return self.cache[key][1]
        f0 = f
        for _ in range(60):
            g = z3.simplify(z3.substitute(f, *self.rules)) if self.rules else z3.simplify(f)
            c = inner(g)
            if c is not None:
                v = self.truth(c)
                if v is None:
                    f = g
                    break
                g = z3.substitute(g, (c, z3.BoolVal(v)))
            if g.get_id() == f.get_id():
                f = g
                break
            f = g
        self.cache[key] = (f0, f)
        return f

    def truth(self, cond):
        if self.proved(cond, quick=True):
            return True
        if self.proved(NOT(cond), quick=True):
            return False
        return None

    def proved(self, goal, quick=False):
        goal = K.tobool(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        key = ("p", goal.get_id(), len(self.known), quick)
        if key in self.cache:
            return self.cache[key][1]
        forms = [self.pure(f) for f in self.base + self.known + [NOT(goal)]]
        r = self.c.query([f for f in forms if not z3.is_true(f)], 400 if quick else 1200, False)[0] == "unsat"
        if not r and not quick and K.hasnl([goal]):
            r = poly.attempt(self.c, [NOT(goal)], self.base + self.known, 60)
            if not r:
                forms = self.base + self.known + [NOT(goal)]
                r = self.c.query(forms + self.c.axioms(forms), self.tmo, True)[0] == "unsat"
        self.cache[key] = (goal, r)
        return r

    def pure(self, f):
        """f with its products and roots taken as unknowns"""
        r = self.purified.get(f.get_id())
        if r is None:
            g = z3.simplify(f)
            subs, st, seen = [], [g], set()
            while st:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if not z3.is_app(e):
                    continue
                k = e.decl().kind()
                if k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(q) and not z3.is_int_value(q) for q in e.children()) > 1 \
                        or k in (z3.Z3_OP_POWER, z3.Z3_OP_DIV) or k == z3.Z3_OP_UNINTERPRETED and e.decl().name() == "sqrt":
                    if e.get_id() not in self.atoms:
                        self.atoms[e.get_id()] = (e, z3.FreshConst(e.sort(), "pure"))
                    subs.append(self.atoms[e.get_id()])
                else:
                    st.extend(e.children())
            r = self.purified[f.get_id()] = (f, z3.substitute(g, *subs) if subs else g)
        return r[1]

    # ---- chaining
    def add(self, f, gen):
        out = False
        for q in conj(f):
            q = self.rw(q)
            for w in conj(q):
                if z3.is_true(w) or w.get_id() in self.ids:
                    continue
                self.ids.add(w.get_id())
                self.known.append(w)
                self.rule(w)
                out = True
                self.new.append(w)
        return out

    def run(self):
        c = self.c
        seen = set()
        self.new = []
        for k in self.known:
            c.collect([k], self.terms, 0, seen)
        for gen in range(1, self.depth + 1):
            self.new, self.cache = [], {}
            for fi, f in enumerate(c.facts):
                if f.dead or f.name in self.skip or len(f.dims) > 1 and f.name != "triu-all" or f.guard is not None:
                    continue
                if any(isinstance(k, int) for k, _ in f.dims):
                    continue
                cand = [list(self.terms.get(c.find(k), {}).values()) for k, _ in f.dims]
                for tup in K._prod(cand):
                    if time.time() > self.end:
                        return self
                    ts = [self.rw(q[0]) for q in tup]
                    kk = (fi,) + tuple(t.get_id() for t in ts)
                    if kk in self.used or self.stop:
                        continue
                    if len(ts) > 1 and (ts[0].get_id() == ts[1].get_id()) != self.same:
                        continue
                    if not self.proved(AND(*[inr(t, s) for t, (_, s) in zip(ts, f.dims)]), quick=True):
                        continue
                    if f.trig is not None and not f.trig(*ts):
                        self.used.add(kk)
                        continue
                    with c.generic(AND(*[inr(t, s) for t, (_, s) in zip(ts, f.dims)])):
                        b, tch = f.fn(*[t.as_long() if z3.is_int_value(t) else t for t in ts]), ()
                    if isinstance(b, tuple):
                        b, tch = b
                    for d, t in tch:
                        self.pending.append((d, t))
                    done = True
                    if isz(b):
                        done = self.instance(K.tobool(b), gen, f)
                    if done:
                        self.used.add(kk)
            if self.hook is not None:
                self.hook(self, gen)
            if self.stop:
                break
            before = sum(len(d) for d in self.terms.values())
            c.collect(self.new, self.terms, gen, seen)
            for d, t in self.pending:
                r = self.rw(toint(t))
                c.addterm(self.terms, dkey(d), r, gen)
            self.pending = []
            if self.goal is not None and self.goal(self):
                break
            if K.VERB:
                print("walk", gen, "new", len(self.new), "terms", {str(k)[:20]: len(v) for k, v in self.terms.items()}, "known", len(self.known), flush=True)
            if not self.new and sum(len(d) for d in self.terms.values()) == before:
                break
        return self

    def instance(self, b, gen, f):
        if z3.is_and(b):
            ok = True
            for q in b.children():
                ok &= self.instance(q, gen, f) if z3.is_and(q) else (self.add(q, gen), True)[1]
            return ok
        if not z3.is_or(b):
            self.add(b, gen)
            return True
        # premises that hold leave the conclusion
        *prem, concl = b.children()
        if not (z3.is_and(concl) or z3.is_eq(concl)):
            self.add(b, gen)
            return True
        prem = [self.rw(NOT(q)) for q in prem]
        for q in prem:
            if not self.proved(q, quick=q.get_id() in self.failed):
                self.failed.add(q.get_id())
                self.c.alive.append(q)
                if K.VERB:
                    print("walk: premise of", f.name, "not proved:", str(q)[:600].replace("\n", " "), flush=True)
                return False
        for q in prem + [concl]:
            self.add(q, gen)
        return True

    def replace(self, t, v, gen):
        """t == v is known: t is replaced from now on"""
        self.add(EQ(t, v), gen)
        self.rules.append((t, v))
        self.cache = {}

    def commit(self):
        """the consequences become part of the path"""
        for w in self.known:
            self.c.assume(w)


def size(t):
    n, st = 0, [t]
    while st:
        e = st.pop()
        n += 1
        st.extend(e.children())
    return n


def conj(f):
    f = K.tobool(f)
    if z3.is_and(f):
        out = []
        for q in f.children():
            out += conj(q)
        return out
    return [f]


def inner(f):
    """a condition of an if-then-else that holds none itself"""
    seen, st, best = set(), [f], None
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            if not has_ite(e.arg(0)):
                return e.arg(0)
        st.extend(e.children())
    return best


def has_ite(f):
    seen, st = set(), [f]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(e.children())
    return False
