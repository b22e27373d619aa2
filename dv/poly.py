"""Polynomial obligations (products of symbolic reals under case distinctions): the cases
are told apart until no condition is left inside the goal, index terms known to be equal are
made the same, products are expanded, and linear arithmetic over the monomials decides."""
import time

import z3

from . import core as K


class Memo:
    """attributes of formulas, computed once per formula"""

    def __init__(self):
        self.c, self.l, self.n, self.i, self.alive = {}, {}, {}, {}, []

    def conds(self, f):
        """the atoms of the if-then-else conditions met, themselves free of if-then-else"""
        r = self.c.get(f.get_id())
        if r is None:
            self.alive.append(f)
            out, got, seen, st = [], set(), set(), [f]
            while st:
                e = st.pop()
                i = e.get_id()
                if i in seen:
                    continue
                seen.add(i)
                k = e.decl().kind()
                ch = e.children()
                if k == z3.Z3_OP_ITE and not z3.is_bool(e):
                    for c in atoms(ch[0]):
                        if c.get_id() not in got and not self.has_ite(c):
                            got.add(c.get_id())
                            self.alive.append(c)
                            out.append(c)
                st.extend(ch)
            r = self.c[f.get_id()] = out
        return r

    def has_ite(self, f):
        r = self.i.get(f.get_id())
        if r is None:
            self.alive.append(f)
            r = self.i[f.get_id()] = has_ite(f)
        return r

    def hasnl(self, f):
        r = self.n.get(f.get_id())
        if r is None:
            self.alive.append(f)
            r = self.n[f.get_id()] = K.hasnl([f])
        return r

    def leafargs(self, f, c):
        r = self.l.get(f.get_id())
        if r is None:
            self.alive.append(f)
            r = self.l[f.get_id()] = leafargs([f], c)
        return r


def conditions(forms, skip, memo):
    for f in forms:
        for c in memo.conds(f):
            if c.get_id() not in skip:
                return c
    return None


def atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        return [a for x in c.children() for a in atoms(x)]
    return [c]


def has_ite(e):
    seen, st = set(), [e]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
            return True
        st.extend(e.children())
    return False


class Abstract:
    """products become opaque constants"""

    def __init__(self):
        self.memo = {}
        self.keep = []

    def __call__(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(e)
        if not z3.is_app(e) or not e.num_args():
            r = e
        else:
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in e.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1 \
                    or k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(e.arg(1)) or z3.is_int_value(e.arg(1))):
                r = z3.FreshConst(e.sort(), "prod")
            else:
                cs = [self(c) for c in e.children()]
                if all(a.eq(b) for a, b in zip(cs, e.children())):
                    r = e
                elif k == z3.Z3_OP_AND:
                    r = z3.And(*cs)
                elif k == z3.Z3_OP_OR:
                    r = z3.Or(*cs)
                else:
                    r = e.decl()(*cs) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_DISTINCT) else fold(k, cs)
        self.memo[i] = r
        return r


def fold(k, cs):
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*cs)
    r = cs[0]
    for c in cs[1:]:
        r = r + c if k == z3.Z3_OP_ADD else (r * c if k == z3.Z3_OP_MUL else r - c)
    return r


def leafargs(forms, c):
    """the index terms of the leaf arrays occurring in the formulas, by domain"""
    seen, st, out = set(), list(forms), {}
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
                dom = c.leafdom.get(e.decl().get_id())
                if dom and e.sort() == K.R_:
                    for k, a in zip(dom, e.children()):
                        if k is not None:
                            out.setdefault(c.find(k), {})[a.get_id()] = a
            st.extend(e.children())
    return out


class Try:
    def __init__(self, c, neg, inst, maxcases):
        self.c, self.maxcases, self.cases = c, maxcases, 0
        self.m = Memo()
        self.limit = min(time.time() + 120, c.rep.deadline or 1e18)
        base = []
        for f in c.literals()[1] + inst:
            base += K.flat([f]) if not z3.is_or(f) else [f]
        forms = []
        for f in base:
            if z3.is_or(f):
                q = [x for x in f.children() if z3.is_and(x)]
                if len(q) == 1:
                    rest = [x for x in f.children() if not z3.is_and(x)]
                    forms += [z3.Or(*(rest + [y])) for y in K.flat(q)]
                    continue
            forms.append(f)
        forms = [z3.simplify(x) for x in forms]
        self.ng = [z3.simplify(x) for x in K.flat(neg)]
        self.ab = Abstract()
        self.s = z3.Solver()
        self.s.set("arith.nl", False)
        self.s.set("timeout", 1500)
        self.fs = []
        self.model = None
        for x in forms:
            if K.hasnl([x]):
                self.fs.append(x)
            else:
                self.s.add(x)
                self.fs.append(x)
        for x in self.ng:
            self.s.add(self.ab(x))
        c.alive += forms + self.ng

    def check(self, *a):
        """unsatisfiable?  keeps the last model"""
        self.c.rep.queries += 1
        r = str(self.s.check(*a))
        if r == "sat":
            self.model = self.s.model()
        return r == "unsat"

    def holds(self, lit):
        """the value of a literal in the last model"""
        if self.model is None:
            return None
        v = self.model.eval(lit, model_completion=True)
        return True if z3.is_true(v) else (False if z3.is_false(v) else None)

    def run(self):
        return self.rec(self.fs, self.ng, frozenset())

    def sub(self, forms, cond, v, facts=True):
        out = []
        for x in forms:
            y = z3.substitute(x, (cond, z3.BoolVal(v)))
            if not y.eq(x):
                y = z3.simplify(y)
                if facts and not z3.is_true(y) and not self.m.hasnl(y):
                    self.s.add(y)
            if not z3.is_true(y):
                out.append(y)
        return out

    def rec(self, fs, ng, skip):
        if self.cases > self.maxcases or time.time() > self.limit:
            return False
        if any(z3.is_false(x) for x in ng):
            return True
        self.model = None
        if self.check():
            return True
        split = None
        goalskip = set(skip)
        while True:
            cond = conditions(ng, goalskip, self.m)
            if cond is None:
                break
            v = self.forced(cond)
            if v is None:
                if split is None:
                    split = cond
                goalskip.add(cond.get_id())
                self.c.alive.append(cond)
                continue
            fs, ng = self.sub(fs, cond, v), self.sub(ng, cond, v, False)
            fs.append(cond if v else z3.Not(cond))
            if any(z3.is_false(x) for x in ng):
                return True
        if split is None:
            return self.close(fs, ng, skip)
        for v in (True, False):
            lit = split if v else z3.Not(split)
            self.s.push()
            self.s.add(self.ab(lit))
            ok = self.rec(self.sub(fs, split, v) + [lit], self.sub(ng, split, v, False), skip)
            self.s.pop()
            if not ok:
                return False
        return True

    def forced(self, cond):
        a = self.ab(cond)
        v = self.holds(a)
        if v is not False and self.check(z3.Not(a)):
            return True
        if v is not True and self.check(a):
            return False
        return None

    def close(self, fs, ng, skip):
        self.cases += 1
        # the conditions of the products met in the facts, when they are settled
        nl = [x for x in fs if self.m.hasnl(x)]
        lin = [x for x in fs if not self.m.hasnl(x)]
        sk = set(skip)
        while True:
            cond = conditions(nl, sk, self.m)
            if cond is None:
                break
            v = self.forced(cond)
            sk.add(cond.get_id())
            self.c.alive.append(cond)
            if v is not None:
                nl = self.sub(nl, cond, v)
        fs = nl + lin
        # index terms known to be equal are made the same
        sub = []
        args = {}
        for f in ng + nl:
            for k, d in self.m.leafargs(f, self.c).items():
                args.setdefault(k, {}).update(d)
        for k, d in args.items():
            reps = []
            for a in sorted(d.values(), key=lambda t: (t.num_args(), t.get_id())):
                for b in reps:
                    if self.holds(a == b) is not False and self.check(a != b):
                        sub.append((a, b))
                        break
                else:
                    reps.append(a)
        if sub:
            ng = [z3.substitute(x, *sub) for x in ng]
            fs = [z3.substitute(x, *sub) for x in fs]
        ng = [z3.simplify(x, som=True, sort_sums=True) for x in ng]
        if any(z3.is_false(x) for x in ng):
            return True
        # first the polynomial facts that hold outright, and nothing else
        unit = []
        for x in nl:
            lits = [y for y in x.children()] if z3.is_or(x) else [x]
            keep = []
            for y in lits:
                if not self.m.hasnl(y):
                    v = self.forced(y)
                    if v is False:
                        continue
                    if v is True:
                        keep = None
                        break
                keep.append(y)
                if len(keep) > 1:
                    break
            if keep is not None and len(keep) == 1 and not self.m.has_ite(keep[0]):
                y = z3.substitute(keep[0], *sub) if sub else keep[0]
                unit.append(z3.simplify(y, som=True, sort_sums=True))
        lin = [x for x in ng if not self.m.hasnl(x)]
        pol = [x for x in ng if self.m.hasnl(x)]
        q = z3.Solver()
        q.set("arith.nl", False)
        q.set("timeout", 120)
        q.add(*unit)
        q.add(*lin)
        for x in [None] + pol:
            self.c.rep.queries += 1
            q.push()
            if x is not None:
                q.add(x)
            r = str(q.check())
            q.pop()
            if r == "unsat":
                if K.VERB:
                    print("close unit", flush=True)
                return True
        facts = []
        for x in fs:
            x = z3.simplify(x, som=True, sort_sums=True)
            if not (self.m.hasnl(x) and self.m.has_ite(x)):
                facts.append(x)
            elif K.VERB == "2" and "solution" in x.sexpr() and "mat.x" in x.sexpr():
                print("dropped", [(c, self.holds(self.ab(c))) for c in self.m.conds(x)][:6], x.sexpr()[:1200])
        lin = [x for x in ng if not self.m.hasnl(x)]
        pol = [x for x in ng if self.m.hasnl(x)]
        # many polynomial disjuncts in the goal: one of them is enough
        todo = [lin + pol] if len(pol) < 4 else [lin] + [lin + [x] for x in pol]
        r = "unknown"
        q = z3.Solver()
        q.set("arith.nl", False)
        q.add(*facts)
        for goals in todo:
            q.set("timeout", 3000 if len(todo) == 1 else 500)
            q.push()
            q.add(*goals)
            self.c.rep.queries += 1
            r = str(q.check())
            if K.VERB == "2" and len(todo) > 1:
                print("   goal", r, q.reason_unknown() if r == "unknown" else "")
                open("/tmp/q_{}.smt2".format(todo.index(goals)), "w").write(q.to_smt2())
            q.pop()
            if r == "unsat":
                break
        if K.VERB:
            print("close", r, len(ng), len(fs), flush=True)
            if r != "unsat" and K.VERB == "2":
                print("  open case:", [str(x)[:300] for x in fs[-12:]], "\n  linear goals", lin, "\n  pol", str(pol[:1])[:1500], flush=True)
        return r == "unsat"


def attempt(c, neg, inst, maxcases):
    t0 = time.time()
    t = Try(c, neg, inst, maxcases)
    ok = t.run()
    if K.VERB:
        print("poly", ok, "cases", t.cases, "forms", len(t.fs), "%.2fs" % (time.time() - t0), flush=True)
    c.rep.solver_time += time.time() - t0
    return ok
