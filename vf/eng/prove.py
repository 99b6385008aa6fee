"""Discharging obligations: normal forms first, then z3, then cvc5."""
import os, random, sys, time
from fractions import Fraction
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3
from .term import *
from . import term as tm

STATS = {"z3": 0.0, "cvc5": 0.0, "queries": 0}


class Enc:
    """terms to z3; binder nodes and library functions are uninterpreted, with axioms"""

    def __init__(self, linear=False):
        self.m = {}
        self.ax = []
        self.linear = linear
        self.bound = {}
        self.names = {}

    def sort(self, s):
        return {"B": z3.BoolSort(), "I": z3.IntSort(), "R": z3.RealSort()}[s]

    def real(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def enc(self, t):
        r = self.m.get(t)
        if r is None:
            r = self._enc(t)
            self.m[t] = r
        return r

    def monotone(self):
        """strictly increasing functions (time labels of a sorted index)"""
        by = {}
        for t in list(self.m):
            if isinstance(t, T) and t.op == "app" and len(t.args) == 2 and (t.args[0] in tm._incr or t.args[0] in tm._nondec):
                by.setdefault(t.args[0], []).append(t)
        for f, ts in by.items():
            ts = ts[:14]
            for i, a in enumerate(ts):
                for b in ts[i + 1:]:
                    x, y, fx, fy = self.m[a.args[1]], self.m[b.args[1]], self.m[a], self.m[b]
                    if f in tm._nondec:
                        self.ax += [z3.Implies(x <= y, fx <= fy), z3.Implies(x >= y, fx >= fy)]
                        continue
                    self.ax += [(x < y) == (fx < fy), (x == y) == (fx == fy)]

    def const(self, prefix, t):
        return z3.Const("%s_%d" % (prefix, t.id), self.sort(t.sort))

    def _enc(self, t):
        op = t.op
        if op == "c":
            v = t.args[0]
            if isinstance(v, bool):
                return z3.BoolVal(v)
            return z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(str(v))
        if op == "v":
            c = z3.Const(t.args[0], self.sort(t.sort))
            if t.args[0] == "pi":
                self.ax += [c > z3.RealVal("3.14159265"), c < z3.RealVal("3.14159266")]
            elif t.args[0] in tm._pos:
                self.ax.append(c > 0)
            elif t.args[0] in tm._nonneg:
                self.ax.append(c >= 0)
            return c
        if op == "poly":
            tot = None
            for m, c in t.args:
                x = None
                nl = sum(abs(e) for a, e in m) > 1 or any(e < 0 for a, e in m)
                if nl and self.linear:
                    mono = from_poly({m: Fraction(1)})
                    x = self.const("mono", mono)
                    if nonneg(mono):
                        self.ax.append(x >= (1 if positive(mono) and mono.sort == "I" else 0))
                        if positive(mono):
                            self.ax.append(x > 0)
                    self.m[mono] = x
                else:
                    for a, e in m:
                        ea = self.enc(a)
                        if e < 0:
                            iv = z3.Real("inv_%d" % a.id)
                            if ("inv", a) not in self.m:
                                self.m[("inv", a)] = iv
                                self.ax.append(z3.Implies(ea != 0, iv * self.real(ea) == 1))
                                self.ax.append(z3.Implies(self.real(ea) > 0, iv > 0))
                            ea = iv
                        for _ in range(abs(e)):
                            x = ea if x is None else (x * ea if x.sort() == ea.sort() else self.real(x) * self.real(ea))
                if x is None:
                    x = z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
                elif c != 1:
                    if c.denominator == 1:
                        x = (z3.IntVal(int(c)) if x.sort() == z3.IntSort() else z3.RealVal(str(c))) * x
                    else:
                        x = z3.RealVal(str(c)) * self.real(x)
                if tot is None:
                    tot = x
                else:
                    if tot.sort() != x.sort():
                        tot, x = self.real(tot), self.real(x)
                    tot = tot + x
            return tot
        if op == "ite":
            c, a, b = [self.enc(x) for x in t.args]
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return z3.If(c, a, b)
        if op == "and":
            return z3.And(*[self.enc(a) for a in t.args])
        if op == "or":
            return z3.Or(*[self.enc(a) for a in t.args])
        if op == "not":
            return z3.Not(self.enc(t.args[0]))
        if op == "le0":
            return self.enc(t.args[0]) <= 0
        if op == "lt0":
            return self.enc(t.args[0]) < 0
        if op == "eq0":
            return self.enc(t.args[0]) == 0
        if op == "app":
            f = t.args[0]
            args = [self.enc(a) for a in t.args[1:]]
            if f == "abs":
                return z3.If(args[0] >= 0, args[0], -args[0])
            if f == "sqrt":
                s = self.const("sqrt", t)
                a = self.real(args[0])
                self.ax += [s >= 0, z3.Implies(a >= 0, s * s == a) if not self.linear else z3.Implies(a > 0, s > 0), z3.Implies(a == 0, s == 0)]
                return s
            if f == "idiv":
                if t.args[2].op == "c" and t.args[2].args[0] > 0:
                    d = args[1]
                    if args[0].sort() == z3.IntSort():
                        return args[0] / d
                if args[0].sort() == z3.IntSort() and args[1].sort() == z3.IntSort():
                    q = self.const("idiv", t)
                    self.ax.append(z3.Implies(args[1] > 0, z3.And(q * args[1] <= args[0], args[0] < (q + 1) * args[1])))
                    return q
            if f == "floor":
                q = self.const("floor", t)
                self.ax += [z3.ToReal(q) <= args[0], args[0] < z3.ToReal(q) + 1]
                return q
            if f == "trunc":
                q = self.const("trunc", t)
                a = args[0]
                self.ax += [z3.Implies(a >= 0, z3.And(z3.ToReal(q) <= a, a < z3.ToReal(q) + 1)), z3.Implies(a <= 0, z3.And(z3.ToReal(q) >= a, a > z3.ToReal(q) - 1))]
                return q
            fs = [self.sort(a.sort) for a in t.args[1:]]
            name = "%s/%s" % (f, "".join(a.sort for a in t.args[1:]))
            if not fs:
                e = z3.Const(name, self.sort(t.sort))
            else:
                e = z3.Function(name, *fs, self.sort(t.sort))(*args)
            if f in tm._pos or f == "exp":
                self.ax.append(e > 0)
            elif f in tm._nonneg:
                self.ax.append(e >= 0)
            if f == "exp":
                a = args[0]
                self.ax += [z3.Implies(a >= 0, e >= 1), z3.Implies(a <= 0, e <= 1), z3.Implies(a > 0, e > 1), z3.Implies(a < 0, e < 1)]
            if f == "log":
                a = self.real(args[0])
                self.ax += [z3.Implies(a > 1, e > 0), z3.Implies(z3.And(a > 0, a < 1), e < 0), z3.Implies(a == 1, e == 0)]
            if f == "powr":
                a = self.real(args[0])
                self.ax += [z3.Implies(a > 0, e > 0), z3.Implies(args[1] == 0, e == 1), z3.Implies(a >= 0, e >= 0)]
            if f == "ncdf":
                a = args[0]
                self.ax += [e > 0, e < 1, z3.Implies(a >= 0, e >= z3.Q(1, 2)), z3.Implies(a <= 0, e <= z3.Q(1, 2)), z3.Implies(a > 0, e > z3.Q(1, 2)), z3.Implies(a < 0, e < z3.Q(1, 2))]
            return e
        if op == "ho":
            # constant over its free variables
            c = self.const("ho", t)
            kind = t.args[0]
            n = t.args[1]
            if kind in ("first", "last", "argmax", "sum", "ex", "max", "min"):
                ne = self.enc(n)
            if kind == "sum":
                b = t.args[3]
                if b is ONE:
                    self.ax += [c >= 0, z3.Implies(ne >= 0, c <= ne), z3.Implies(ne <= 0, c == 0)]
                elif nonneg(b):
                    self.ax.append(c >= 0)
                self.ax.append(z3.Implies(ne <= 0, c == 0))
            elif kind in ("first", "last"):
                # no such index: the number of indices, or minus one
                self.ax += [z3.Implies(ne >= 0, z3.And(c >= -1, c < ne) if kind == "last" else z3.And(c >= 0, c <= ne))]
                g0 = ho("ex", n, t.args[2], TRUE, tm.var("#%d" % bdepth(t), "I"))
                some = self.enc(g0)
                self.ax.append(z3.Implies(some, z3.And(c >= 0, c < ne)))
                self.ax.append(z3.Implies(z3.And(ne >= 0, z3.Not(some)), c == (-1 if kind == "last" else ne)))
                if not any(v.args[0].startswith("#") for v in fv(t)):
                    g, _ = open_(t, t)
                    if tm.depth(g) < 6:
                        self.m[t] = c
                        self.ax.append(z3.Implies(some, self.enc(g)))
            elif kind == "ex":
                self.ax.append(z3.Implies(ne <= 0, z3.Not(c)))
            elif kind == "argmax":
                g0 = ho("ex", n, t.args[2], TRUE, tm.var("#%d" % bdepth(t), "I"))
                self.ax.append(z3.Implies(self.enc(g0), z3.And(c >= 0, c < ne)))
            return c
        raise AssertionError(op)


def z3_check(fs, timeout=2000, linear=False, extra=None):
    """sat result of the conjunction of the terms"""
    e = Enc(linear)
    es = [e.enc(f) for f in fs]
    e.monotone()
    if extra:
        es += extra(e)
    s = z3.Solver()
    s.set("timeout", timeout)
    for x in es:
        s.add(x)
    for x in e.ax:
        s.add(x)
    t = time.time()
    r = s.check()
    STATS["z3"] += time.time() - t
    STATS["queries"] += 1
    return r, s, e


def cvc5_check(smt2, timeout):
    import cvc5
    t = time.time()
    try:
        tmn = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        s = cvc5.Solver(tmn) if tmn else cvc5.Solver()
        s.setOption("tlimit-per", str(timeout))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out += c.invoke(s, sm)
        return out.strip()
    except Exception as ex:
        return "error: %s" % ex
    finally:
        STATS["cvc5"] += time.time() - t


def atoms_of(t, pred, out, memo):
    if t in memo:
        return
    memo.add(t)
    if pred(t):
        out[t] = 1
    for a in tm._children(t):
        atoms_of(a, pred, out, memo)


_sym = {}


def symbols(t):
    """function symbols (not variables) of a term"""
    r = _sym.get(t)
    if r is None:
        r = frozenset()
        for a in tm._children(t):
            r |= symbols(a)
        if t.op == "app" and t.args[0] not in ("abs", "sqrt", "log", "exp", "powr", "idiv", "floor", "trunc"):
            r |= frozenset([t.args[0]])
        _sym[t] = r
    return r


def closed(t):
    return not any(v.args[0].startswith("#") for v in fv(t))


def ho_nodes(ts):
    out = {}
    memo = set()
    for t in ts:
        atoms_of(t, lambda x: x.op == "ho" and closed(x), out, memo)
    return list(out)


def replace(t, m):
    """replaces closed subterms"""
    memo = {}
    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("c", "v"):
            r = t
        elif op == "poly":
            r = add(*[mul(N(c), *[powi(go(a), e) for a, e in mo]) for mo, c in t.args])
        elif op == "app":
            r = app(t.args[0], [go(a) for a in t.args[1:]], t.sort)
        elif op == "ite":
            r = ite(*[go(a) for a in t.args])
        elif op == "and":
            r = and_(*[go(a) for a in t.args])
        elif op == "or":
            r = or_(*[go(a) for a in t.args])
        elif op == "not":
            r = not_(go(t.args[0]))
        elif op in ("le0", "lt0", "eq0"):
            r = tm._cmp0(op, go(t.args[0]))
        elif op == "ho":
            kind = t.args[0]
            if kind == "fold":
                x = fresh("b", "I")
                sts = [fresh("s", "B" if i.sort == "B" else "R") for i in t.args[2]]
                steps = fold_step(t, x, sts)
                r = fold(go(t.args[1]), [go(a) for a in t.args[2]], [go(a) for a in steps], sts, x, t.args[4])
            else:
                x = fresh("b", "I")
                g, b = open_(t, x)
                r = ho(kind, go(t.args[1]), go(g), go(b), x)
        memo[t] = r
        return r
    return go(t)


class Prover:
    splits = 0

    def __init__(self, timeout=3000):
        self.timeout = timeout
        self.cache = {}
        self.n2 = 0
        self.funcs = {}       # how to draw random library functions
        self.cross = False
        self.lemmas = []      # functions (hyps, goal) -> list of instantiated facts

    def axioms(self, fs, have=()):
        """facts about the applications of symbols with registered axioms (two rounds)"""
        inst = self.instances(fs)
        if not tm._axiom:
            return inst
        fs = list(fs) + inst
        out, seen = list(inst), set(have)
        new = list(fs)
        paired = {x for k in tm._pair for x in k}
        all_ = {}
        for _ in range(2):
            apps = {}
            memo = set()
            for f in new:
                atoms_of(f, lambda t: t.op == "app" and (t.args[0] in tm._axiom or t.args[0] in paired) and not any(v.args[0].startswith("#") for v in fv(t)), apps, memo)
            new = []
            for a in apps:
                if a in seen:
                    continue
                seen.add(a)
                if a.args[0] in tm._axiom:
                    new += tm._axiom[a.args[0]](*a.args[1:])
                if a.args[0] in paired:
                    for (x, y), f in tm._pair.items():
                        if a.args[0] == x:
                            for b in list(all_.get(y, ()))[:24]:
                                new += f(a.args[1:], b.args[1:])
                        if a.args[0] == y:
                            for b in list(all_.get(x, ()))[:24]:
                                new += f(b.args[1:], a.args[1:])
                    all_.setdefault(a.args[0], []).append(a)
            out += [f for f in new if f is not TRUE]
            if not new or len(out) > 60:
                break
        if out and len(out) > len(inst):
            have = set(inst)
            out += [f for f in self.instances(list(fs) + out) if f not in have]
        return out

    def instances(self, fs):
        """universal facts (negated existentials) at the terms that match them"""
        uni = []
        for f in fs:
            for h in (f.args if f.op == "and" else (f,)):
                if h.op == "not" and h.args[0].op == "ho" and h.args[0].args[0] == "ex" and closed(h.args[0]):
                    uni.append(h.args[0])
        if not uni:
            return []
        apps = {}
        memo = set()
        for f in fs:
            atoms_of(f, lambda t: t.op == "app" and len(t.args) >= 2 and not any(v.args[0].startswith("#") for v in fv(t)), apps, memo)
        by = {}
        for a in apps:
            by.setdefault(a.args[0], []).append(a)
        out = {}
        from . import dom
        for t in uni[:12]:
            b = var("#%d" % bdepth(t), "I")
            pats = {}
            atoms_of(t.args[2], lambda u: u.op == "app" and len(u.args) >= 2 and b in fv(u), pats, set())
            cs = {}
            for p_ in pats:
                for a in by.get(p_.args[0], ())[:12]:
                    c = dom.match(p_, a, b)
                    if c is not None:
                        cs[c] = 1
            for c in list(cs)[:8]:
                g, _ = open_(t, c)
                out[imp(and_(le(ZERO, c), lt(c, t.args[1])), not_(g))] = 1
        return [o for o in out if o is not TRUE]

    def quick(self, hyps, goal, timeout=300):
        """linear check only; True if proved"""
        if goal is TRUE:
            return True
        hyps = list(hyps) + self.axioms(list(hyps) + [not_(goal)])
        if goal is FALSE and not hyps:
            return False
        key = (tuple(sorted(h.id for h in hyps)), goal.id, timeout)
        r = self.cache.get(key)
        if r is None:
            fs = list(hyps) + [not_(goal)]
            if any(h is FALSE for h in fs):
                r = True
            elif len(fs) == 1 and fs[0] is TRUE:
                r = False
            else:
                res, _, _ = z3_check(fs, timeout, linear=True)
                r = res == z3.unsat
            self.cache[key] = r
        return r

    def sat(self, hyps, timeout=500):
        """False only when the hypotheses are contradictory"""
        return not self.quick(hyps, FALSE, timeout)

    # ---- full proof
    def prove(self, hyps, goal, depth=0, timeout=None):
        """(True/False, backend, detail)"""
        timeout = timeout or self.timeout
        if goal is TRUE:
            return True, "normal-form", ""
        if goal.op == "and":
            bs = set()
            for g in goal.args:
                ok, b, d = self.prove(hyps, g, depth, timeout)
                bs.add(b)
                if not ok:
                    return False, b, d
            return True, "+".join(sorted(bs)), ""
        key = ("P", tuple(sorted(h.id for h in hyps)), goal.id)
        if key in self.cache:
            return self.cache[key]
        r = self._prove(hyps, goal, depth, timeout)
        self.cache[key] = r
        return r

    def _prove(self, hyps, goal, depth, timeout):
        if goal.op == "or" and depth < 4:
            # move all but one disjunct to the hypotheses (negated), splitting conjunctions
            concl = [g for g in goal.args if g.op in ("and", "eq0")] or list(goal.args[-1:])
            main = concl[-1]
            if main.op == "and":
                hs = list(hyps) + [not_(g) for g in goal.args if g is not main]
                flat = []
                for h in hs:
                    flat += list(h.args) if h.op == "and" else [h]
                bs = set()
                okall = True
                for g in main.args:
                    ok, b, d = self._prove1(flat, g, depth, timeout)
                    bs.add(b)
                    if not ok:
                        okall = False
                        break
                if okall:
                    return True, "+".join(sorted(bs)), ""
        return self._prove1(list(hyps), goal, depth, timeout)

    def _prove1(self, hyps, goal, depth, timeout):
        if goal is TRUE:
            return True, "normal-form", ""
        hyps = [h for h in hyps if h is not TRUE]
        if any(h is FALSE for h in hyps):
            return True, "normal-form", ""
        hyps += self.axioms(hyps + [not_(goal)])     # universal facts are read off the hypotheses and the negated goal
        if self.quick(hyps, goal, 400):
            return True, "z3", ""
        goal = self.simp(hyps, goal)
        if goal is TRUE:
            return True, "normal-form+z3", ""
        if goal.op == "and":
            return self.prove(hyps, goal, depth, timeout)
        if depth <= 1 and tm.depth(goal) > 0:
            g2 = self.deep(hyps, goal)
            if g2 is not goal:
                if g2.op in ("c", "and"):
                    return self.prove(hyps, g2, depth, timeout)
                goal = g2
        ng = not_(goal)
        fs = hyps + [ng]
        if self.quick(hyps, goal, 1000):
            return True, "z3", ""
        # equal binder nodes
        if depth == 0:
            fs2, merged = self.unify(fs, depth, [goal])
            if merged:
                if any(f is FALSE for f in fs2) or z3_check(fs2, 1000, linear=True)[0] == z3.unsat:
                    return True, "normal-form+z3", ""
                fs = fs2
                hyps, goal = fs[:-1], not_(fs[-1])
        fs2, merged = self.unify(fs, depth, [goal] if depth else None)
        if merged:
            if any(f is FALSE for f in fs2):
                return True, "normal-form", ""
            r, s, e = z3_check(fs2, 1000, linear=True)
            if r == z3.unsat:
                return True, "z3", ""
        extra = self.facts(fs2, depth) + self.products(fs2)
        if tm._axiom and extra:
            extra += self.axioms(extra)
        r, s, e = z3_check(fs2 + extra, timeout)
        if r == z3.unsat:
            return True, "z3", ""
        detail = "z3: %s" % r
        if r == z3.unknown:
            out = cvc5_check("(set-logic ALL)\n" + s.to_smt2(), timeout)
            detail += "; cvc5: %s" % out[:60]
            if out == "unsat":
                return True, "cvc5", ""
            if depth == 0 and z3_check(fs2 + extra, 4 * timeout)[0] == z3.unsat:
                return True, "z3", ""
        if depth == 0 and self.splits < 2:
            sp = same_vars(goal, hyps)
            if sp:
                # by cases: two integer unknowns are the same or they are not
                at, v, w = sp
                self.splits += 1
                try:
                    r1 = self.prove([h for h in (subst(h, {v: w}) for h in hyps) if h is not TRUE], subst(goal, {v: w}), 0, timeout)
                    if r1[0]:
                        r2 = self.prove([h for h in (replace(h, {at: FALSE}) for h in hyps) if h is not TRUE] + [not_(at)], replace(goal, {at: FALSE}), 0, timeout)
                        if r2[0]:
                            return True, "+".join(sorted(set(r1[1].split("+")) | set(r2[1].split("+")))), ""
                finally:
                    self.splits -= 1
        return False, "none", "%s; goal: %s" % (detail, tm.lets(goal)[:6000] if os.environ.get("VERIF_DEBUG") else show(goal)[:800])

    def simp(self, hyps, goal):
        """the goal with the conditions decided by the hypotheses replaced by their value"""
        lits = []
        todo = list(hyps)
        while todo:
            h = todo.pop()
            if h.op == "and":
                todo += h.args
            else:
                lits.append(h)
        for rounds in range(3):
            m = {}
            for l in lits:
                m[l] = TRUE
                m[not_(l)] = FALSE
            m.pop(TRUE, None); m.pop(FALSE, None)
            g2 = replace(goal, m)
            if g2.op == "c":
                return g2
            conds = {}
            memo = set()
            atoms_of(g2, lambda t: t.op == "ite" and closed(t.args[0]), conds, memo)
            m2 = {}
            atoms = {}
            for i in conds:
                atoms_of(i.args[0], lambda t: t.sort == "B" and t.op not in ("and", "or", "not", "c") and closed(t), atoms, set())
            for a in list(atoms)[:24]:
                if self.quick(lits, a, 200):
                    m2[a] = TRUE; m2[not_(a)] = FALSE
                elif self.quick(lits, not_(a), 200):
                    m2[a] = FALSE; m2[not_(a)] = TRUE
            g3 = replace(g2, m2) if m2 else g2
            if g3 is goal:
                return goal
            goal = g3
            if goal.op == "c":
                return goal
        return goal

    def deep(self, hyps, t):
        """t with conditions decided by the hypotheses and by the range of the enclosing binders replaced"""
        lits = []
        todo = list(hyps)
        while todo:
            h = todo.pop()
            if h.op == "and":
                todo += h.args
            elif tm.depth(h) == 0 and h.op != "or":
                lits.append(h)
        return self._deep(lits, t, {}, [0])

    def _decide(self, lits, c, cnt):
        if c.op == "c":
            return c
        cnt[0] += 1
        if cnt[0] > 400:
            return c
        if self.quick(lits, c, 150):
            return TRUE
        if self.quick(lits, not_(c), 150):
            return FALSE
        return c

    def _deep(self, lits, t, memo, cnt):
        r = memo.get(t)
        if r is not None:
            return r
        go = lambda a: self._deep(lits, a, memo, cnt)
        op = t.op
        hc = _has_cond(t)
        if op in ("le0", "eq0") and not hc and has_rank(t):
            r = self._unrank(lits, t, cnt)
        elif op in ("c", "v") or (not hc and not has_rank(t)):
            r = t
        elif op == "poly":
            r = add(*[mul(N(c), *[powi(go(a), e) for a, e in mo]) for mo, c in t.args])
        elif op == "app":
            r = app(t.args[0], [go(a) for a in t.args[1:]], t.sort)
        elif op == "ite":
            c = go(t.args[0])
            c = self._decide(lits, c, cnt)
            r = go(t.args[1]) if c is TRUE else go(t.args[2]) if c is FALSE else ite(c, go(t.args[1]), go(t.args[2]))
        elif op == "and":
            r = and_(*[go(a) for a in t.args])
        elif op == "or":
            r = or_(*[go(a) for a in t.args])
        elif op == "not":
            r = not_(go(t.args[0]))
        elif op in ("le0", "lt0", "eq0"):
            r = tm._cmp0(op, go(t.args[0]))
            if r.op == op and tm.depth(r) == 0 and len(lits) > 0 and cnt[0] < 400 and any(v.args[0].startswith("dq!") for v in fv(r)):
                r = self._decide(lits, r, cnt)
        else:
            kind = t.args[0]
            if kind == "fold":
                r = t
            else:
                x = fresh("dq", "I")
                g, b = open_(t, x)
                n_ = go(t.args[1])
                l2 = lits + [le(ZERO, x), lt(x, n_)]
                g2 = self._deep(l2, g, {}, cnt)
                l3 = l2 + [h for h in (g2.args if g2.op == "and" else [g2]) if tm.depth(h) == 0 and h.op != "or"]
                b2 = self._deep(l3, b, {}, cnt)
                r = ho(kind, n_, g2, b2, x)
        memo[t] = r
        return r

    def _unrank(self, lits, t, cnt):
        """comparisons of positions in a sorted set as comparisons of the elements"""
        p = to_poly(t.args[0])
        ra = [(m[0][0], c) for m, c in p.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] in tm._rank]
        if not ra or len(ra) > 2 or cnt[0] > 400 or any(abs(c) != 1 for _, c in ra):
            return t
        a, c = ra[0]
        val, members, n_ = tm._rank[a.args[0]]
        cnt[0] += 1
        def member(x):
            h = members(x)
            return any(self.quick(lits, g, 150) for g in (h.args if h.op == "or" else (h,)))
        if not member(a.args[1]):
            return t
        rest = sub(t.args[0], mul(N(c), a))
        if len(ra) == 2:
            b, d = ra[1]
            if b.args[0] != a.args[0] or c != -d or not member(b.args[1]):
                return t
            k = sub(rest, mul(N(d), b))
            if k.op != "c":
                return t
            va, vb, k = a.args[1], b.args[1], k.args[0]
        else:
            va, k = a.args[1], None
            for k_ in (0, 1):
                x = mul(N(-c), sub(rest, N(k_)))
                if self.quick(lits, and_(le(ZERO, x), lt(x, n_)), 150):
                    vb, k = val(x), k_
                    break
            if k is None:
                return t
        # c * (pos(va) - pos(vb)) + k  op  0
        if c < 0:
            va, vb = vb, va
        if t.op == "eq0":
            return eq(va, vb) if k == 0 else t
        return le(va, vb) if k == 0 else lt(va, vb) if k == 1 else t

    def unify(self, fs, depth, scope=None):
        """merges binder nodes proved equal under the facts (of the scope only, when given)"""
        if depth >= 4:
            return fs, False
        any_m = False
        start = self.n2
        level = 0
        lower = []          # nodes of other depths to compare with, when a contract asks for it
        while True:
            nodes = [t for t in ho_nodes(fs if scope is None else scope) if tm.depth(t) > level]
            if not nodes:
                return fs, any_m
            level = min(tm.depth(t) for t in nodes)
            nodes = sorted((t for t in nodes if tm.depth(t) == level), key=lambda t: t.id)
            reps = []
            m = {}
            for t in nodes:
                hit = None
                for r in reps + [r for r in lower if r.args[0] == "sum" and r.args[1] is t.args[1]]:
                    if r.args[0] != t.args[0] or r.sort != t.sort or self.n2 - start > 60:
                        continue
                    if self.equal_nodes(fs, t, r, depth):
                        hit = r
                        break
                if hit is not None:
                    m[t] = hit
                else:
                    reps.append(t)
            if self.cross:
                lower += reps
            if m:
                any_m = True
                fs = [replace(f, m) for f in fs]
                if scope is not None:
                    scope = [replace(f, m) for f in scope]

    def equal_nodes(self, facts, a, b, depth):
        key = ("E", tuple(sorted(h.id for h in facts)), a.id, b.id)
        if key in self.cache:
            return self.cache[key]
        self.cache[key] = False
        r = self._equal_nodes(facts, a, b, depth)
        self.cache[key] = r
        return r

    def _equal_nodes(self, facts, a, b, depth):
        d = frozenset(x for x in symbols(a) ^ symbols(b) if x not in tm._axiom)
        if d and not self.cross and not d <= frozenset().union(*[symbols(f) for f in facts if f.op == "not" and f.args[0].op == "ho"] or [frozenset()]):
            return False
        small = [f for f in facts if tm.depth(f) == 0]
        if a.args[0] != "fold":
            try:
                if refute(list(facts) if self.cross else small + [f for f in facts if f.op == "not" and f.args[0].op == "ho"], eq(a, b), tries=40, budget=.25, funcs=self.funcs, models=False) is not None:
                    return False
            except Exception:
                pass
        self.n2 += 1
        # first without the facts about binder nodes, then with all of them
        if len(small) < len(facts) and self._equal_nodes2(small, a, b, depth):
            return True
        return self._equal_nodes2(list(facts), a, b, depth)

    def _equal_nodes2(self, hy, a, b, depth):
        if a.args[0] == "fold":
            return self.equal_folds(hy, a, b, depth)
        if not self.quick(hy, eq(a.args[1], b.args[1])):
            return False
        if self._same_bodies(hy, a, b, depth, False):
            return True
        # sums and extrema do not depend on the direction
        return a.args[0] in ("sum", "max", "min", "ex", "prod") and self._same_bodies(hy, a, b, depth, True)

    def _same_bodies(self, hy, a, b, depth, rev):
        x = fresh("j", "I")
        ga, ba = open_(a, x)
        gb, bb = open_(b, sub(sub(a.args[1], ONE), x) if rev else x)
        h2 = hy + [le(ZERO, x), lt(x, a.args[1])]
        g = iff(ga, gb)
        if g is not TRUE:
            ok = self.quick(h2, g) or self.prove(h2, g, depth + 1, 1500)[0]
            if not ok:
                return False
        if ba.sort != bb.sort:
            pass
        e = eq(ba, bb)
        if e is TRUE:
            return True
        h3 = h2 + [ga]
        return self.quick(h3, e) or self.prove(h3, e, depth + 1, 1500)[0]

    def equal_folds(self, hy, a, b, depth):
        if not self.quick(hy, eq(a.args[1], b.args[1])):
            return False
        ns, ms = len(a.args[2]), len(b.args[2])
        if ns != ms:
            return False
        import itertools
        perms = list(itertools.permutations(range(ns))) if ns <= 3 else [tuple(range(ns))]
        perms.sort(key=lambda p: sum(i != j for i, j in enumerate(p)))
        for p in perms:
            if p[a.args[4]] != b.args[4]:
                continue
            if self._fold_sim(hy, a, b, p, depth):
                return True
        return False

    def _fold_sim(self, hy, a, b, p, depth):
        """state i of a equals state p[i] of b, by induction on the step count"""
        for i in range(len(p)):
            if a.args[2][i].sort != b.args[2][p[i]].sort and "B" in (a.args[2][i].sort, b.args[2][p[i]].sort):
                return False
            if not self.quick(hy, eq(a.args[2][i], b.args[2][p[i]])):
                return False
        x = fresh("j", "I")
        st = [fresh("st", "B" if t.sort == "B" else "R") for t in a.args[2]]
        sb = [None] * len(p)
        for i, j in enumerate(p):
            sb[j] = st[i]
        A, B_ = fold_step(a, x, st), fold_step(b, x, sb)
        h2 = hy + [le(ZERO, x), lt(x, a.args[1])]
        inv = None
        for i in range(len(p)):
            g = eq(A[i], B_[p[i]])
            if g is TRUE:
                continue
            if self.quick(h2 + (inv or []), g):
                continue
            if inv is None:
                inv = self.fold_invariants(hy, a, x, st, A)
                if inv and self.quick(h2 + inv, g):
                    continue
            if not self.prove(h2 + inv, g, depth + 1, 2000)[0]:
                return False
        return True

    def fold_invariants(self, hy, a, x, st, steps):
        """the largest inductive set of bounds state >= t, state <= t, for candidate terms t (Houdini)"""
        free = {}
        for t in list(a.args[2]) + list(steps):
            for v in fv(t):
                if v.sort != "B" and not v.args[0].startswith("#") and v is not x and v not in st:
                    free[v] = 1
        ts = [ZERO]
        for v in list(free)[:4]:
            ts += [v, neg(v)]
        cand = []
        for i, v in enumerate(st):
            if v.sort == "B":
                continue
            for t in ts:
                for r in (ge, le):
                    if self.quick(hy, r(a.args[2][i], t)):
                        cand.append((i, r, t))
        while cand:
            h = hy + [le(ZERO, x), lt(x, a.args[1])] + [r(st[i], t) for i, r, t in cand]
            keep = [(i, r, t) for i, r, t in cand if self.quick(h, r(steps[i], t))]
            if len(keep) == len(cand):
                break
            cand = keep
        return [r(st[i], t) for i, r, t in cand]

    def combined_sums(self, fs, depth):
        """a sum split by linearity into several has the sign of its combined body"""
        out = []
        polys = {}
        atoms = {}
        memo = set()
        for f in fs:
            atoms_of(f, lambda t: t.op in ("lt0", "le0", "eq0") or (t.op == "app" and t.args[0] in ("sqrt", "abs")), atoms, memo)
        for a in list(atoms):
            t = a.args[1] if a.op == "app" else a.args[0]
            if t.op == "poly" and len(t.args) > 1:
                polys[t] = 1
        for t in list(polys)[:8]:
            cs = common_sum(t)
            if cs is None:
                continue
            (n_, g, rest), parts = cs
            x = fresh("j", "I")
            body = add(*[mul(N(c), open_(h, x)[1]) for h, c in parts])
            small = [f for f in fs if tm.depth(f) == 0 and f.op != "or"] + [le(ZERO, x), lt(x, n_), subst(g, {_BV: x})]
            tot = add(*[mul(N(c), h) for h, c in parts])
            for sg in (1, -1):
                if self.prove(small, ge(mul(N(sg), body), ZERO), depth + 2, 800)[0]:
                    fact = ge(mul(N(sg), tot), ZERO)
                    out.append(fact)
                    r = from_poly({rest: Fraction(1)})
                    out.append(imp(gt(r, ZERO), ge(mul(N(sg), t), ZERO)))
                    break
        return out

    def products(self, fs):
        """sign rules for polynomials that are exact products of a polynomial in the hypotheses"""
        known = {}
        for f in fs:
            a = f.args[0] if f.op == "not" else f
            if a.op in ("le0", "lt0", "eq0"):
                known[a.args[0]] = 1
        at = {}
        memo = set()
        for f in fs:
            atoms_of(f, lambda t: t.op in ("le0", "lt0", "eq0") or t.op == "app" and t.args[0] == "sqrt", at, memo)
        ps = {}
        for a in at:
            ps[a.args[-1]] = 1
        out = []
        for Fp in [t for t in known if len(to_poly(t)) >= 2 and closed(t)][:12]:
            for Q in [t for t in ps if t is not Fp and closed(t) and len(to_poly(t)) > len(to_poly(Fp))][:12]:
                R = exact_quotient(to_poly(Q), to_poly(Fp))
                if R is not None:
                    Z = ZERO
                    R, c = R
                    out += [imp(c, t) for t in (imp(and_(gt(Fp, Z), gt(R, Z)), gt(Q, Z)), imp(and_(gt(Fp, Z), lt(R, Z)), lt(Q, Z)), imp(and_(lt(Fp, Z), gt(R, Z)), lt(Q, Z)),
                            imp(and_(lt(Fp, Z), lt(R, Z)), gt(Q, Z)), imp(eq(R, Z), eq(Q, Z)), imp(eq(Fp, Z), eq(Q, Z)))]
        return [o for o in out if o is not TRUE]

    def facts(self, fs, depth):
        """definitional facts about binder nodes, instantiated at relevant terms; a second round for the nodes these introduce"""
        nodes = ho_nodes(fs)
        out = self.facts1(fs, nodes, depth)
        if depth <= 1 and any(tm.depth(t) > 1 for t in nodes):
            have = set(nodes)
            new = [t for t in ho_nodes(out) if t not in have and t.args[0] in ("sum", "ex", "max", "min")]
            new = sorted(new, key=lambda t: (t.args[0] != "sum", t.id))[:12]
            if new:
                out += self.facts1(fs + out, new, 2, extra_cands=True)
        return out

    def facts1(self, fs, nodes, depth, extra_cands=False):
        out = []
        exs = [t for t in nodes if t.args[0] == "ex"]
        wit = []
        for t in exs[:12]:
            w = var("wit_%d" % t.id, "I")
            g, _ = open_(t, w)
            out.append(imp(t, and_(le(ZERO, w), lt(w, t.args[1]), g)))
            wit.append(w)
        ext = [var("wit_%d" % t.id, "I") for t in nodes if t.args[0] in ("max", "min")][:4]
        cands = list(wit)
        for f in fs:
            for v in fv(f):
                if v.sort == "I" and not v.args[0].startswith("#"):
                    cands.append(v)
        for t in nodes:
            if t.args[0] in ("first", "last", "argmax"):
                cands.append(t)
        seen = {}
        cands = [seen.setdefault(c, c) for c in cands if c not in seen][:14]
        for t in exs[:10]:
            pts = {c: 1 for c in cands + ext}
            pts[ZERO] = 1
            pts[sub(t.args[1], ONE)] = 1
            # solve linear equalities in the guard for candidate instances: x + c = v
            b = var("#%d" % bdepth(t), "I")
            for sub_ in _linear_offsets(t.args[2], b):
                for c in [ZERO] + list(cands):
                    pts[sub(c, sub_)] = 1
            for c in list(pts)[:48]:
                g, _ = open_(t, c)
                out.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), t))
        for t in exs[:12]:
            for u in exs[:12]:
                if t is not u and u.args[2] is t.args[2] and sub(u.args[1], t.args[1]) is ONE:
                    out.append(imp(le(ZERO, t.args[1]), iff(u, or_(t, open_(t, t.args[1])[0]))))
        def extremum(t):
            o2 = []
            rel = ge if t.args[0] == "max" else le
            x = var("#%d" % bdepth(t), "I")
            some = ho("ex", t.args[1], t.args[2], TRUE, x)
            w = var("wit_%d" % t.id, "I")
            g, bd = open_(t, w)
            if g is TRUE:
                some = lt(ZERO, t.args[1])
            o2.append(imp(some, and_(le(ZERO, w), lt(w, t.args[1]), g, eq(t, bd))))
            pts = dict.fromkeys(cands[:10] + [ZERO, sub(t.args[1], ONE)])
            if t.args[3].op == "ite":
                for d in _linear_offsets(t.args[3].args[0], x)[:4]:
                    if x not in fv(d):
                        pts[neg(d)] = 1
            for c in pts:
                g, bd = open_(t, c)
                o2.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), rel(t, bd)))
            return o2
        exts = [t for t in nodes if t.args[0] in ("max", "min")][:8]
        for t in exts:
            out += extremum(t)
        for t in [t for t in nodes if t.args[0] in ("first", "last")][:6]:
            x = var("#%d" % bdepth(t), "I")
            some = ho("ex", t.args[1], t.args[2], TRUE, x)
            g, _ = open_(t, t)
            out.append(imp(some, and_(le(ZERO, t), lt(t, t.args[1]), g)))
            for c in cands[:10]:
                g, _ = open_(t, c)
                rel = ge if t.args[0] == "last" else le
                out.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), and_(some, rel(t, c))))
        for t in [t for t in nodes if t.args[0] == "argmax" and tm.depth(t) <= 1][:4]:
            # the first index of the largest value
            x = var("#%d" % bdepth(t), "I")
            gt_, bt = open_(t, t)
            out.append(imp(ho("ex", t.args[1], t.args[2], TRUE, x), and_(le(ZERO, t), lt(t, t.args[1]), gt_)))
            for c in dict.fromkeys(cands[:8] + [ZERO]):
                if c is t:
                    continue
                g, bd = open_(t, c)
                out.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), and_(ge(bt, bd), imp(lt(c, t), gt(bt, bd)))))
        # congruence: nodes at a selected index equal to another index term
        sel = [t for t in nodes if t.args[0] in ("first", "last", "argmax")]
        nset = {t: 1 for t in nodes}
        for l in sel[:4]:
            for c in [v for v in cands if v is not l][:8]:
                for t in nodes:
                    if t is not l and l in _subterms(t):
                        t2 = replace(t, {l: c})
                        if t2 in nset and t2 is not t:
                            out.append(imp(eq(l, c), eq(t, t2)))
        if extra_cands:
            for t in [t for t in nodes if t.args[0] == "sum" and t.args[3] is ONE][:8]:
                x = var("#%d" % bdepth(t), "I")
                some = ho("ex", t.args[1], t.args[2], TRUE, x)
                out += [iff(some, ge(t, ONE)), ge(t, ZERO)]
                for c in cands[:10]:
                    g, _ = open_(t, c)
                    out.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), ge(t, ONE)))
        # a sum with one more term
        sums = [t for t in nodes if t.args[0] == "sum" and closed(t)]
        for t in sums:
            for u in sums:
                if t is not u and t.args[2] is u.args[2] and t.args[3] is u.args[3] and sub(t.args[1], u.args[1]) is ONE:
                    g, b = open_(t, u.args[1])
                    out.append(imp(le(ZERO, u.args[1]), eq(t, add(u, ite(g, b, ZERO)))))
        if depth <= 1:
            for t in [t for t in nodes if t.args[0] == "sum"][:6]:
                x = fresh("j", "I")
                g, bd = open_(t, x)
                small = [f for f in fs if tm.depth(f) == 0 and f.op != "or"] + [le(ZERO, x), lt(x, t.args[1]), g]
                b0 = var("#%d" % bdepth(t), "I")
                some = ho("ex", t.args[1], t.args[2], TRUE, b0)
                if some is not FALSE:
                    out.append(imp(not_(some), eq(t, ZERO)))
                if bd is ONE:
                    out += [imp(some, ge(t, ONE)), le(t, max2(t.args[1], ZERO))]
                    for c in dict.fromkeys([neg(d) for d in _linear_offsets(t.args[2], b0)[:3]] + _positions(t.args[2], b0)[:2] + cands[:8]):
                        g, _ = open_(t, c)
                        out.append(imp(and_(le(ZERO, c), lt(c, t.args[1]), g), ge(t, ONE)))
                    continue
                if not (nonneg(bd) or self.prove(small, ge(bd, ZERO), depth + 2, 800)[0]):
                    continue
                out.append(ge(t, ZERO))
                for c in (sub(t.args[1], ONE), ZERO):
                    g, bd = open_(t, c)
                    out.append(imp(and_(lt(ZERO, t.args[1]), g), ge(t, bd)))
            out += self.combined_sums(fs, depth)
        for l in self.lemmas:
            out += l(self, fs, nodes, cands)
        return [o for o in out if o is not TRUE]


def exact_quotient(q, f):
    """q / f where the division leaves no remainder and the quotient has few terms; exponents may be negative"""
    atoms = sorted({a for m in list(q) + list(f) for a, _ in m}, key=lambda a: a.id)
    vec = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
    Q = {vec(m): c for m, c in q.items()}
    F = {vec(m): c for m, c in f.items()}
    lead = max(F)
    R = {}
    for _ in range(4):
        top = max(Q)
        d = tuple(x - y for x, y in zip(top, lead))
        c = Q[top] / F[lead]
        R[d] = c
        for m, b in F.items():
            k = tuple(x + y for x, y in zip(m, d))
            v = Q.get(k, 0) - c * b
            if v:
                Q[k] = v
            else:
                Q.pop(k, None)
        if not Q:
            # k * k^-1 is one only for nonzero k
            cond = and_(*{ne(a, ZERO): 1 for m in list(R) + list(F) for a, e in zip(atoms, m) if e < 0})
            out = ZERO
            for m, c in R.items():
                t = N(c)
                for a, e in zip(atoms, m):
                    if e:
                        t = mul(t, powi(a, e))
                out = add(out, t)
            return out, cond
    return None


def same_vars(goal, hyps):
    """an atom of the goal saying that two integer unknowns of the goal are equal"""
    out = {}
    def is_eq(t):
        if t.op != "eq0" or t.args[0].op != "poly":
            return False
        p = to_poly(t.args[0])
        if len(p) != 2 or () in p or sum(p.values()) != 0:
            return False
        vs = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
        return len(vs) == 2 and all(v.op == "v" and v.sort == "I" and not v.args[0].startswith("#") for v in vs)
    atoms_of(goal, is_eq, out, set())
    for a in out:
        v, w = [m[0][0] for m in to_poly(a.args[0])]
        if any(h is not_(a) or h is a for h in hyps):
            continue
        return a, v, w
    return None


def common_sum(t):
    """a polynomial c * sum_j b(j) written as several sums over one range: (n, guard, b as a function of a term, c)"""
    p = tm.to_poly(t)
    hd = None
    parts = []
    for m, c in p.items():
        hs = [(a, e) for a, e in m if a.op == "ho"]
        if len(hs) != 1 or hs[0][1] != 1 or hs[0][0].args[0] != "sum" or not closed(hs[0][0]):
            return None
        h = hs[0][0]
        k = (h.args[1], tm.subst(h.args[2], {var("#%d" % bdepth(h), "I"): _BV}), tuple(x for x in m if x[0] is not h))
        if hd is None:
            hd = k
        elif hd != k:
            return None
        parts.append((h, c))
    return (hd, parts) if hd else None


_cond = {}


def _has_cond(t):
    r = _cond.get(t)
    if r is None:
        r = t.op == "ite" or (t.op == "ho" and t.args[0] != "fold" and (t.args[2] is not TRUE or t.args[0] == "ex")) or any(_has_cond(a) for a in tm._children(t))
        _cond[t] = r
    return r


def has_rank(t):
    return bool(tm._rank) and not symbols(t).isdisjoint(tm._rank)


_subs = {}


def _subterms(t):
    r = _subs.get(t)
    if r is None:
        r = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if x not in r:
                r.add(x)
                todo += tm._children(x)
        _subs[t] = r
    return r


_BV = var("@j", "I")


def _linear_offsets(g, b):
    """offsets d such that b + d occurs as a function argument or a comparison in g"""
    out = {}
    memo = set()
    def go(t):
        if t in memo:
            return
        memo.add(t)
        if t.op == "app":
            for a in t.args[1:]:
                if a.sort == "I" and b in fv(a):
                    d = sub(a, b)
                    if b not in fv(d) and all(not v.args[0].startswith("#") for v in fv(d)):
                        out[d] = 1
        if t.op in ("eq0", "le0"):
            p = to_poly(t.args[0])
            c = p.get(((b, 1),))
            if c in (1, -1):
                d = sub(mul(N(c), t.args[0]), b)
                if b not in fv(d) and all(not v.args[0].startswith("#") for v in fv(d)):
                    out[d] = 1
        for a in tm._children(t):
            go(a)
    go(g)
    return [d for d in out][:4]


# ------------------------------------------------------------ refutation by evaluation
def _positions(g, b):
    """positions of the values with which the element at b of a sorted set is compared in g"""
    out = {}
    atoms = {}
    atoms_of(g, lambda t: t.op in ("le0", "eq0") and not symbols(t).isdisjoint(x[:-4] for x in tm._rank), atoms, set())
    for t in atoms:
        p = to_poly(t.args[0])
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] + "_pos" in tm._rank and m[0][0].args[1:] == (b,):
                a = m[0][0]
                v = mul(N(Fraction(-1) / c), sub(t.args[0], mul(N(c), a)))
                val = tm._rank[a.args[0] + "_pos"][0](b)
                if b not in fv(v) and closed(v):
                    out[mk("app", (a.args[0] + "_pos", replace(val, {a: v})), "I")] = 1
    return list(out)


def refute(hyps, goal, tries=400, seed=1, ranges=None, funcs=None, budget=8.0, models=True):
    """a concrete environment with the hypotheses true and the goal false, or None"""
    rng = random.Random(seed)
    vs = {}
    fn = {}
    memo = set()
    def go(t):
        if t in memo:
            return
        memo.add(t)
        if t.op == "v" and not t.args[0].startswith("#"):
            vs[t.args[0]] = t.sort
        if t.op == "app" and t.args[0] in tm._def:
            for u in tm._def[t.args[0]][1]:
                go(u)
        elif t.op == "app" and t.args[0] not in tm._fns and t.args[0] not in ("powr", "idiv", "round", "trunc", "ncdf"):
            fn[t.args[0]] = t.sort
        for a in tm._children(t):
            go(a)
    for t in list(hyps) + [goal]:
        go(t)
    t0 = time.time()
    models = z3_models(hyps, goal, rng) if models else None
    done = 0
    for k in range(tries):
        if time.time() - t0 > budget:
            break
        env = dict(models[k % len(models)]) if models and k % 3 == 0 else {}
        big = 2 + k % 7
        for v, s in vs.items():
            if v in env and rng.random() < .9:
                continue
            if ranges and v in ranges:
                env[v] = ranges[v](rng)
            elif s == "I":
                env[v] = rng.randint(0, big + 2)
            elif s == "R":
                env[v] = Fraction(rng.randint(1, 12), rng.choice([1, 2, 4]))
            else:
                env[v] = rng.random() < .5
        for f, s in fn.items():
            env[f] = (funcs or {}).get(f, lambda r, s=s, f=f: rand_fn(r, s, f))(rng)
        env["pi"] = 3.141592653589793
        try:
            m = {}
            if not all(tm.ev(h, env, m) for h in hyps):
                continue
            done += 1
            if not tm.ev(goal, env, m):
                return {k: (v if not callable(v) else [str(v(i)) if _try(v, i) else None for i in range(8)]) for k, v in env.items()}
        except (tm.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError, RecursionError):
            continue
    return None


def _try(f, i):
    try:
        f(i)
        return True
    except Exception:
        return False


def rand_fn(rng, sort, name):
    salt = rng.random()
    lo = 1 if name in tm._pos else 0 if name in tm._nonneg else -4
    tab = {}
    small = rng.random() < .5
    def f(*a):
        k = tuple(a)
        if k not in tab:
            r = random.Random(hash((salt, k)))
            if sort == "B":
                tab[k] = r.random() < .5
            elif sort == "I":
                tab[k] = r.randint(lo, 6)
            else:
                tab[k] = Fraction(r.randint(lo, 5)) if small else Fraction(r.randint(lo * 8, 60), r.choice([1, 2, 3, 7, 8])) if lo <= 0 else Fraction(r.randint(8, 60), 8)
        return tab[k]
    return f


def z3_models(hyps, goal, rng):
    """integer parts of models of the hypotheses with the goal false, binders abstracted"""
    out = []
    for fs in ([*hyps, not_(goal)], list(hyps)):
        for linear in (True,):
            try:
                r, s, e = z3_check(fs, 1500, linear=linear)
            except Exception:
                continue
            for _ in range(3):
                if r != z3.sat:
                    break
                m = s.model()
                env = {}
                blk = []
                for d in m.decls():
                    if d.arity() == 0 and "_" not in d.name()[:5]:
                        v = m[d]
                        if z3.is_int_value(v):
                            if abs(v.as_long()) < 5000:
                                env[d.name()] = v.as_long()
                                blk.append(d() != v)
                        elif z3.is_rational_value(v):
                            env[d.name()] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                        elif z3.is_true(v) or z3.is_false(v):
                            env[d.name()] = z3.is_true(v)
                out.append(env)
                if not blk:
                    break
                s.add(z3.Or(*blk))
                r = s.check()
    return out
