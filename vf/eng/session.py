"""One contract run: obligations, their status and what they rest on."""
import ast, inspect, os, time, traceback
from . import term as tm
from .term import *
from . import dom, prove, interp
from .dom import *
from .interp import Interp, Ctx, explore, Outcome
from .lib import LIB
from . import sparse as _sparse
from . import select as _select
from .prove import Prover, refute, STATS


class Stop(Exception):
    pass


class Session:
    def __init__(self, prop, name, tier, seed, budget):
        self.prop, self.name, self.tier, self.seed = prop, name, tier, seed
        self.t_end = time.time() + budget
        self.prover = Prover(3000 if tier == "quick" else 12000)
        self.obls = []
        self.functions = {}
        self.trusted = {}
        self.assumptions = {}
        self.bounded = []
        self.funcs = {}        # how to draw random library/input functions when refuting
        self.prover.funcs = self.funcs
        self.ranges = {}
        self.over = {}
        self.loops = {}        # function -> {position of the loop: invariant}
        self.current = name
        self.nonvac = 0
        self.keeps = ()             # attributes that an operation is there to keep from one use to the next
        self.caches = {}            # attribute -> (attributes it is a function of, test of a value kept in it)
        self.only_frames = False    # only: arguments, objects and modules are left as they were

    # ---------------------------------------------------------- running code
    def explore(self, run, hyps=(), max_paths=64):
        """run(it) along every path of the interpreted code"""
        def go(c):
            it = Interp(c, LIB, self.over)
            it.loop_contracts = self.loops
            return run(it)
        outs = explore(go, list(hyps), self.prover, max_paths)
        for o in outs:
            for f in o.ctx.called:
                self.functions[f] = 1
            for f in o.ctx.libs:
                self.trusted["library contract: " + f] = 1
            for f in o.ctx.contracts:
                self.trusted["assumed contract: " + f] = 1
        return outs

    def paths(self, label, run, hyps=(), rejects=None, max_paths=64):
        """explores, discharges the safety obligations, and yields the returning paths.

        rejects: condition under which the call is allowed to raise (default: never)
        """
        outs = self.explore(run, hyps, max_paths)
        feasible = []
        if self.only_frames:
            for i, o in enumerate(outs):
                self.frame("%s (path %d)" % (label, i), o, True)
                self.state("%s (path %d)" % (label, i), o)
            return [o for o in outs if o.kind not in ("raise", "cut")]
        asked, closed = set(), []
        key = lambda hy, t: (tuple(id(h) for h in hy), id(t))
        for i, o in enumerate(outs):
            if not self.prover.sat(o.pc, 1500):
                closed.append((i, o))
                continue
            asked |= {key(hy, t) for _, hy, t, _ in o.ctx.obls}
            if o.kind == "raise":
                g = rejects if rejects is not None else FALSE
                self.goal("%s: raises %s only when rejected (path %d)" % (label, getattr(o.value.exc, "__name__", "?"), i), o.pc, g)
                continue
            if o.kind == "cut":
                self.nonvac += 1
            else:
                feasible.append(o)
            for j, (nm, hy, t, ok) in enumerate(o.ctx.obls):
                if ok:
                    self.record("%s: %s (path %d)" % (label, nm, i), "discharged", "z3")
                else:
                    self.goal("%s: %s (path %d)" % (label, nm, i), hy, t, refutable=not self.loops)     # the symbols of loop invariants are not evaluable
            if rejects is not None and o.kind != "cut":
                self.goal("%s: accepted only when not rejected (path %d)" % (label, i), o.pc, not_(rejects))
        # an obligation that never holds closes its own path: it still has to be discharged from the facts before it
        for i, o in closed:
            for nm, hy, t, ok in o.ctx.obls:
                if not ok and key(hy, t) not in asked:
                    asked.add(key(hy, t))
                    self.goal("%s: %s (closed path %d)" % (label, nm, i), hy, t, refutable=not self.loops)
        if not feasible and rejects is TRUE:
            self.record("%s: always rejected" % label, "discharged", "executor")
        elif not feasible:
            self.record("%s: some input is accepted" % label, "undecided", "none", "no feasible returning path")
        else:
            self.nonvac += len(feasible)
        return feasible

    # ---------------------------------------------------------- obligations
    def record(self, name, status, backend="none", detail="", env=None):
        if self.only_frames and not self.framing:
            return
        self.obls.append(dict(name="%s/%s" % (self.name, name), status=status, backend=backend, function=self.current, detail=detail))

    def goal(self, name, hyps, t, refutable=True, lemmas=()):
        """records one obligation"""
        if self.only_frames:
            return True
        if time.time() > self.t_end:
            self.record(name, "undecided", "none", "time budget of the contract used up")
            return False
        try:
            ok, b, d = self.prover.prove(list(hyps), t)
        except RecursionError:
            ok, b, d = False, "none", "recursion"
        if ok:
            self.record(name, "discharged", b)
            return True
        env = None
        if refutable:
            try:
                env = refute(list(hyps), t, funcs=self.funcs, ranges=self.ranges, seed=self.seed, budget=6.0)
            except Exception as e:
                d += "; evaluation failed: %r" % e
        if env is not None:
            self.record(name, "refuted", "evaluation", "counterexample to the obligation: %s; %s" % ({k: str(v)[:200] for k, v in env.items()}, d))
        else:
            self.record(name, "undecided", "none", d)
        return False

    def equal(self, name, hyps, got, want):
        """scalar equality: same missing flag, same value when present"""
        got, want = sc(got), sc(want)
        a = self.goal(name + ": missing exactly when specified", hyps, iff(got.nan, want.nan)) if not (got.nan is FALSE and want.nan is FALSE) else True
        h = list(hyps) + [not_(want.nan), not_(got.nan)]
        b = self.goal(name + ": value", h, eq(got.v, want.v) if (got.v.sort == "B") == (want.v.sort == "B") else eq(num(got.v), num(want.v)))
        return a and b

    def sum_nonneg(self, m, f, hyps=(), g=None):
        """lemma: a sum of terms that are each non-negative (discharged) is non-negative; returns the fact"""
        x = fresh("q", "I")
        gd = TRUE if g is None else g(x)
        b = f(x)
        if not self.goal("each term of the sum is non-negative", list(hyps) + [le(ZERO, x), lt(x, N(m)), gd], ge(b, ZERO)):
            return TRUE
        return ge(ho("sum", N(m), gd, b, x), ZERO)

    framing = False

    def state(self, label, o):
        """the operation starts from nothing an earlier use of the object left behind"""
        first, wrote, last = {}, {}, {}
        for kind, obj, nm, v in o.ctx.attrs:
            first.setdefault((id(obj), nm), (kind, v))
            if kind == "w":
                wrote[(id(obj), nm)] = "%s.%s" % (type(obj).__name__, nm)
                last[(id(obj), nm)] = v
        back = lambda k: first[k][1] is None and last[k] is None      # handed back as it was found
        names = {nm for (_, nm) in wrote}

        def cache(nm):              # a function of what the operation leaves alone
            if nm not in self.caches:
                return False
            of, good = self.caches[nm]
            return not names & set(of) and all(good(v) for kind, _, a, v in o.ctx.attrs if a == nm and kind == "w")
        kept = sorted({w for k, w in wrote.items() if first[k][0] == "r" and not back(k) and not cache(k[1]) and w.split(".")[-1] not in self.keeps})
        self.framing = True
        if kept and self.prover.sat(o.pc, 1000):
            self.record("%s: uses nothing an earlier use left in the object" % label, "unknown", "executor", "%s is read before it is set again" % ", ".join(kept))
        else:
            self.record("%s: uses nothing an earlier use left in the object" % label, "discharged", "executor")
        self.framing = False

    def frame(self, label, o, inner=False):
        """nothing the caller passed was changed on this path"""
        if self.only_frames:
            if not inner:
                return
            self.framing = True
            try:
                self.only_frames = False
                self.frame(label, o)
            finally:
                self.only_frames = True
                self.framing = False
            return
        for own, hy in o.ctx.frames:
            if self.prover.sat(hy, 1000):
                self.record("%s: leaves %s unchanged" % (label, own), "refuted", "executor", "a store into %s is reached" % own)
                return
        self.record("%s: leaves the arguments unchanged" % label, "discharged", "executor")

    def assume(self, text):
        self.assumptions[text] = 1

    def run(self, f):
        t0 = dict(STATS)
        try:
            self.nonvac = 0
            f(self)
            self.only_frames = False
        except Stop:
            self.only_frames = False
        except (Unsupported,) as e:
            self.only_frames = False
            self.record("verification conditions of %s" % self.current, "unsupported", "none", "outside the verifier's subset: %s" % e)
        except PyRaise as e:
            self.only_frames = False
            self.record("verification conditions of %s" % self.current, "unsupported", "none", "contract raised %s %s" % (e.exc, e.msg))
        except Exception as e:
            self.only_frames = False
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            self.record("verification conditions of %s" % self.current, "unsupported", "none", "verifier: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb[-1].filename), tb[-1].lineno))
        if not self.obls:
            self.record("obligations were generated", "undecided", "none", "the contract generated no obligation")
        return dict(obligations=self.obls, functions=list(self.functions), trusted=list(self.trusted), assumptions=list(self.assumptions), bounded=self.bounded,
                    solver_s=STATS["z3"] + STATS["cvc5"] - t0["z3"] - t0["cvc5"])
