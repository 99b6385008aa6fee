"""Contracts of the purged and embargoed combinatorial cross-validation."""
from .base import *
from ..eng import lib
from ..eng.lib import *
from ..eng.select import LoopContract, SymList, comb_at, split_name, fold_bound, binomial
from mizarlabs.model import model_selection as md
from sklearn.model_selection._split import _BaseKFold
import pandas as pd

N_, G, T = var("samples", "I"), var("groups", "I"), var("test_groups", "I")
EMB = var("embargo", "I")
PRED = lambda q: mk("app", ("pred", N(q)), "I")
EVAL = lambda q: mk("app", ("evaluated", N(q)), "I")
PRE = [le(N(2), G), le(ONE, T), lt(T, G), le(G, N_), le(ZERO, EMB)]
tm._nondec.add("pred")
tm._axiom["evaluated"] = lambda q: [le(PRED(q), EVAL(q))]


def kfold_init(it, args, kw):
    """contract of sklearn's _BaseKFold constructor (checks n_splits and stores it)"""
    self, ns = args[0], sc(args[1])
    it.ctx.require_or_raise(lt(ONE, ns.v), ValueError, "at least two splits")
    it.setattr(self, "n_splits", ns) if hasattr(it, "setattr") else setattr(self, "n_splits", ns)


def times_series(f, own):
    return Series(Index(time_space(), ZERO, N_, own=own + " index"), lambda q: Sc(f(q)), "M", own)


class Td(Sc):
    kind = pd.Timedelta


def validator(s, it):
    cv = object.__new__(md.CombPurgedKFoldCV)
    for k, v in dict(n_groups=Sc(G), n_test_splits=Sc(T), n_splits=Sc(binomial(G, T)), embargo_td=Td(EMB), indices=None,
                     pred_times=times_series(PRED, "the prediction times"), eval_times=times_series(EVAL, "the evaluation times")).items():
        object.__setattr__(cv, k, v)
    return cv


IN = lambda c, i, t: mk("app", ("in_test", N(c), N(i), N(t)), "B")


class Plan:
    """what split produces, as loop contracts

    in_test(c, i, t): sample t is in one of the first i groups of choice c (defined by recursion over i);
    block_start, block_end (c, i, m): the m-th of the blocks(c, i) merged blocks at the head of iteration i, arbitrary
    ones that satisfy the invariant
    """

    def __init__(self, s):
        self.s = s
        self.nm = split_name(N_, G)
        self.B = lambda q: fold_bound(self.nm, q)
        self.at = comb_at(G, T)
        self.total = binomial(G, T)
        s.loops[md.CombPurgedKFoldCV.split] = {0: LoopContract(lambda it, fr, i: {}, None, None, self.start, yields=lambda i, y: [])}
        s.loops[md.CombPurgedKFoldCV._compute_test_set] = {0: LoopContract(self.test_state, inv={"test_fold_bounds": self.block_inv})}
        s.loops[md.CombPurgedKFoldCV._compute_train_set] = {0: LoopContract(self.train_state, facts=self.train_facts)}
        s.assume("at least as many samples as groups; prediction times do not decrease, evaluation times are not before them")
        valid = lambda c, i: and_(le(ZERO, c), lt(c, self.total), le(ZERO, i), le(i, T))

        def in_test(c, i, t):
            w = mk("app", ("block_of", c, i, t), "I")
            j = sub(i, ONE)
            a, b = self.fold(c, j)
            return [imp(and_(valid(c, i), IN(c, i, t)), and_(le(ZERO, w), lt(w, self.R(c, i)), le(self.bs(c, i, w), t), lt(t, self.be(c, i, w)))),
                    imp(eq(i, ZERO), not_(IN(c, i, t))),
                    imp(and_(lt(ZERO, i), valid(c, i)), iff(IN(c, i, t), or_(IN(c, j, t), and_(le(a, t), lt(t, b)))))] if is_one_more(i) else [
                    imp(and_(valid(c, i), IN(c, i, t)), and_(le(ZERO, w), lt(w, self.R(c, i)), le(self.bs(c, i, w), t), lt(t, self.be(c, i, w)))),
                    imp(eq(i, ZERO), not_(IN(c, i, t)))]
        tm._axiom["in_test"] = in_test
        tm._axiom["blocks"] = lambda c, i: [imp(valid(c, i), and_(le(ZERO, self.R(c, i)), imp(lt(ZERO, i), lt(ZERO, self.R(c, i)))))]
        tm._axiom["block_start"] = lambda c, i, m: [imp(and_(valid(c, i), le(ZERO, m), lt(m, self.R(c, i))), and_(le(ZERO, self.bs(c, i, m)), lt(self.bs(c, i, m), self.be(c, i, m)), le(self.be(c, i, m), N_)))]
        tm._axiom["block_end"] = tm._axiom["block_start"]

        def inside(a, b):
            (c, i, m), (c2, i2, t) = a, b
            if c is not c2 or i is not i2:
                return []
            return [imp(and_(valid(c, i), le(ZERO, m), lt(m, self.R(c, i)), le(self.bs(c, i, m), t), lt(t, self.be(c, i, m))), IN(c, i, t))]
        tm._pair[("block_start", "in_test")] = inside
        tm._pair[("block_end", "in_test")] = inside
        self.c = None

    def R(self, c, i): return mk("app", ("blocks", N(c), N(i)), "I")
    def bs(self, c, i, m): return mk("app", ("block_start", N(c), N(i), N(m)), "I")
    def be(self, c, i, m): return mk("app", ("block_end", N(c), N(i), N(m)), "I")

    def start(self, i):
        self.c = sub(sub(self.total, ONE), i)      # the choice tested by split i

    def fold(self, c, j):
        x = self.at(c, j)
        return self.B(x), self.B(add(x, ONE))

    # -- test set
    def test_state(self, it, fr, i):
        i, c = N(i), self.c
        return {"test_indices": Seq(ZERO, N_, lambda t: IN(c, i, t), lambda t: Sc(t), "i"),
                "test_fold_bounds": SymList(self.R(c, i), lambda m: (Sc(self.bs(c, i, m)), Sc(self.be(c, i, m))))}

    def block_inv(self, i, x):
        """the merged blocks cover exactly the chosen groups"""
        if not isinstance(x, SymList):
            raise Unsupported("test_fold_bounds is not a list")
        i, c = N(i), self.c
        m, t = fresh("m", "I"), fresh("t", "I")
        yield "some block once there is a group", [], and_(le(ZERO, x.n), imp(lt(ZERO, i), lt(ZERO, x.n)))
        if x.n is not ZERO:
            a, b = (z.v for z in x.f(m))
            h = [le(ZERO, m), lt(m, x.n)]
            yield "each block is within the samples", h, and_(le(ZERO, a), lt(a, b), le(b, N_))
            yield "a block lies in the test set", h + [le(a, t), lt(t, b)], IN(c, i, t)
        h = [le(ZERO, t), lt(t, N_), IN(c, i, t)]
        if x.n is ZERO:
            yield "the blocks cover the test set", h, FALSE
            return
        before = sub(i, ONE)        # the sample's block: where it was before this iteration, else the last one
        w = ite(IN(c, before, t), mk("app", ("block_of", c, before, t), "I"), sub(x.n, ONE))
        a, b = (z.v for z in x.f(w))
        yield "the blocks cover the test set", h, and_(le(ZERO, w), lt(w, x.n), le(a, t), lt(t, b))

    # -- training set
    def last_eval(self, m):
        x = fresh("j", "I")
        return ho("max", N_, and_(IN(self.c, T, x), lt(x, self.be(self.c, T, m))), EVAL(x), x)

    def keep(self, m, t):
        a, b = self.bs(self.c, T, m), self.be(self.c, T, m)
        return and_(or_(lt(EVAL(t), PRED(a)), ge(t, b)), or_(lt(t, b), gt(PRED(t), add(self.last_eval(m), EMB))))

    def train_facts(self, i):
        """a block has a test sample before its end (its last one)"""
        m, x = fresh("m", "I"), fresh("j", "I")
        last = sub(self.be(self.c, T, i), ONE)
        inside = and_(le(ZERO, i), lt(i, self.R(self.c, T)))
        c = ctx()
        c.obls.append(("a block has a test sample before its end", list(c.hyps) + [inside], and_(le(ZERO, last), lt(last, N_), IN(self.c, T, last), lt(last, self.be(self.c, T, i))), None))
        some = ho("ex", N_, and_(IN(self.c, T, x), lt(x, self.be(self.c, T, i))), TRUE, x)
        return [some if c.known(inside) else imp(inside, some)]

    def train_state(self, it, fr, i):
        return {"train_indices": Seq(ZERO, N_, lambda t: and_(not_(IN(self.c, T, t)), forall(i, lambda m: self.keep(m, t))), lambda t: Sc(t), "i")}


def splits(s, then):
    """explores split and hands each yielded pair to `then`"""
    setup(s)
    p = Plan(s)
    s.current = "mizarlabs.model.model_selection.CombPurgedKFoldCV.split"

    def run(it):
        cv = validator(s, it)
        X = Frame(Index(time_space(), ZERO, N_, own="the samples index"), {"x": (column("x", False), "f")}, "the samples")
        c = it.ctx

        def yields(i, got):
            if got is None:
                c.obls.append(("one split per choice of groups", list(c.hyps), eq(i, p.total), None))
                return []
            if len(got) != 1:
                c.obls.append(("one pair per choice", list(c.hyps), FALSE, None))
                return
            then(p, c, i, *got[0])
        s.loops[md.CombPurgedKFoldCV.split][0].yields = yields
        r = it.call(it.getattr(cv, "split"), [X], {})
        return r
    for i, o in enumerate(s.paths("CombPurgedKFoldCV.split", run, PRE)):
        s.frame("CombPurgedKFoldCV.split", o)


def both(c, label, train, test):
    for nm, x in (("training set", train), ("test set", test)):
        from ..eng.select import is_sel
        if not is_sel(x):
            raise Unsupported("%s is not a selection of positions" % nm)


@contract("C01", "CombPurgedKFoldCV.split")
def leak(s):
    def then(p, c, i, train, test):
        both(c, "split", train, test)
        t, j = fresh("t", "I"), fresh("j", "I")
        h = list(c.hyps) + [le(ZERO, t), lt(t, N_), le(ZERO, j), lt(j, N_), train.inr(t), test.inr(j)]
        w = mk("app", ("block_of", p.c, T, j), "I")
        c.obls.append(("the sample was purged and embargoed against the test sample's block", h, p.keep(w, t), None))
        c.obls.append(("the block's last evaluation is not before the test sample's", h, le(EVAL(j), p.last_eval(w)), None))
        h += [p.keep(w, t), le(EVAL(j), p.last_eval(w))]
        c.obls.append(("no training sample's interval meets a test sample's", h, or_(lt(EVAL(t), PRED(j)), gt(PRED(t), EVAL(j))), None))
        c.obls.append(("a training sample after a test sample waits for its evaluation plus the embargo", h + [lt(j, t)], gt(PRED(t), add(EVAL(j), EMB)), None))
        c.obls.append(("no sample is in both sets", h, not_(eq(t, j)), None))
    splits(s, then)


@contract("C02", "CombPurgedKFoldCV.split")
def over_purge(s):
    def then(p, c, i, train, test):
        both(c, "split", train, test)
        t, j, m = fresh("t", "I"), fresh("j", "I"), fresh("m", "I")
        h = list(c.hyps) + [le(ZERO, t), lt(t, N_), not_(train.inr(t)), not_(test.inr(t))]
        R = p.R(p.c, T)
        c.obls.append(("a sample left out conflicts with a block", h, exists(R, lambda m: not_(p.keep(m, t))), None))
        last = and_(test.inr(j), lt(j, p.be(p.c, T, m)), eq(EVAL(j), p.last_eval(m)))
        end = sub(p.be(p.c, T, m), ONE)
        inside = and_(le(ZERO, end), lt(end, N_), IN(p.c, T, end))
        c.obls.append(("a block's last sample is tested", list(c.hyps) + [le(ZERO, m), lt(m, R)], inside, None))
        c.obls.append(("a block has a last evaluated sample before its end", list(c.hyps) + [le(ZERO, m), lt(m, R), inside], exists(N_, lambda j: and_(test.inr(j), lt(j, p.be(p.c, T, m)), eq(EVAL(j), p.last_eval(m)))), None))
        h += [le(ZERO, m), lt(m, R), not_(p.keep(m, t)), le(ZERO, j), lt(j, N_), last]
        first = p.bs(p.c, T, m)
        overlap = lambda q: and_(le(ZERO, q), lt(q, N_), test.inr(q), le(PRED(q), EVAL(t)), le(PRED(t), EVAL(q)))
        waits = and_(lt(j, t), le(PRED(t), add(EVAL(j), EMB)))
        c.obls.append(("a sample is left out only when its interval meets a test sample's or the embargo after one", h, or_(overlap(first), waits), None))
        c.obls.append(("training samples are samples", list(c.hyps) + [train.inr(t)], and_(le(ZERO, t), lt(t, N_)), None))
    splits(s, then)
    s.record("training positions in increasing order, each once (a selection of positions)", "discharged", "executor")


# ---------------------------------------------------------------- C03
FACT = lambda a: mk("app", ("factorial", N(a)), "I")
tm._axiom["binomial"] = lambda a, b: [imp(and_(le(ZERO, b), le(b, a)), eq(binomial(a, b), idiv(FACT(a), mul(FACT(b), FACT(sub(a, b)))))), imp(and_(lt(ZERO, b), lt(b, a)), le(a, binomial(a, b)))]
tm._axiom["factorial"] = lambda a: [imp(le(a, ONE), eq(FACT(a), ONE)), imp(le(ONE, a), eq(FACT(a), mul(a, FACT(sub(a, ONE)))))]


@contract("C03", "CombPurgedKFoldCV.__init__")
def constructor(s):
    setup(s)
    s.current = "mizarlabs.model.model_selection.CombPurgedKFoldCV.__init__"
    s.over[_BaseKFold.__init__] = kfold_init
    bad = or_(le(T, ZERO), ge(T, G), lt(EMB, ZERO))
    pred, ev = times_series(PRED, "the prediction times"), times_series(EVAL, "the evaluation times")

    def run(it):
        return it.call(md.CombPurgedKFoldCV, [Sc(G), Sc(T), pred, ev, Td(EMB)], {})
    for i, o in enumerate(s.paths("CombPurgedKFoldCV", run, [le(ONE, G)] + tm._axiom["binomial"](G, T), rejects=bad)):
        cv = o.value
        for nm, want in (("n_groups", G), ("n_test_splits", T), ("embargo_td", EMB)):
            s.goal("the %s is the one asked for (path %d)" % (nm, i), o.pc, eq(sc(getattr(cv, nm)).v, want))
        s.goal("announced number of splits is the number of choices of test groups (path %d)" % i, o.pc, eq(sc(cv.n_splits).v, binomial(G, T)))
        s.record("the times are those passed (path %d)" % i, "discharged" if cv.pred_times is pred and cv.eval_times is ev else "refuted", "executor")
        s.frame("CombPurgedKFoldCV", o)


@contract("C03", "CombPurgedKFoldCV._test_fold_bounds")
def groups(s):
    setup(s)
    s.current = "mizarlabs.model.model_selection.CombPurgedKFoldCV._test_fold_bounds"
    p = Plan(s)
    g = fresh("g", "I")
    i, j = fresh("i", "I"), fresh("j", "I")
    size = lambda q: sub(p.B(add(q, ONE)), p.B(q))

    def run(it):
        X = Frame(Index(time_space(), ZERO, N_, own="the samples index"), {"x": (column("x", False), "f")}, "the samples")
        return it.call(it.getattr(validator(s, it), "_test_fold_bounds"), [X], {})
    for k, o in enumerate(s.paths("_test_fold_bounds", run, PRE)):
        r = o.value
        at = " (path %d)" % k
        if not isinstance(r, SymList):
            raise Unsupported("test fold bounds are not a list")
        s.goal("as many choices as the binomial coefficient" + at, o.pc, eq(r.n, p.total))
        h = list(o.pc) + [le(ZERO, i), lt(i, p.total), le(ZERO, j), lt(j, T)]
        inner = r.f(i)
        if not isinstance(inner, SymList):
            raise Unsupported("a choice is not a list")
        s.goal("each choice has the requested number of groups" + at, h, eq(inner.n, T))
        a, b = inner.f(j)
        c = sub(sub(p.total, ONE), i)
        x = p.at(c, j)
        s.goal("the choices in reversed order, each once: first bound" + at, h, eq(a.v, p.B(x)))
        s.goal("the choices in reversed order, each once: second bound" + at, h, eq(b.v, p.B(add(x, ONE))))
        s.goal("the first split tests the last groups" + at, h + [eq(i, ZERO)], and_(eq(a.v, p.B(add(sub(G, T), j))), eq(b.v, p.B(add(sub(G, T), add(j, ONE))))))
        q = list(o.pc) + [le(ZERO, g), lt(g, G)]
        s.goal("the groups start at the first sample and end at the last one" + at, q, and_(eq(p.B(ZERO), ZERO), eq(p.B(G), N_)))
        s.goal("every group has samples, sizes differ by at most one" + at, q, and_(le(ONE, size(g)), le(idiv(N_, G), size(g)), le(size(g), add(idiv(N_, G), ONE))))
        s.frame("_test_fold_bounds", o)


@contract("C03", "CombPurgedKFoldCV.split")
def enumerates(s):
    s.current = "mizarlabs.model.model_selection.CombPurgedKFoldCV.split"

    def then(p, c, i, train, test):
        both(c, "split", train, test)
        t = fresh("t", "I")
        ch = sub(sub(p.total, ONE), i)
        h = list(c.hyps) + [le(ZERO, t), lt(t, N_)]
        # induction over the number of groups taken
        k = fresh("taken", "I")
        same = lambda k: iff(IN(ch, k, t), in_groups(p, ch, k, t))
        c.obls.append(("union of no groups", h, same(ZERO), None))
        c.obls.append(("union of one more group", h + [le(ZERO, k), lt(k, T), same(k)], same(add(k, ONE)), None))
        h.append(same(T))
        c.obls.append(("the test set is the union of the chosen groups", h + [test.inr(t)], in_groups(p, ch, T, t), None))
        c.obls.append(("every sample of the chosen groups is tested", h + [in_groups(p, ch, T, t)], test.inr(t), None))
        c.obls.append(("tested positions are samples", list(c.hyps) + [test.inr(t)], and_(le(ZERO, t), lt(t, N_)), None))
    splits(s, then)
    s.assume("induction over the number of groups (base and step discharged) is a rule of the verifier")


def in_groups(p, ch, m, t):
    return exists(m, lambda j: and_(le(p.fold(ch, j)[0], t), lt(t, p.fold(ch, j)[1])))


@contract("C03", "compute_back_test_paths")
def back_test_paths(s):
    setup(s)
    s.current = "mizarlabs.model.model_selection.compute_back_test_paths"
    DEN = lambda i: mk("app", ("denominator", N(i)), "I")
    tm._axiom["denominator"] = lambda i: [imp(and_(le(ZERO, i), lt(i, T)), eq(mul(DEN(i), FACT(sub(sub(G, ONE), i))), FACT(sub(G, ONE))))]

    def inv(i, x):
        yield "falling product", [], eq(mul(sc(x).v, FACT(sub(sub(G, ONE), N(i)))), FACT(sub(G, ONE)))
    s.loops[md.compute_back_test_paths] = {0: LoopContract(lambda it, fr, i: {"den": Sc(DEN(N(i)))}, inv={"den": inv})}

    def run(it):
        return it.call(md.compute_back_test_paths, [Sc(G), Sc(T)], {})
    for i, o in enumerate(s.paths("compute_back_test_paths", run, [le(ONE, T), lt(T, G)])):
        a, b = sub(G, ONE), sub(T, ONE)
        s.goal("number of paths is the binomial coefficient of groups less one and test groups less one (path %d)" % i, o.pc, eq(sc(o.value).v, binomial(a, b)))
