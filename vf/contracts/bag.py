"""Contracts of the sequentially bootstrapped bagging estimators."""
from .base import *
from ..eng.lib import *
from ..eng.sparse import Sparse
from ..eng import lib
from ..eng import select
from ..eng.select import LoopContract, same_obls
from ..eng.prove import atoms_of
import numpy as np
import pandas as pd
from sklearn.ensemble import BaggingClassifier
from sklearn.utils import check_random_state
from sklearn.utils.random import sample_without_replacement
from sklearn.utils.validation import has_fit_parameter
from mizarlabs.model import sequentially_bootstrapped_bagging_classifier as sb

P = var("p", "I")             # features
MS, MF = var("max_samples", "I"), var("max_features", "I")
XV = lambda r, j: mk("app", ("X", N(r), N(j)), "R")
YV = lambda r: mk("app", ("y", N(r)), "R")
WV = lambda r: mk("app", ("weight", N(r)), "R")
SEED = lambda e: mk("app", ("seed", N(e)), "I")
# draw d and feature f of the estimator with a given seed
DRAW = lambda e, d: mk("app", ("draw_of", SEED(e), N(d)), "I")
FEAT = lambda e, f: mk("app", ("feature_of", SEED(e), N(f)), "I")
MATRIX = "the indicator matrix"
tm._nonneg.add("draw_of"); tm._nonneg.add("feature_of")
SHAPE = [le(ONE, n), le(ONE, P), le(ONE, MS), le(MS, n), le(ONE, MF), le(MF, P)]
R_, C_, D_ = var("r", "I"), var("c", "I"), var("d", "I")


def below(f, bound):
    """instances of f(seed, i) < bound for the terms at hand"""
    def lemma(pr, fs, nodes, cands):
        ts, memo = {}, set()
        for t in fs:
            atoms_of(t, lambda t: t.op == "app" and t.args[0] == f and not any(v.args[0].startswith("#") for v in fv(t)), ts, memo)
        return [lt(t, bound) for t in ts]
    return lemma


class Gen:
    """the random generator of one estimator"""

    def __init__(self, seed): self.seed = seed

    def randint(self, low, high=None, size=None, dtype=int):
        return features(self, low, high, size, True)


def features(rs, low, high, size, repeated):
    c = dom.ctx()
    if not isinstance(rs, Gen) or size is None or high is None:
        raise Unsupported("another use of the random generator")
    c.obls.append(("features are drawn among all the features", list(c.hyps), and_(eq(sc(low).v, ZERO), eq(sc(high).v, P)), None))
    c.obls.append(("the configured number of features", list(c.hyps), eq(sc(size).v, MF), None))
    c.obls.append(("features are drawn with repetition only when asked for", list(c.hyps), N(repeated == c.bag.repeat), None))
    rs.used = "features"
    return Seq(ZERO, MF, None, lambda f: Sc(mk("app", ("feature_of", rs.seed, N(f)), "I")), "i")


class Est:
    """a base estimator that records what it is fitted on"""

    def __init__(self, rs): self.rs, self.fits = rs, []


class Weighted(Est):
    def fit(self, X, y, sample_weight=None): self.fits.append((X, y, sample_weight)); return self


class Unweighted(Est):
    def fit(self, X, y): self.fits.append((X, y, None)); return self


class Ensemble:
    def __init__(self, cls, repeat):
        self._max_features, self._max_samples, self.bootstrap_features, self.base_estimator_ = Sc(MF), Sc(MS), repeat, cls(None)
        self.made, self.appended = [], []

    def _make_estimator(self, append=True, random_state=None):
        e = type(self.base_estimator_)(random_state)
        self.made.append(e)
        if append:
            self.appended.append(e)
        return e


def libraries(s, bag):
    s.over[np.random.RandomState] = lambda it, args, kw: Gen(sc(args[0] if args else kw["seed"]).v)
    s.over[check_random_state] = lambda it, args, kw: args[0]
    s.over[sample_without_replacement] = lambda it, args, kw: swr(it, *args, **kw)
    s.over[has_fit_parameter] = lambda it, args, kw: isinstance(args[0], Weighted) if args[1] == "sample_weight" else False
    s.assume("RandomState.randint and sample_without_replacement return positions within the population, as many as asked for; seq_bootstrap meets its contract (B03)")

    def swr(it, n_population, n_samples, method="auto", random_state=None):
        return features(random_state, ZERO, n_population, n_samples, False)

    def boot(it, args, kw):
        a = dict(zip(["ind_mat", "sample_length", "random_state", "update_probs_every"], args)); a.update(kw)
        c = dom.ctx()
        rs = a.get("random_state")
        if not isinstance(rs, Gen):
            raise Unsupported("another use of the random generator")
        h = list(c.hyps)
        m = a["ind_mat"]
        c.obls.append(("draws are made from the given label columns", h, N(m is bag.mat), None))
        c.obls.append(("the configured number of draws", h, eq(sc(a.get("sample_length")).v if a.get("sample_length") is not None else n, MS), None))
        c.obls.append(("the configured batches of draws", h, eq(sc(a.get("update_probs_every", 1)).v, bag.every), None))
        return Seq(ZERO, MS, None, lambda d: Sc(mk("app", ("draw_of", rs.seed, N(d)), "I")), "i")
    s.over[sb.seq_bootstrap] = boot
    s.over[np.bincount] = bincount
    s.prover.lemmas += [below("draw_of", n), below("feature_of", P)]
    valid = lambda b: (lambda rng: (lambda *a: rng.randint(0, 3)))
    s.funcs["draw_of"] = s.funcs["feature_of"] = lambda rng: (lambda *a: 0)


def bincount(it, args, kw):
    a = dict(zip(["x", "weights", "minlength"], args)); a.update(kw)
    x = lib.to_seq(a["x"]).need_dense()
    if a.get("weights") is not None:
        raise Unsupported("weighted counts")
    ml = sc(a.get("minlength", 0)).v
    c = dom.ctx()
    # the length is the minimum length when no position lies beyond it
    k = fresh("k", "I")
    c.obls.append(("counted positions are below the minimum length", list(c.hyps) + [le(x.lo, k), lt(k, x.hi)], and_(le(ZERO, x.e(k).v), lt(x.e(k).v, ml)), None))
    def e(q):
        d = fresh("d", "I")
        return Sc(ho("sum", sub(x.hi, x.lo), eq(x.e(add(x.lo, d)).v, q), ONE, d))
    return Seq(ZERO, ml, None, e, "i")


def times_drawn(e, r):
    return ssum(MS, lambda d: ONE, lambda d: eq(DRAW(e, d), r))


COUNT, START = var("number of estimators", "I"), var("first_seed", "I")


class Log:
    """one of the returned lists at the head of iteration k: holds one entry for each of the k estimators"""

    def __init__(self, k): self.k, self.new = N(k), []

    def append(self, v): self.new.append(v)


def logged(check):
    """the invariant of one list: each iteration appends one entry, which is as described"""
    def inv(i, x):
        if isinstance(x, list):
            return [("starts empty", [], and_(N(not x), eq(N(i), ZERO)))]
        if not isinstance(x, Log):
            raise Unsupported("the list of an estimator's results was replaced")
        r = [("one entry per estimator", [], and_(N(len(x.new) == 1), eq(add(x.k, ONE), N(i))))]
        return r + (check(x.k, x.new[0]) if len(x.new) == 1 else [])
    return inv


def draws_of(what, f, size):
    def check(e, v):
        q, k = lib.to_seq(v).need_dense(), fresh("k", "I")
        return [("as many as configured", [], eq(sub(q.hi, q.lo), size)), (what, [le(ZERO, k), lt(k, size)], eq(q.e(add(q.lo, k)).v, f(e, k)))]
    return check


def same(what, hyps, a, b):
    a, b = sc(a), sc(b)
    return (what, hyps, and_(iff(a.nan, b.nan), eq(num(a.v), num(b.v))))


@contract("B04", "_parallel_build_estimators")
def building(s):
    s.current = "mizarlabs.model.sequentially_bootstrapped_bagging_classifier._parallel_build_estimators"
    fn = sb._parallel_build_estimators
    for cls in (Weighted, Unweighted):
        for weights in (False, True):
            for repeat in (False, True):
                build_case(s, fn, cls, weights, repeat)


def build_case(s, fn, cls, weights, repeat):
    label = "estimators %s weights, %s, features %s" % ("with" if cls is Weighted else "without", "weighted samples" if weights else "no sample weights", "repeated" if repeat else "distinct")
    bag = type("Bag_", (), {})()
    bag.repeat, bag.every, bag.mat = repeat, var("every", "I"), Sparse(var("rows", "I"), n, lambda t, q: Sc(mk("app", ("ind", N(t), N(q)), "R")), "f", MATRIX, None, "csc")
    libraries(s, bag)

    def fitted(e, est):
        if not isinstance(est, Est) or len(est.fits) != 1 or est not in bag.ens.made:
            return [("a base estimator of the ensemble, fitted once", [], FALSE)]
        fx, fy, fw = est.fits[0]
        fy = lib.to_seq(fy).need_dense()
        if not isinstance(fx, Mat):
            raise Unsupported("the features of an estimator")
        rows = n if cls is Weighted else MS
        r, k = fresh("r", "I"), fresh("k", "I")
        row = r if cls is Weighted else DRAW(e, r)
        rg = [le(ZERO, r), lt(r, rows)]
        out = [("from its own seed", [], eq(est.rs.seed, SEED(e)) if isinstance(est.rs, Gen) else FALSE),
               ("size of what it is fitted on", [], and_(eq(fx.nr, rows), eq(fx.nc, MF), eq(sub(fy.hi, fy.lo), rows))),
               same("its features of the rows", rg + [le(ZERO, k), lt(k, MF)], fx.e(r, k), Sc(XV(row, FEAT(e, k)))),
               same("the targets of the rows", rg, fy.e(add(fy.lo, r)), Sc(YV(row)))]
        if cls is Weighted:
            if fw is None:
                return out + [("weights are given", [], FALSE)]
            fw = lib.to_seq(fw).need_dense()
            out += [("number of weights", [], eq(sub(fw.hi, fw.lo), n)),
                    same("given weight times the number of draws", rg, fw.e(add(fw.lo, r)), Sc(mul(WV(r) if weights else ONE, times_drawn(e, r))))]
        return out

    s.loops[fn] = {0: LoopContract(lambda it, fr, i: {v: Log(i) for v in ("estimators", "estimators_features", "estimators_indices")},
        facts=lambda i: [le(ZERO, i), le(i, COUNT)],
        inv={"estimators": logged(fitted), "estimators_features": logged(draws_of("the features drawn for it", FEAT, MF)),
             "estimators_indices": logged(draws_of("the draws it was fitted on", DRAW, MS))})}

    def run(it):
        it.ctx.bag = bag
        bag.ens = Ensemble(cls, repeat)
        X = Mat(n, P, lambda i, j: Sc(XV(i, j)), "f", "the features")
        y = Seq(ZERO, n, None, lambda q: Sc(YV(q)), "f", "the targets")
        w = Seq(ZERO, n, None, lambda q: Sc(WV(q)), "f", "the sample weights") if weights else None
        seeds = Seq(ZERO, COUNT, None, lambda e: Sc(SEED(e)), "i", "the seeds")
        return it.call(fn, [Sc(COUNT), bag.ens, X, y, bag.mat, w, seeds, Sc(COUNT)], dict(verbose=0, update_probs_every=Sc(bag.every)))

    for i, o in enumerate(s.paths(label, run, SHAPE + [le(ZERO, COUNT)], rejects=N(cls is Unweighted and weights))):
        s.goal(label + ": one estimator, feature set and sample of draws per seed (path %d)" % i, list(o.pc),
               and_(N(isinstance(o.value, tuple) and len(o.value) == 3 and not bag.ens.appended), *[eq(v.k, COUNT) if isinstance(v, Log) and not v.new else FALSE for v in o.value]))
        s.frame(label, o)


VOTE = lambda e, r, c: mk("app", ("vote", N(e), N(r), N(c)), "R")        # of the estimator e for the class c of the sample r
CHOICE = lambda e, r: mk("app", ("choice", N(e), N(r)), "I")
TOP = lambda r: mk("app", ("top", N(r)), "I")
tm._nonneg.add("choice"); tm._nonneg.add("vote")
CLASSES, J_ = var("classes", "I"), var("j", "I")


class Fitted:
    """a fitted estimator: row-wise predictions of the rows and features it was fitted on"""

    def __init__(self, e): self.e = N(e)

    def given(self, X):
        if not isinstance(X, select.SelMat):
            raise Unsupported("prediction of something else")
        c, r, f = dom.ctx(), fresh("r", "I"), fresh("f", "I")
        c.obls.append(("an estimator is asked with as many features as it was fitted on", list(c.hyps), eq(X.nc, MF), None))
        h = list(c.hyps) + [le(ZERO, r), lt(r, n), X.rg(r), le(ZERO, f), lt(f, MF)]
        what, hy, g = same("an estimator is asked for its own features of the sample", h, X.e(r, f), Sc(XV(r, FEAT(self.e, f))))
        c.obls.append((what, hy, g, None))
        return X


class Voter(Fitted):
    def predict(self, X):
        X = self.given(X)
        return Ranked(X.nr, X.rg, lambda r: Sc(CHOICE(self.e, r)))


    @property
    def predict_proba(self): raise PyRaise(AttributeError, "predict_proba")


class Prober(Voter):
    def predict_proba(self, X):
        X = self.given(X)
        return select.SelMat(X.nr, CLASSES, lambda r, c: Sc(VOTE(self.e, r, c)), X.rg, lambda c: TRUE, "f")


class Ranked:
    """one value for each selected row; the value at position k is that of the row with k selected rows before it"""

    def __init__(self, n, g, f): self.n, self.g, self.f = n, g, f

    def __getitem__(self, k):
        k, c = sc(k).v, dom.ctx()
        if not (k.op == "ho" and k.args[0] == "sum" and k.args[3] is ONE):
            raise Unsupported("a prediction by another position")
        row = k.args[1]
        x = fresh("x", "I")
        if not c.prover.prove(list(c.hyps), and_(le(ZERO, row), lt(row, self.n), self.g(row)))[0] or not same_term(k, ho("sum", row, self.g(x), ONE, x)):
            raise Unsupported("a prediction by another position")
        return self.f(row)


def same_term(a, b):
    c = dom.ctx()
    return c.prover.prove(list(c.hyps), eq(a, b))[0]


@contract("B04", "_set_oob_score")
def scoring(s):
    s.current = "mizarlabs.model.sequentially_bootstrapped_bagging_classifier.SequentiallyBootstrappedBaggingClassifier._set_oob_score"
    fn = sb.SequentiallyBootstrappedBaggingClassifier._set_oob_score
    for cls in (Prober, Voter):
        score_case(s, fn, cls)


def score_case(s, fn, cls):
    label = "estimators " + ("with probabilities" if cls is Prober else "that only predict")
    out = lambda e, r: not_(ho("ex", MS, eq(DRAW(e, D_), r), TRUE, D_))
    vote = lambda e, r, c: VOTE(e, r, c) if cls is Prober else ite(eq(CHOICE(e, r), c), ONE, ZERO)

    def votes(k):
        def f(r, c):
            e = fresh("e", "I")
            return Sc(ho("sum", N(k), out(e, N(r)), vote(e, N(r), N(c)), e))
        return f
    s.over[sb.indices_to_mask] = mask
    s.over[np.argmax] = lambda it, args, kw: top(it, *args, **kw)
    s.over[sb.accuracy_score] = accuracy
    s.prover.lemmas += [below("draw_of", n), below("feature_of", P), below("choice", CLASSES)]

    def top(it, x, axis=None):
        c = dom.ctx()
        if not isinstance(x, Mat):
            raise Unsupported("the largest of something else")
        c.obls.append(("the chosen class is that of one sample", list(c.hyps), N(conc(axis) == 1), None))
        same_obls(c, "the class with the most votes", x, Mat(n, CLASSES, votes(COUNT)), c.hyps)
        return Seq(ZERO, n, None, lambda r: Sc(TOP(r)), "i")

    head = lambda e, i: (lambda x: ho("sum", N(i), out(e, x), ONE, x))(fresh("x", "I"))

    def inner(it, fr, i):
        e = fr.env["estimator"].e
        f = votes(e)
        return {"j": Sc(head(e, i)), "predictions": Mat(n, CLASSES, lambda r, c: Sc(add(f(r, c).v, ite(and_(lt(r, N(i)), out(e, r)), vote(e, r, c), ZERO))))}
    s.loops[fn] = {0: LoopContract(lambda it, fr, i: {"predictions": Mat(n, CLASSES, votes(i))}, facts=lambda i: [le(ZERO, i), le(i, COUNT)]),
                   1: LoopContract(inner, facts=lambda i: [le(ZERO, i), le(i, n)])}

    def run(it):
        c = run.self = object.__new__(sb.SequentiallyBootstrappedBaggingClassifier)
        c.n_classes_ = Sc(CLASSES)
        c.estimators_ = select.SymList(COUNT, lambda e: cls(e))
        c.sequentially_bootstrapped_samples_ = select.SymList(COUNT, lambda e: Seq(ZERO, MS, None, lambda d: Sc(DRAW(e, d)), "i", "the draws"))
        c.estimators_features_ = select.SymList(COUNT, lambda e: Seq(ZERO, MF, None, lambda f: Sc(FEAT(e, f)), "i", "the features drawn"))
        X = Mat(n, P, lambda i, j: Sc(XV(i, j)), "f", "the features")
        y = Seq(ZERO, n, None, lambda q: Sc(mk("app", ("label", N(q)), "I")), "i", "the targets")
        return it.call(fn, [c, X, y], {})

    for i, o in enumerate(s.paths(label, run, SHAPE + [le(ZERO, COUNT), le(ONE, CLASSES)])):
        base, at = list(o.pc), " (path %d)" % i
        d, sc_ = run.self.oob_decision_function_, run.self.oob_score_
        if not isinstance(d, Mat):
            raise Unsupported("the votes are no matrix")
        s.goal(label + ": one row of votes per sample" + at, base, and_(eq(d.nr, n), eq(d.nc, CLASSES)))
        c = fresh("c", "I")
        total = ho("sum", CLASSES, TRUE, votes(COUNT)(R_, c).v, c)
        s.equal(label + ": share of the votes of estimators that did not draw the sample" + at, base + [le(ZERO, R_), lt(R_, n), le(ZERO, C_), lt(C_, CLASSES)],
                d.e(R_, C_), votes(COUNT)(R_, C_) / Sc(total))
        r = fresh("r", "I")
        s.equal(label + ": share of the samples with the chosen class" + at, base, sc_, Sc(ho("sum", n, eq(mk("app", ("label", r), "I"), TOP(r)), ONE, r)) / Sc(n))
        s.frame(label, o)


def mask(it, args, kw):
    """contract of indices_to_mask: the positions that occur in the array"""
    a = dict(zip(["indices", "mask_length"], args)); a.update(kw)
    x, m, c, k = lib.to_seq(a["indices"]).need_dense(), sc(a["mask_length"]).v, dom.ctx(), fresh("k", "I")
    c.obls.append(("masked positions are below the length of the mask", list(c.hyps) + [le(x.lo, k), lt(k, x.hi)], and_(le(ZERO, x.e(k).v), lt(x.e(k).v, m)), None))
    def e(q):
        d = fresh("d", "I")
        return Sc(ho("ex", sub(x.hi, x.lo), eq(x.e(add(x.lo, d)).v, q), TRUE, d))
    return Seq(ZERO, m, None, e, "b")


def accuracy(it, args, kw):
    """contract of accuracy_score: the share of equal entries"""
    if len(args) != 2 or kw:
        raise Unsupported("accuracy_score")
    a, b = (lib.to_seq(x).need_dense() for x in args)
    dom.ctx().require(eq(sub(a.hi, a.lo), sub(b.hi, b.lo)), "accuracy of as many predictions as targets")
    x = fresh("x", "I")
    m = sub(a.hi, a.lo)
    return Sc(ho("sum", m, eq(a.e(add(a.lo, x)).v, b.e(add(b.lo, x)).v), ONE, x)) / Sc(m)


# ---------------------------------------------------------------- _fit
NL, OLD, MORE, JOBS, POS = var("labels", "I"), var("earlier", "I"), var("wanted", "I"), var("jobs", "I"), var("position", "I")
COL = lambda k: mk("app", ("column", N(k)), "I")            # the label column of a training time
AT = lambda q: mul(MSNS, mk("app", ("label_time", N(q)), "I"))
CUT = lambda i: mk("app", ("cut", N(i)), "I")
RND = lambda j: mk("app", ("random", N(j)), "I")            # the j-th number the generator gives
IND = lambda t, q: mk("app", ("ind", N(t), N(q)), "R")
FEATS, MSET, MSF, MFS, MFF = var("configured_features", "I"), var("configured_samples", "I"), var("sample_share", "R"), var("max_features", "I"), var("feature_share", "R")
PARTS = ("estimator", "features", "draws")
TOKEN = lambda part, j: mk("app", (part + "_from", N(j)), "I")       # what the contract of the building function returns for a seed
tm._nonneg.add("column"); tm._nonneg.add("cut")


class Labels:
    """the labels with their times"""

    def __init__(self, index): self.index = index


BARS = object()


class Data:
    """a training frame or series with a time index"""

    def __init__(self, index, kind, content): self.index, self.kind, self.content = index, kind, content

    def sym_isinstance(self, ts): return any(t is self.kind for t in ts)


class Stream:
    """a random generator: the numbers come in order"""

    def __init__(self): self.pos = POS

    def randint(self, low, high=None, size=None):
        if high is not None or size is None:
            raise Unsupported("another use of the random generator")
        at, k = self.pos, sc(size).v
        self.pos = add(at, k)
        return Seq(ZERO, k, None, lambda e: Sc(RND(add(at, e))), "i")


class Job:
    def __init__(self, args, kw): self.args, self.kw = args, kw

    def sym_generic(self, k, lo, hi): return Jobs(self, k, lo, hi)


class Jobs:
    def __init__(self, job, k, lo, hi): self.job, self.k, self.lo, self.hi = job, k, lo, hi


class Part:
    def __init__(self, i): self.i = i

    def sym_generic(self, k, lo, hi): return Parts(self.i, lo, hi)


class Parts:
    def __init__(self, i, lo, hi): self.i, self.lo, self.hi = i, lo, hi


class One:
    """the result of one job"""

    def __getitem__(self, i):
        if conc(sc(i)) not in (0, 1, 2):
            raise Unsupported("another part of a job's result")
        return Part(conc(sc(i)))


class Results:
    def __init__(self, hi): self.hi = hi

    def sym_iter(self, it): return None

    def sym_enum(self):
        from ..eng.interp import SymEnum
        return SymEnum(ZERO, self.hi, None, lambda k: One())


def cuts(pr, fs, nodes, cands):
    """sklearn's partition: consecutive and complete"""
    ts, memo = {}, set()
    for t in fs:
        atoms_of(t, lambda t: t.op == "app" and t.args[0] == "cut" and not any(v.args[0].startswith("#") for v in fv(t)), ts, memo)
    out = [eq(CUT(ZERO), ZERO)]
    for t in ts:
        i = t.args[1]
        out += [imp(and_(le(ZERO, i), le(i, JOBS)), and_(le(ZERO, t), le(t, sub(MORE, OLD_NOW[0])))), imp(and_(le(ZERO, i), lt(i, JOBS)), le(t, CUT(add(i, ONE))))]
    return out


OLD_NOW = [ZERO]


@contract("B04", "_fit")
def fitting(s):
    s.current = "mizarlabs.model.sequentially_bootstrapped_bagging_classifier.SequentiallyBootstrappedBaseBagging._fit"
    s.assume("check_X_y, check_array, _validate_y and _validate_estimator of sklearn return the data unchanged (or the encoded targets); joblib runs every job once and returns the results in order; "
             "sklearn's partition of the estimators is consecutive and complete")
    fn = sb.SequentiallyBootstrappedBaseBagging._fit
    for warm in ("no", "refit", "first", "again"):
        for weights in (False, True):
            for share in (False, True):
                for oob in ((False, True) if warm == "no" else (False,)):
                    fit_case(s, fn, warm, weights, share, oob)


def fit_case(s, fn, warm, weights, share, oob):
    label = "%s%s, %s%s" % ({"no": "fitted once", "refit": "fitted again", "first": "first warm start", "again": "warm start"}[warm], ", weighted samples" if weights else "", "sizes as shares" if share else "sizes as counts", ", scored" if oob else "")
    cls = sb.SequentiallyBootstrappedBaggingClassifier
    old = OLD if warm == "again" else ZERO
    s.keeps = ("estimators_", "estimators_features_", "sequentially_bootstrapped_samples_") if warm == "again" else ()     # a warm start adds to what is there
    s.caches = {"_ind_mat": (("samples_info_sets", "price_bars", "event_end_time_column_name"), lambda v: v is None or getattr(v, "own", None) is MATRIX)}
    OLD_NOW[0] = old
    new = sub(MORE, old)
    st = {}
    Y = lambda q: mk("app", ("encoded", N(q)), "I")

    def jobs(it, args, kw):
        c = dom.ctx()
        if len(args) > 1 or set(kw) - {"n_jobs", "verbose"}:
            raise Unsupported("another parallel setting")
        def go(js):
            if not isinstance(js, Jobs) or js.job is None or "ran" in st:
                raise Unsupported("the jobs")
            st["ran"] = True
            h = list(c.hyps) + [le(js.lo, js.k), lt(js.k, js.hi)]
            a = dict(zip(["n_estimators", "ensemble", "X", "y", "ind_mat", "sample_weight", "seeds", "total_n_estimators"], js.job.args)); a.update(js.job.kw)
            ob = lambda what, g, more=(): c.obls.append(("each job: " + what, h + list(more), g, None))
            ob("all jobs are run", and_(eq(js.lo, ZERO), eq(js.hi, JOBS)))
            i = js.k
            seeds, y = lib.to_seq(a["seeds"]).need_dense(), lib.to_seq(a["y"]).need_dense()
            k, q, f = fresh("k", "I"), fresh("q", "I"), fresh("f", "I")
            ob("as many estimators as seeds", and_(eq(sc(a["n_estimators"]).v, sub(CUT(add(i, ONE)), CUT(i))), eq(sub(seeds.hi, seeds.lo), sub(CUT(add(i, ONE)), CUT(i)))))
            start = add(POS, old)
            ob("its share of the seeds", eq(seeds.e(add(seeds.lo, k)).v, RND(add(start, CUT(i), k))), [le(ZERO, k), lt(k, sub(CUT(add(i, ONE)), CUT(i)))])
            ob("the ensemble", N(a["ensemble"] is st["self"]))
            X = a["X"]
            if not isinstance(X, Mat):
                raise Unsupported("the features of a job")
            ob("the training features", and_(eq(X.nr, n), eq(X.nc, P)))
            what, hy, g = same("each training feature", h + [le(ZERO, q), lt(q, n), le(ZERO, f), lt(f, P)], X.e(q, f), Sc(XV(q, f)))
            c.obls.append((what, hy, g, None))
            ob("the training targets", and_(eq(sub(y.hi, y.lo), n), eq(y.e(add(y.lo, q)).v, Y(q))), [le(ZERO, q), lt(q, n)])
            w = a["sample_weight"]
            if not weights or w is None:
                ob("the given weights", N((w is None) == (not weights)))
            else:
                w = lib.to_seq(w).need_dense()
                what, hy, g = same("the given weights", h + [le(ZERO, q), lt(q, n)], w.e(add(w.lo, q)), Sc(WV(q)))
                c.obls.append((what, hy, and_(g, eq(sub(w.hi, w.lo), n)), None))
            m = a["ind_mat"]
            if not isinstance(m, Sparse):
                raise Unsupported("the label columns of a job")
            t = fresh("t", "I")
            ob("one label column per training time", eq(m.nc, n))
            what, hy, g = same("the label column of each training time, in their order", h + [le(ZERO, t), lt(t, var("rows", "I")), le(ZERO, q), lt(q, n)], m.e(t, q), Sc(IND(t, COL(q))))
            c.obls.append((what, hy, g, None))
            ob("all the rows", eq(m.nr, var("rows", "I")))
            ob("the configured batches of draws", eq(sc(a.get("update_probs_every", 1)).v, var("every", "I")))
            me = st["self"].__dict__
            st["sizes"] = (me.get("_max_samples"), me.get("_max_features"))
            return Results(js.hi)
        return go

    def chain(it, args, kw):
        ps = args[0]
        if not isinstance(ps, Parts):
            raise Unsupported("chain")
        c = dom.ctx()
        c.require(and_(eq(ps.lo, ZERO), eq(ps.hi, JOBS)), "the results of all jobs")
        start = add(POS, old)
        return select.SymList(new, lambda e: Sc(TOKEN(PARTS[ps.i], add(start, e))))

    def data(it, args, kw):
        X, y = args[0], args[1]
        if not isinstance(X, Data) or not isinstance(y, Data):
            raise Unsupported("check_X_y")
        return X.content, y.content
    def stores(it, args, kw):
        if len(args) != 1 or args[0].__class__ is not cls:
            raise Unsupported("the constructor of the ensemble")
        for k, v in dict(dict(n_jobs=None, verbose=0), **kw).items():
            it.setattr(args[0], k, v)

    def matrix(it, args, kw):
        a = dict(zip(["samples_info_sets", "price_bars", "event_end_time_column_name"], args)); a.update(kw)
        dom.ctx().obls.append(("the indicator matrix of the labels on the bars", list(dom.ctx().hyps), N(a["samples_info_sets"] is st["labels"] and a["price_bars"] is BARS and a.get("event_end_time_column_name") == "end"), None))
        return st["mat"]

    def columns(it, args, kw):
        a = dict(zip(["data", "index"], args)); a.update(kw)
        ix, d = a.get("index"), a.get("data")
        if set(a) != {"data", "index"} or not isinstance(ix, Index) or ix.space.name != "labels":
            raise Unsupported("another series")
        d = lib.to_seq(d).need_dense()
        dom.ctx().require(eq(sub(d.hi, d.lo), sub(ix.hi, ix.lo)), "one value per label")
        return Series(ix, lambda q: d.e(add(d.lo, sub(q, ix.lo))), d.dt)
    s.over[BaggingClassifier.__init__] = stores
    s.over[sb.get_ind_matrix] = matrix
    s.over[pd.Series] = columns
    s.over[sb.check_X_y] = data
    s.over[sb.check_array] = lambda it, args, kw: args[0]
    s.over[sb.check_consistent_length] = lambda it, args, kw: None
    s.over[sb.check_random_state] = lambda it, args, kw: st["rng"]
    s.over[cls._validate_y] = lambda it, args, kw: Seq(ZERO, n, None, lambda q: Sc(Y(q)), "i")
    s.over[cls._validate_estimator] = lambda it, args, kw: None
    s.over[sb._partition_estimators] = lambda it, args, kw: partition(args)
    s.over[sb.Parallel] = jobs
    s.over[sb.delayed] = lambda it, args, kw: (lambda *a, **k: Job(a, k)) if args[0] is sb._parallel_build_estimators else unsupported()
    s.over[sb.itertools.chain.from_iterable] = chain
    def score(it, args, kw):
        st["scored"] = args[-2:]
    s.over[cls._set_oob_score] = score
    s.prover.lemmas += [below("column", NL), cuts]

    def partition(args):
        c = dom.ctx()
        c.obls.append(("the estimators still missing are built", list(c.hyps), eq(sc(args[0]).v, new), None))
        return Sc(JOBS), Seq(ZERO, JOBS, None, lambda i: Sc(sub(CUT(add(i, ONE)), CUT(i))), "i"), Seq(ZERO, add(JOBS, ONE), None, lambda i: Sc(CUT(i)), "i")

    def run(it):
        st.clear()
        st["rng"] = Stream()
        st["mat"] = Sparse(var("rows", "I"), NL, lambda t, q: Sc(IND(t, q)), "f", MATRIX, None, "csc")
        labels = Space("labels", AT, "M", False)
        times = Space("training times", lambda k: AT(COL(k)), "M", False)
        times.parent = (labels, COL)
        st["labels"] = Labels(Index(labels, ZERO, NL, own="the labels' times"))
        sizes = dict(max_samples=Sc(MSF) if share else Sc(MSET), max_features=Sc(MFF) if share else Sc(MFS))
        c = st["self"] = it.call(cls, [st["labels"], BARS], dict(n_estimators=Sc(MORE), warm_start=warm in ("first", "again"), oob_score=oob, random_state=None, event_end_time_column_name="end",
                                                                update_probs_every=Sc(var("every", "I")), **sizes))
        if not isinstance(c, cls):
            raise Unsupported("what the constructor gives")
        if warm in ("refit", "again"):
            lists = [select.SymList(OLD, lambda e, part=part: Sc(mk("app", (part + "_before", e), "I"))) for part in PARTS]
            c.estimators_, c.estimators_features_, c.sequentially_bootstrapped_samples_ = lists
        ix = Index(times, ZERO, n, own="the training times")
        X = Data(ix, pd.DataFrame, Mat(n, P, lambda i, j: Sc(XV(i, j)), "f", "the features"))
        y = Data(ix, pd.Series, Seq(ZERO, n, None, lambda q: Sc(YV(q)), "f", "the targets"))
        w = Seq(ZERO, n, None, lambda q: Sc(WV(q)), "f", "the sample weights") if weights else None
        r = it.call(it.getattr(c, "fit"), [X, y], dict(sample_weight=w))
        return r, dict(st), dict(c.__dict__)

    hyps = [le(ONE, n), le(ONE, P), le(n, NL), le(ONE, JOBS), eq(CUT(JOBS), new), le(ZERO, OLD)]
    q = fresh("q", "I")
    hyps += [le(ZERO, var("rows", "I")), not_(ho("ex", n, not_(lt(COL(q), NL)), TRUE, q))]
    within = lambda x, lo, hi: and_(lo, le(x, hi))
    ok = and_(within(size_of(MSF, n), lt(ZERO, size_of(MSF, n)), n), within(mul(MFF, P), lt(ZERO, mul(MFF, P)), P)) if share else and_(within(MSET, lt(ZERO, MSET), n), within(MFS, lt(ZERO, MFS), P))
    for i, o in enumerate(s.paths(label, run, hyps, rejects=or_(not_(ok), lt(MORE, old)))):
        r, got, me = o.value
        base, at = list(o.pc), " (path %d)" % i
        s.goal(label + ": returns the ensemble" + at, base, N(r is got["self"]))
        lists = [me.get(a) for a in ("estimators_", "estimators_features_", "sequentially_bootstrapped_samples_")]
        if "ran" not in got:
            s.goal(label + ": nothing is built only when nothing is missing" + at, base, eq(new, ZERO))
        e = fresh("e", "I")
        for part, x in zip(PARTS, lists):
            x = x if isinstance(x, select.SymList) else select.as_symlist(x)
            s.goal("%s: number of %s entries%s" % (label, part, at), base, eq(x.n, MORE))
            want = ite(lt(e, old), mk("app", (part + "_before", e), "I"), TOKEN(part, add(POS, e)))
            if x.n is not ZERO:
                s.goal("%s: stored %s of each estimator%s" % (label, part, at), base + [le(ZERO, e), lt(e, MORE)], eq(x.f(e).v, want))
        if "ran" in got:
            ms, mf = got["sizes"]
            s.goal(label + ": configured sizes" + at, base, and_(eq(sc(ms).v, size_of(MSF, n) if share else MSET), eq(sc(mf).v, max2(ONE, size_of(MFF, P)) if share else MFS)))
            s.goal(label + ": sizes in range" + at, base, and_(le(ONE, sc(ms).v), le(sc(ms).v, n), le(ONE, sc(mf).v), le(sc(mf).v, P)))
            s.goal(label + ": scored when asked" + at, base, N(("scored" in got) == oob))
            if "scored" in got:
                X, y = got["scored"]
                q, f = fresh("q", "I"), fresh("f", "I")
                y = lib.to_seq(y).need_dense()
                s.equal(label + ": scored on the training features" + at, base + [le(ZERO, q), lt(q, n), le(ZERO, f), lt(f, P)], X.e(q, f), Sc(XV(q, f)))
                s.goal(label + ": scored on the training targets" + at, base + [le(ZERO, q), lt(q, n)], eq(y.e(add(y.lo, q)).v, Y(q)))
        s.frame(label, o)


def size_of(f, k):
    return sc(int_of(Sc(mul(f, k)))).v


def int_of(x):
    return lib.LIB[int](None, [x], {})


def unsupported():
    raise Unsupported("another parallel function")
