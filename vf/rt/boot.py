"""B01-B04, W01, W02: indicator matrix, uniqueness, bootstrap, bagging, weights."""
from .core import *
from mizarlabs.model import bootstrapping as bs
from mizarlabs.model import sequentially_bootstrapped_bagging_classifier as sb
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
from scipy import sparse
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.tree import DecisionTreeClassifier

EV = "event_end_time"


def gen_labels(rng, k):
    nb = int(rng.integers(1, 14))
    bars = incr(rng, nb, 1, 4)
    nl = int(rng.integers(1, 9))
    if rng.random() < .5:
        st = sorted(int(x) for x in rng.choice(bars, nl))
    else:
        st = [int(x) for x in rng.integers(0, bars[-1] + 3, nl)]
        if rng.random() < .5:
            st.sort()
    en = [int(s + d) for s, d in zip(st, rng.integers(0, pick(rng, [1, 4, 15]), nl))]
    if rng.random() < .2:
        en = [max(en)] * nl
    return dict(bars=bars, st=st, en=en)


def rows_of(c):
    lo, hi = min(c["st"]), max(c["en"])
    return sorted(set(c["st"]) | set(c["en"]) | {b for b in c["bars"] if lo <= b <= hi})


@check("B01", "matrix", gen_labels, 2)
def chk_ind(c):
    s = pd.Series(times(c["en"]), index=times(c["st"]), name=EV)
    bars = pd.DataFrame({"close": 1.0}, index=times(c["bars"]))
    m, idx = bs.get_ind_matrix(s, bars, EV, return_indices=True)
    rows = rows_of(c)
    need([mins(t) for t in idx] == rows, "row times %s, expected %s", [mins(t) for t in idx], rows)
    want = np.array([[1.0 if a <= t <= b else 0.0 for a, b in zip(c["st"], c["en"])] for t in rows])
    same(np.asarray(m.todense()), want, "indicator matrix", 0, 0)
    m2 = bs.get_ind_matrix(s, bars, EV)
    same(np.asarray(m2.todense()), want, "indicator matrix (no row times)", 0, 0)


def gen_nan_labels(rng, k):
    c = gen_labels(rng, k)
    c["nan"] = int(rng.integers(len(c["st"])))
    return c


@check("B01", "missing_end", gen_nan_labels)
def chk_ind_nan(c):
    e = list(times(c["en"])); e[c["nan"]] = pd.NaT
    s = pd.Series(e, index=times(c["st"]), name=EV)
    try:
        bs.get_ind_matrix(s, pd.DataFrame({"close": 1.0}, index=times(c["bars"])), EV)
    except ValueError:
        return
    fail("a label with a missing end was accepted")


def uniq(mat):
    mat = np.asarray(mat, dtype=float)
    conc = mat.sum(axis=1)
    return np.array([np.mean([1 / conc[t] for t in range(mat.shape[0]) if mat[t, j]]) for j in range(mat.shape[1])])


def gen_matrix(rng, k):
    r, n = int(rng.integers(1, 9)), int(rng.integers(1, 8))
    if rng.random() < .5:
        m = (rng.random((r, n)) < rng.choice([.2, .5, .9])).astype(int)
    else:
        m = np.zeros((r, n), dtype=int)
        for j in range(n):
            a = int(rng.integers(r)); m[a:a + int(rng.integers(1, r + 1)), j] = 1
    for j in range(n):
        if not m[:, j].any():
            m[int(rng.integers(r)), j] = 1
    return dict(m=m.tolist())


@check("B02", "formula", gen_matrix, 2)
def chk_au(c):
    m = np.array(c["m"], dtype=float)
    got = bs.calc_average_uniqueness(sparse.csc_matrix(m))
    same(got, uniq(m), "average uniqueness", 1e-9)


def gen_frame_labels(rng, k):
    nb = int(rng.integers(1, 12))
    bars = incr(rng, nb, 1, 4)
    en = [int(b + d) for b, d in zip(bars, rng.integers(0, pick(rng, [1, 5, 20]), nb))]
    if rng.random() < .6:  # ends on bars
        en = [min([b for b in bars if b >= e] or [bars[-1]]) for e in en]
    perm = list(map(int, rng.permutation(nb))) if rng.random() < .25 else list(range(nb))
    return dict(bars=bars, en=en, perm=perm)


def frame_of(c, **cols):
    p = c["perm"]
    d = {EV: times([c["en"][i] for i in p])}
    for k, v in cols.items():
        d[k] = [v[i] for i in p]
    return pd.DataFrame(d, index=times([c["bars"][i] for i in p]))


def uniq_frame(c):
    cc = dict(bars=c["bars"], st=c["bars"], en=c["en"])
    rows = rows_of(cc)
    mat = np.array([[1.0 if a <= t <= b else 0.0 for a, b in zip(c["bars"], c["en"])] for t in rows])
    return uniq(mat), mat, rows


@check("B02", "transformer", gen_frame_labels, 2)
def chk_au_t(c):
    X = frame_of(c)
    got = AverageUniqueness().transform(X)
    u, _, _ = uniq_frame(c)
    need(got.index.equals(X.index), "index changed")
    same(got.values, [u[i] for i in c["perm"]], "average uniqueness", 1e-9)
    need(((got > 0) & (got <= 1 + 1e-12)).all(), "uniqueness outside (0, 1]")


class SpyRandom(np.random.RandomState):
    def choice(self, a, size=None, replace=True, p=None):
        r = super().choice(a, size=size, replace=replace, p=p)
        self.log.append((np.asarray(a).tolist(), None if p is None else np.array(p, dtype=float), np.atleast_1d(r).tolist(), replace))
        return r


def gen_boot(rng, k):
    c = gen_matrix(rng, k)
    n = len(c["m"][0])
    c["len"] = pick(rng, [None, 1, 2, n, 2 * n + 1, 3 * n])
    c["every"] = int(pick(rng, [1, 1, 1, 2, 3, 5]))
    c["seed"] = int(rng.integers(10 ** 6))
    return c


@check("B03", "draws", gen_boot, 3)
def chk_boot(c):
    m = np.array(c["m"], dtype=float)
    rs = SpyRandom(c["seed"]); rs.log = []
    got = bs.seq_bootstrap(sparse.csc_matrix(m), sample_length=c["len"], random_state=rs, update_probs_every=c["every"])
    n = m.shape[1]
    L = n if c["len"] is None else c["len"]
    need(len(got) == L, "%d draws, expected %d", len(got), L)
    got = [int(x) for x in got]
    need(all(0 <= x < n for x in got), "invalid sample positions %s", got)
    drawn = []
    need(rs.log, "no draw went through the random generator")
    for step, (a, p, r, rep) in enumerate(rs.log):
        need(rep, "draws without replacement")
        conc = m[:, drawn].sum(axis=1) if drawn else np.zeros(m.shape[0])
        u = np.array([np.mean([1 / (1 + conc[t]) for t in range(m.shape[0]) if m[t, j]]) for j in range(n)])
        pr = np.full(len(a), 1.0 / len(a)) if p is None else p
        full = np.zeros(n)
        for x, q in zip(a, pr):
            full[int(x)] += q
        same(full, u / u.sum(), "probabilities of batch %d after the draws %s" % (step, drawn), 1e-4, 1e-6)
        need(len(r) <= max(1, c["every"]), "batch %d has %d draws without an update", step, len(r))
        drawn += [int(x) for x in r]
    need(drawn == got, "returned draws %s, drawn %s", got, drawn)


LOG = []


class SpyTree(DecisionTreeClassifier):
    def fit(self, X, y, sample_weight=None, check_input=True):
        LOG.append((np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight)))
        return super().fit(X, y, sample_weight=sample_weight, check_input=check_input)


class SpyNoWeight(ClassifierMixin, BaseEstimator):
    def fit(self, X, y):
        LOG.append((np.array(X), np.array(y), None))
        self.classes_ = np.unique(y)
        self.c = np.bincount(np.asarray(y, dtype=int)).argmax()
        return self

    def predict(self, X):
        return (np.asarray(X)[:, 0] > 0).astype(int) * 0 + self.c


def gen_bag(rng, k):
    n = int(rng.integers(4, 14))
    bars = incr(rng, n, 1, 3)
    en = [int(b + d) for b, d in zip(bars, rng.integers(0, 8, n))]
    sub = sorted(int(x) for x in rng.choice(n, size=int(rng.integers(3, n + 1)), replace=False))
    if rng.random() < .3:
        sub = [int(x) for x in rng.permutation(sub)]
    nf = int(rng.integers(1, 5))
    return dict(bars=bars, en=en, sub=sub, nf=nf, X=rng.normal(size=(len(sub), nf)).round(3).tolist(),
                y=[int(v) for v in rng.integers(0, 2, len(sub))], labels=pick(rng, [[0, 1], [-1, 1]]),
                w=None if rng.random() < .5 else [float(x) for x in rng.integers(1, 5, len(sub))],
                est=int(rng.integers(1, 5)), seed=int(rng.integers(10 ** 6)), ms=pick(rng, [1.0, 0.6, 2, 3]),
                mf=pick(rng, [1.0, 0.5, 1]), bf=bool(rng.random() < .3), oob=bool(rng.random() < .7),
                base=pick(rng, ["tree", "tree", "noweight"]), every=int(pick(rng, [1, 2])), warm=bool(rng.random() < .2))


@check("B04", "bagging", gen_bag)
def chk_bag(c):
    if len(set(c["y"])) < 2:
        raise Skip()
    if c["base"] == "noweight" and c["w"] is not None:
        c = dict(c, w=None)
    idx = times(c["bars"])
    info = pd.Series(times(c["en"]), index=idx, name=EV)
    bars = pd.DataFrame({"close": 1.0}, index=idx)
    tr = idx[c["sub"]]
    X = pd.DataFrame(c["X"], index=tr, columns=["f%d" % i for i in range(c["nf"])])
    lab = [c["labels"][v] for v in c["y"]]
    y = pd.Series(lab, index=tr)
    base = SpyTree(max_depth=2) if c["base"] == "tree" else SpyNoWeight()
    oob = c["oob"] and not c["warm"]
    clf = sb.SequentiallyBootstrappedBaggingClassifier(info, bars, base_estimator=base, n_estimators=c["est"], max_samples=c["ms"],
        max_features=c["mf"], bootstrap_features=c["bf"], oob_score=oob, random_state=c["seed"], update_probs_every=c["every"], warm_start=c["warm"])
    mats = []
    real = getattr(sb, "seq_bootstrap", None)
    if real is not None:
        def spy(ind_mat, *a, **k):
            mats.append(np.asarray(ind_mat.todense())); r = real(ind_mat, *a, **k); draws.append([int(v) for v in r]); return r
        sb.seq_bootstrap = spy
    draws = []
    LOG.clear()
    Xv, yv = np.array(c["X"], dtype=float), np.array(c["y"])
    sw = None if c["w"] is None else pd.Series(c["w"], index=tr)
    try:
        clf.fit(X, y, sample_weight=sw)
        if c["warm"]:
            clf.n_estimators = c["est"] + 2
            clf.fit(X, y, sample_weight=sw)
    except ValueError as e:
        # an estimator that drew every sample has no out-of-bag sample to score
        if oob and "0 sample(s)" in str(e) and any(len(set(d)) == len(tr) for d in draws):
            raise Skip()
        raise
    finally:
        if real is not None:
            sb.seq_bootstrap = real
    n = len(tr)
    total = c["est"] + (2 if c["warm"] else 0)
    need(len(clf.estimators_) == len(clf.sequentially_bootstrapped_samples_) == len(clf.estimators_features_) == len(LOG) == total,
         "numbers of estimators, draws, feature sets and fits differ")
    want_n = c["ms"] if isinstance(c["ms"], int) else int(c["ms"] * n)
    if not c["warm"]:
        # columns of the training timestamps in their order
        rows = rows_of(dict(bars=c["bars"], st=c["bars"], en=c["en"]))
        cols = np.array([[1.0 if c["bars"][j] <= t <= c["en"][j] else 0.0 for j in c["sub"]] for t in rows])
        for mt in mats:
            same(mt, cols, "indicator matrix of the training samples", 0, 0)
    if real is not None and mats:
        need(draws == [[int(v) for v in s] for s in clf.sequentially_bootstrapped_samples_], "stored draws are not the ones drawn")
    for e in range(total):
        smp = [int(v) for v in clf.sequentially_bootstrapped_samples_[e]]
        fts = [int(v) for v in clf.estimators_features_[e]]
        need(len(smp) == want_n, "estimator %d has %d draws, expected %d", e, len(smp), want_n)
        need([int(v) for v in clf.estimators_samples_[e]] == smp, "estimators_samples_ of estimator %d are not its draws", e)
        fx, fy, fw = LOG[e]
        cnt = np.bincount(smp, minlength=n).astype(float)
        if c["base"] == "tree":
            same(fx, Xv[:, fts], "features of estimator %d" % e, 0, 0)
            need(fy.tolist() == yv.tolist(), "targets of estimator %d", e)
            need(fw is not None, "estimator %d was fitted without weights", e)
            same(fw, cnt * (np.ones(n) if c["w"] is None else np.array(c["w"])), "weights of estimator %d" % e, 1e-12, 0)
        else:
            same(fx, Xv[smp][:, fts], "rows of estimator %d" % e, 0, 0)
            need(fy.tolist() == yv[smp].tolist(), "targets of estimator %d", e)
    if c["w"] is not None:
        need(sw.tolist() == c["w"], "the sample weights were modified")
    if oob:
        votes = np.zeros((n, 2))
        for est, smp, fts in zip(clf.estimators_, clf.sequentially_bootstrapped_samples_, clf.estimators_features_):
            out = [i for i in range(n) if i not in set(int(v) for v in smp)]
            for i in out:
                row = Xv[[i]][:, fts]
                if hasattr(est, "predict_proba"):
                    votes[i] += est.predict_proba(row)[0]
                else:
                    votes[i, int(est.predict(row)[0])] += 1
        want = votes / votes.sum(axis=1)[:, None]
        same(clf.oob_decision_function_, want, "out-of-bag decision function", 1e-9, 1e-12)
        need(abs(clf.oob_score_ - np.mean(np.argmax(votes, axis=1) == yv)) < 1e-12, "out-of-bag score")


def gen_w01(rng, k):
    c = gen_frame_labels(rng, k)
    c["perm"] = list(range(len(c["bars"])))
    c["close"] = [float(x) for x in np.exp(rng.normal(0, .3, len(c["bars"]))).round(4) * 10]
    return c


@check("W01", "formula", gen_w01)
def chk_w01(c):
    X = frame_of(c, close=c["close"])
    got = SampleWeightsByReturns().transform(X)
    b, e, p = c["bars"], c["en"], c["close"]
    want = []
    for i in range(len(b)):
        s = 0.0
        for t in range(1, len(b)):
            if b[i] <= b[t] <= e[i]:
                conc = sum(1 for j in range(len(b)) if b[j] <= b[t] <= e[j])
                s += math.log(p[t] / p[t - 1]) / conc
        want.append(abs(s))
    need(got.index.equals(X.index), "index changed")
    same(got.values, want, "weights", 1e-9, 1e-12)


def gen_w02(rng, k):
    c = gen_frame_labels(rng, k)
    c["d"] = float(pick(rng, [1, .5, 0, -.25, -.5, -.9, float(rng.uniform(-.99, 1))]))
    return c


@check("W02", "formula", gen_w02)
def chk_w02(c):
    X = frame_of(c)
    got = SampleWeightsByTimeDecay(c["d"]).transform(X)
    u, _, _ = uniq_frame(c)
    cum = np.cumsum(u); tot = cum[-1]; d = c["d"]
    if d >= 0:
        want = d + (1 - d) * cum / tot
    else:
        want = np.maximum(0, (cum / tot + d) / (1 + d))
    need([mins(t) for t in got.index] == c["bars"], "index is not the time-ordered one")
    same(got.values, want, "weights", 1e-8, 1e-9)
    need((got >= 0).all(), "negative weight")


def gen_w02_bad(rng, k):
    c = gen_frame_labels(rng, k); c["d"] = 1.0 + float(rng.uniform(.01, 2)); return c


@check("W02", "rejects", gen_w02_bad)
def chk_w02_bad(c):
    try:
        SampleWeightsByTimeDecay(c["d"]).transform(frame_of(c))
    except AssertionError:
        return
    fail("decay %s was accepted", c["d"])
