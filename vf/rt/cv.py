"""C01-C04: combinatorial purged cross-validation."""
import itertools, math
from .core import *
from mizarlabs.model import model_selection as ms


def gen_cv(rng, k):
    n = int(rng.integers(2, 16))
    N = int(rng.integers(2, min(n, 6) + 1))
    t = int(rng.integers(1, N))
    step = pick(rng, [(0, 3), (1, 1), (0, 1), (1, 6), (0, 10)])
    pred = [int(x) for x in np.cumsum(rng.integers(step[0], step[1] + 1, n))]
    dur = pick(rng, [(0, 0), (0, 3), (1, 2), (0, 30), (5, 5), (0, 12)])
    ev = [int(p + d) for p, d in zip(pred, rng.integers(dur[0], dur[1] + 1, n))]
    if rng.random() < .3:  # one very long information interval
        i = int(rng.integers(n)); ev[i] = ev[i] + int(rng.integers(0, 40))
    emb = int(pick(rng, [0, 0, 1, 2, 5, 10, 50]))
    # the frames' labels need not be the prediction times
    return dict(n=n, N=N, k=t, pred=pred, ev=ev, emb=emb, index=pick(rng, ["pred", "range", "other"]))


def mk_cv(c):
    idx = {"pred": times(c["pred"]), "range": pd.RangeIndex(c["n"]),
           "other": times([7 * i + 3 for i in range(c["n"])])}[c["index"]]
    if c["index"] == "pred" and not idx.is_unique:
        idx = pd.RangeIndex(c["n"])
    pred = pd.Series(times(c["pred"]), index=idx)
    ev = pd.Series(times(c["ev"]), index=idx)
    X = pd.DataFrame({"id": np.arange(c["n"], dtype=float)}, index=idx)
    cv = ms.CombPurgedKFoldCV(c["N"], c["k"], pred, ev, ticks(c["emb"]))
    return cv, X


def conflict(c, t, j):
    """t may not train a model tested on j."""
    return c["pred"][j] <= c["ev"][t] and c["pred"][t] <= c["ev"][j] + c["emb"]


def splits(c):
    cv, X = mk_cv(c)
    return [([int(i) for i in tr], [int(i) for i in te]) for tr, te in cv.split(X)]


def groups(n, N):
    q, r = divmod(n, N)
    out, s = [], 0
    for g in range(N):
        e = s + q + (1 if g < r else 0)
        out.append((s, e)); s = e
    return out


@check("C01", "no_leak", gen_cv, 3)
def chk_leak(c):
    for s, (tr, te) in enumerate(splits(c)):
        need(not set(tr) & set(te), "split %d: samples %s are in both sets", s, set(tr) & set(te))
        for t in tr:
            for j in te:
                # overlap of [pred, eval]
                need(not (c["pred"][j] <= c["ev"][t] and c["pred"][t] <= c["ev"][j]),
                     "split %d: training sample %d overlaps test sample %d (pred %s/%s eval %s/%s)", s, t, j, c["pred"][t], c["pred"][j], c["ev"][t], c["ev"][j])
                if t > j:
                    need(c["pred"][t] > c["ev"][j] + c["emb"],
                         "split %d: training sample %d is predicted within the embargo of test sample %d", s, t, j)


@check("C02", "maximal", gen_cv, 3)
def chk_max(c):
    for s, (tr, te) in enumerate(splits(c)):
        T = set(te)
        want = [t for t in range(c["n"]) if t not in T and not any(conflict(c, t, j) for j in te)]
        need(tr == want, "split %d (test %s): train set %s, expected %s", s, te, tr, want)


@check("C03", "enumeration", gen_cv, 3)
def chk_enum(c):
    cv, X = mk_cv(c)
    sp = [(list(map(int, tr)), list(map(int, te))) for tr, te in cv.split(X)]
    gs = groups(c["n"], c["N"])
    want = {}
    for comb in itertools.combinations(range(c["N"]), c["k"]):
        want[tuple(i for g in comb for i in range(*gs[g]))] = comb
    got = [tuple(te) for _, te in sp]
    need(len(set(got)) == len(got), "a test set is repeated: %s", got)
    # sizes may be distributed differently, as long as groups are contiguous and balanced
    need(set(got) == set(want), "test sets %s are not the unions of all the choices of groups %s", sorted(got), sorted(want))
    need(len(sp) == cv.n_splits == cv.get_n_splits() == math.comb(c["N"], c["k"]), "announced %s splits, made %d, expected %d", cv.n_splits, len(sp), math.comb(c["N"], c["k"]))
    last = tuple(i for g in range(c["N"] - c["k"], c["N"]) for i in range(*gs[g]))
    need(got[0] == last, "the first test set %s is not the last groups %s", got[0], last)


def gen_counts(rng, k):
    if k == 0:
        return dict(N=2, k=1)
    if k == 1:
        return dict(N=60, k=30)
    N = int(rng.integers(2, pick(rng, [6, 12, 40, 80]) + 1))
    return dict(N=N, k=int(rng.integers(1, N)))


@check("C03", "counts", gen_counts)
def chk_counts(c):
    s = pd.Series(times([0]), index=[0])
    cv = ms.CombPurgedKFoldCV(c["N"], c["k"], s, s)
    need(cv.n_splits == math.comb(c["N"], c["k"]), "announced %s splits for %d groups and %d test groups, expected %d", cv.n_splits, c["N"], c["k"], math.comb(c["N"], c["k"]))
    got = ms.compute_back_test_paths(c["N"], c["k"])
    want = math.comb(c["N"] - 1, c["k"] - 1)
    need(got == want, "%s paths for %d groups and %d test groups, expected %d", got, c["N"], c["k"], want)


class Recorder:
    """A model that encodes (fit number, sample) in its predictions."""

    def __init__(self):
        self.fits = []

    def fit(self, X, y, **params):
        self.fits.append(([int(v) for v in np.asarray(X)[:, 0]], np.asarray(y).tolist(), params))
        return self

    def predict(self, X):
        return (len(self.fits) - 1) * 1000.0 + np.asarray(X)[:, 0]

    def predict_proba(self, X):
        p = (np.asarray(X)[:, 0] + 1 + len(self.fits) * 31 % 7) / 1000.0
        return np.column_stack((p, 1 - p, np.zeros(len(p))))


def gen_paths(rng, k):
    c = gen_cv(rng, k)
    c["index"] = pick(rng, ["range", "other"])
    c["N"] = min(c["N"], 5); c["k"] = min(c["k"], c["N"] - 1)
    c["seed"] = int(rng.integers(10 ** 6))
    c["label"] = pick(rng, ["label", "tgt"])
    return c


@check("C04", "paths", gen_paths)
def chk_paths(c):
    import random
    cv, X = mk_cv(c)
    y = pd.DataFrame({c["label"]: np.arange(c["n"]) % 3 - 1.0, "info": np.arange(c["n"]) * 10.0}, index=X.index)
    sp = splits(c)
    # a sample can be trained on in no split: the model is still fitted (on nothing)
    m = Recorder()
    random.seed(c["seed"])
    res = list(ms.combinatorial_cross_validation_paths(X, y, cv, m, {"sample_weight": "W"}, label_column_name=c["label"]))
    need(len(res) == 1, "expected one list of paths")
    paths = res[0]
    want = math.comb(c["N"] - 1, c["k"] - 1)
    need(len(paths) == want, "%d paths, expected %d", len(paths), want)
    need(len(m.fits) == len(sp), "%d fits for %d splits", len(m.fits), len(sp))
    for f, (ids, ys, params) in enumerate(m.fits):
        need(ids == sp[f][0], "fit %d was trained on %s, the split's training set is %s", f, ids, sp[f][0])
        need(ys == [i % 3 - 1.0 for i in ids], "fit %d got the wrong targets", f)
        need(params == {"sample_weight": "W"}, "fit %d did not get the fit parameters", f)
    used = set()
    for pi, p in enumerate(paths):
        ids = [list(X.index).index(i) for i in p.index]
        need(sorted(ids) == list(range(c["n"])), "path %d has samples %s", pi, ids)
        for pos, i in enumerate(ids):
            row = p.iloc[pos]
            f, s = divmod(int(row["predictions"]), 1000)
            need(s == i, "path %d: the row of sample %d has the prediction of sample %d", pi, i, s)
            need(i in sp[f][1], "path %d: sample %d predicted by a model not tested on it", pi, i)
            need(i not in sp[f][0], "path %d: sample %d predicted in sample", pi, i)
            need(row[c["label"]] == i % 3 - 1.0 and row["info"] == i * 10.0, "path %d: sample %d has the targets of another sample", pi, i)
            pr = (i + 1 + (f + 1) * 31 % 7) / 1000.0
            need(abs(row["max_proba"] - max(pr, 1 - pr)) < 1e-12, "path %d: wrong probability for sample %d", pi, i)
            need((f, i) not in used, "prediction of sample %d by split %d is used in two paths", i, f)
            used.add((f, i))
