"""K01-K03: structural break tests."""
from .core import *
from mizarlabs.structural_breaks import cusum_chu_stinchcome_white as cs
from mizarlabs.structural_breaks import sdfc, sadf


def gen_k01(rng, k):
    n = int(rng.integers(2, 22))
    if rng.random() < .5:
        x = np.cumsum(rng.integers(-2, 3, n)).astype(float)
        if n > 1 and x[1] == x[0]:
            x[1:] += 1
    else:
        x = np.cumsum(rng.normal(0, 1, n)).round(3)
    return dict(x=[float(v) for v in x], side=pick(rng, [cs.ONE_SIDED_POSITIVE, cs.ONE_SIDED_NEGATIVE, cs.TWO_SIDED]), t=incr(rng, n))


@check("K01", "formula", gen_k01)
def chk_k01(c):
    s = pd.Series(c["x"], index=times(c["t"]))
    out = cs.ChuStinchcombeWhiteStatTest(c["side"]).run(s)
    need([mins(t) for t in out.index] == c["t"][1:], "index")
    x = c["x"]
    for t in range(2, len(x) + 1):
        sig = sum((x[i] - x[i - 1]) ** 2 for i in range(1, t)) / (t - 1)
        if sig == 0:
            raise Skip()
        vals = []
        for n in range(1, t):
            d = x[t - 1] - x[n - 1]
            d = d if c["side"] == cs.ONE_SIDED_POSITIVE else -d if c["side"] == cs.ONE_SIDED_NEGATIVE else abs(d)
            vals.append(d / math.sqrt(sig * (t - n)))
        m = max(vals)
        same([out["statistic"].iloc[t - 2]], [m], "statistic at %d" % t, 1e-9, 1e-12)
        tops = [n for n, v in enumerate(vals, 1) if abs(v - m) <= 1e-9 * max(1, abs(m))]
        # exact ties only (powers of four apart, exact differences)
        if len(tops) > 1:
            if any(v != int(v) for v in x):
                continue
            base = t - tops[0]
            if m != 0 and any(math.log(base / (t - n), 4) % 1 for n in tops):
                continue
        same([out["critical_value"].iloc[t - 2]], [math.sqrt(4.6 + math.log(t - tops[0]))], "critical value at %d" % t, 1e-9)


def gen_k01_bad(rng, k):
    return dict(side=pick(rng, ["two-sided", "", "positive", "ONE_SIDED_POSITIVE"]))


@check("K01", "rejects", gen_k01_bad)
def chk_k01_bad(c):
    try:
        cs.ChuStinchcombeWhiteStatTest(c["side"])
    except AssertionError:
        return
    fail("unknown side test accepted")


def gen_k02(rng, k):
    m = int(rng.integers(2, 6)); n = int(2 * m + rng.integers(1, 20))
    return dict(m=m, x=[float(v) for v in (20 + np.cumsum(rng.normal(0, 1, n))).round(3)], t=incr(rng, n))


def ols_t(X, y, col):
    X = np.asarray(X, dtype=float); y = np.asarray(y, dtype=float)
    q, r = np.linalg.qr(X)
    b = np.linalg.solve(r, q.T @ y)
    e = y - X @ b
    ri = np.linalg.inv(r)
    var = (e @ e) / (X.shape[0] - X.shape[1]) * (ri @ ri.T)
    return b[col] / math.sqrt(var[col, col])


@check("K02", "formula", gen_k02)
def chk_k02(c):
    s = pd.Series(c["x"], index=times(c["t"]))
    out = sdfc.SupremumDickeyFullerChowStatTest(c["m"]).run(s)
    x = np.array(c["x"]); n = len(x); m = c["m"]
    need([mins(t) for t in out.index] == c["t"][m:n - m], "index")
    dy = x[1:] - x[:-1]; lag = x[:-1]
    want = []
    for b in range(m, n - m):
        D = np.array([1.0 if p >= b else 0.0 for p in range(n - 1)])
        want.append(ols_t((lag * D)[:, None], dy, 0))
    same(out.values, want, "statistics", 1e-6, 1e-8)


MODELS = ["no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power"]


def gen_k03(rng, k):
    model = MODELS[k % 7] if k < 21 else pick(rng, MODELS)
    lags = pick(rng, [0, 1, 2, 3, [1], [2], [1, 3]])
    mx = lags if isinstance(lags, int) else max(lags)
    m = int(max(mx + 1, 9) + rng.integers(0, 3))
    n = int(m + mx + 2 + rng.integers(0, 8))
    x = 50 + np.cumsum(rng.normal(.1, 1, n)).round(3)
    return dict(model=model, lags=lags, m=m, const=bool(rng.random() < .5), phi=float(pick(rng, [0, .25, .5, 1])), x=[float(v) for v in x], t=incr(rng, n))


def design(c):
    x = np.array(c["x"]); n = len(x)
    if c["model"] in ("no_trend", "linear", "quadratic"):
        lags = list(range(1, c["lags"] + 1)) if isinstance(c["lags"], int) else c["lags"]
        mx = max(lags) if lags else 0
        rows = list(range(1 + mx, n))
        X = []
        for p, t in enumerate(rows, 1):
            r = [x[t - 1]] + [x[t - l] - x[t - l - 1] for l in lags]
            if c["model"] != "no_trend":
                r.append(p)
            if c["model"] == "quadratic":
                r.append(p * p)
            if c["const"]:
                r.append(1)
            X.append(r)
        return rows, np.array(X, dtype=float), np.array([x[t] - x[t - 1] for t in rows])
    rows = list(range(n)); tr = np.arange(1, n + 1, dtype=float)
    y = x if c["model"] == "sm_poly_1" else np.log(x)
    cols = {"sm_poly_1": [tr ** 2, np.ones(n), tr], "sm_poly_2": [tr ** 2, np.ones(n), tr], "sm_exp": [tr, np.ones(n)], "sm_power": [np.log(tr), np.ones(n)]}[c["model"]]
    return rows, np.column_stack(cols), y


@check("K03", "formula", gen_k03)
def chk_k03(c):
    if c["lags"] == 0 and c["model"] in ("no_trend", "linear", "quadratic"):
        raise Skip()   # without lags the implementation has no lag frame
    s = pd.Series(c["x"], index=times(c["t"]))
    out = sadf.SupremumAugmentedDickeyFullerStatTest(c["model"], c["lags"], c["m"], c["const"], c["phi"]).run(s)
    rows, X, y = design(c)
    need([mins(t) for t in out.index] == [c["t"][r] for r in rows[c["m"]:]], "index")
    want = []
    for e in range(c["m"], len(rows)):
        vals = []
        for st in range(0, e + 1 - c["m"] + 1):
            v = ols_t(X[st:e + 1], y[st:e + 1], 0)
            if c["model"].startswith("sm"):
                t, t0 = e + 1, st + 1
                v = abs(v) / (t - t0) ** c["phi"]
            vals.append(v)
        want.append(max(vals))
    same(out.values, want, "statistics (%s)" % c["model"], 1e-4, 1e-5)


def gen_k03_bad(rng, k):
    return dict(model=pick(rng, ["", "lin", "sm"]), phi=float(pick(rng, [-.1, 1.1, .5])), m=int(rng.integers(1, 3)))


@check("K03", "rejects", gen_k03_bad)
def chk_k03_bad(c):
    s = pd.Series(np.arange(1., 30) ** 1.1, index=times(list(range(29))))
    try:
        sadf.SupremumAugmentedDickeyFullerStatTest(c["model"], 2, c["m"], True, c["phi"]).run(s)
    except (AssertionError, ValueError):
        return
    fail("unknown model, penalty outside [0, 1] or too short minimum length accepted")
