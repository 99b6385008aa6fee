"""S01, L01-L04: sampling and labelling."""
from .core import *
from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
from mizarlabs.transformers.targets import labeling as lb
from mizarlabs.transformers.targets import trend_scanning as tsn

EV = "event_end_time"


# ---------------------------------------------------------------- S01
def gen_cusum(rng, k):
    n = int(rng.integers(1, 30))
    x = np.cumsum(rng.integers(-4, 5, n)) / 4.0
    if rng.random() < .3:
        x = np.cumsum(rng.normal(0, 1, n).round(3))
    return dict(t=incr(rng, n), x=[float(v) for v in x], h=float(pick(rng, [0, .5, 1, 1.5, 2, 3, float(rng.uniform(0, 3))])))


@check("S01", "recurrence", gen_cusum)
def chk_cusum(c):
    X = pd.Series(c["x"], index=times(c["t"]))
    got = [mins(t) for t in CUSUMFilter(c["h"]).transform(X)]
    x = [Fraction(v) for v in c["x"]]; h = Fraction(c["h"])
    exact = all((v * 8).denominator == 1 for v in x)
    up = dn = Fraction(0); want = []
    for i in range(1, len(x)):
        d = x[i] - x[i - 1]
        up = max(Fraction(0), up + d); dn = min(Fraction(0), dn + d)
        if not exact and (abs(up - h) < 1e-9 or abs(dn + h) < 1e-9):
            raise Skip()
        if dn < -h:
            dn = Fraction(0); want.append(c["t"][i])
        elif up > h:
            up = Fraction(0); want.append(c["t"][i])
    need(got == want, "selected %s, expected %s", got, want)
    # prefixes select the same times
    m = len(c["x"]) // 2
    if m >= 1:
        pre = [mins(t) for t in CUSUMFilter(c["h"]).transform(X.iloc[:m])]
        need(pre == [t for t in want if t <= c["t"][m - 1]], "the selection on the first %d values changed", m)


# ---------------------------------------------------------------- L03
def vol_oracle(t, p, span):
    n = len(t); ret = [None] * n
    for i in range(n):
        js = [j for j in range(n) if t[j] < t[i] - 1440]
        if js:
            ret[i] = p[i] / p[js[-1]] - 1
    a = 2.0 / (span + 1)
    out = [float("nan")] * n; rs = []
    for i in range(n):
        if ret[i] is None:
            continue
        rs.append(ret[i]); m = len(rs)
        w = np.array([(1 - a) ** (m - 1 - k) for k in range(m)]); r = np.array(rs)
        mu = (w * r).sum() / w.sum()
        var = (w * (r - mu) ** 2).sum() / w.sum()
        num, den = w.sum() ** 2, w.sum() ** 2 - (w ** 2).sum()
        out[i] = math.sqrt(max(var, 0) * num / den) if m > 1 and den > 0 else float("nan")
    return ret, out


def gen_vol(rng, k):
    n = int(rng.integers(1, 26))
    st = pick(rng, [(60, 300), (480, 480), (1440, 1440), (100, 3000), (1400, 1500), (720, 1440)])
    t = incr(rng, n, st[0], st[1])
    p = [float(v) for v in (100 * np.exp(np.cumsum(rng.normal(0, .05, n)))).round(3)]
    return dict(t=t, p=p, span=int(pick(rng, [1, 2, 5, 20, 100])))


@check("L03", "formula", gen_vol, 2)
def chk_vol(c):
    s = pd.Series(c["p"], index=times(c["t"]))
    got = lb.get_daily_vol(s, c["span"])
    ret, want = vol_oracle(c["t"], c["p"], c["span"])
    need(set(mins(t) for t in got.index) <= set(c["t"]), "volatility at times that are not in the series")
    same(got.reindex(s.index).values, want, "daily volatility", 1e-6, 1e-8)


@check("L03", "causal", gen_vol)
def chk_vol_causal(c):
    n = len(c["p"]); m = (n + 1) // 2
    s = pd.Series(c["p"], index=times(c["t"]))
    p2 = c["p"][:m] + [v * 1.7 + 3 for v in c["p"][m:]]
    a = lb.get_daily_vol(s, c["span"]).reindex(s.index).values[:m]
    b = lb.get_daily_vol(pd.Series(p2, index=s.index), c["span"]).reindex(s.index).values[:m]
    same(b, a, "volatility before a change of later closes", 1e-12, 0)
    s3 = s.iloc[:m]
    same(lb.get_daily_vol(s3, c["span"]).reindex(s3.index).values, a, "volatility of the first bars alone", 1e-12, 0)


# ---------------------------------------------------------------- L01 / L02
POW = [1.0, 2.0, 4.0, 8.0]


def gen_tb(rng, k):
    n = int(rng.integers(2, 18))
    c = dict(exp=int(rng.integers(1, 7)), meta=bool(rng.random() < .4), label0=bool(rng.random() < .4))
    if rng.random() < .6:   # exact arithmetic, ties on the barriers
        c["vol"] = False
        c["t"] = incr(rng, n, 1, pick(rng, [1, 100]))
        c["p"] = [float(pick(rng, [1, 2, 4, 8, 1, 2, 1.5, 3, 2.5, 5, 1.25, .5, 6])) for _ in range(n)]
        f = [0, .25, .5, 1, 2, .75]
    else:
        c["vol"] = True
        st = pick(rng, [(200, 600), (700, 1500), (1440, 1440)])
        c["t"] = incr(rng, n, st[0], st[1])
        c["p"] = [float(v) for v in (100 * np.exp(np.cumsum(rng.normal(0, .05, n)))).round(3)]
        f = [0, .3, .7, 1.3, 2.1]
    c["pt"], c["sl"] = float(pick(rng, f)), float(pick(rng, f))
    c["window"] = int(pick(rng, [2, 5, 100]))
    c["side"] = None
    if c["meta"] or rng.random() < .3:
        c["side"] = [float(pick(rng, [1, -1, 1, -1, 0])) for _ in range(n)]
    c["cols"] = pick(rng, [["close", "side"], ["close", "side"], ["px", "dir"]])
    return c


def tb_oracle(c):
    """Exact: (end position or None, return, label, vol) per bar."""
    n = len(c["p"]); p = [Fraction(v) for v in c["p"]]
    vol = [1.0] * n if not c["vol"] else vol_oracle(c["t"], c["p"], c["window"])[1]
    res = []
    for i in range(n):
        if math.isnan(vol[i]):
            res.append((None, None, None)); continue
        side = Fraction(1 if c["side"] is None else c["side"][i])
        exp = i + c["exp"] if i + c["exp"] < n else None
        lim = exp if exp is not None else n - 1
        hit = None
        for j in range(i, lim):
            r = (p[j] / p[i] - 1) * side
            up, dn = Fraction(c["pt"]) * Fraction(vol[i]), -Fraction(c["sl"]) * Fraction(vol[i])
            for thr, on in ((up, c["pt"] > 0), (dn, c["sl"] > 0)):
                if on and abs(r - thr) < 1e-7:
                    if c["vol"] or (p[i] not in POW):
                        raise Skip()     # not decided in floating point
            if (c["pt"] > 0 and r > up) or (c["sl"] > 0 and r < dn):
                hit = j; break
        end = hit if hit is not None else exp
        if end is None:
            res.append((None, None, None)); continue
        ret = p[end] / p[i] - 1
        if c["meta"]:
            ret *= side
            lab = 1.0 if ret > 0 else 0.0 if ret < 0 else None
        else:
            lab = float((ret > 0) - (ret < 0))
        if c["label0"] and hit is None:
            lab = 0.0
        res.append((end, float(ret), lab))
    return vol, res


def run_tb(c):
    cn, sn = c["cols"]
    df = pd.DataFrame({cn: c["p"]}, index=times(c["t"]))
    if c["side"] is not None:
        df[sn] = c["side"]
    m = lb.TripleBarrierMethodLabeling(c["exp"], c["pt"], c["sl"], metalabeling=c["meta"], close_column_name=cn, side_column_name=sn,
        volatility_window=c["window"], volatility_adjusted_horizontal_barriers=c["vol"], expiration_label=c["label0"])
    return m.fit(df).transform(df)


@check("L01", "end_times", gen_tb, 3)
def chk_tb_end(c):
    vol, want = tb_oracle(c)
    if c["vol"] and all(math.isnan(v) for v in vol) and len(want) < 2:
        raise Skip()
    out = run_tb(c)
    need([mins(t) for t in out.index] == c["t"], "index changed")
    got = [None if pd.isna(t) else c["t"].index(mins(t)) for t in out[EV]]
    need(got == [w[0] for w in want], "events end at bars %s, expected %s", got, [w[0] for w in want])
    same(out["daily_vol"].values, vol, "volatility column", 1e-6, 1e-8)


@check("L02", "labels", gen_tb, 3)
def chk_tb_lab(c):
    vol, want = tb_oracle(c)
    out = run_tb(c)
    got = [None if pd.isna(t) else c["t"].index(mins(t)) for t in out[EV]]
    nan = float("nan")
    # returns and labels are those of the reported end
    for i, e in enumerate(got):
        r, l = out["return"].iloc[i], out["label"].iloc[i]
        if e is None:
            need(math.isnan(r) and math.isnan(l), "bar %d has no event but return %s and label %s", i, r, l)
            continue
        ret = Fraction(c["p"][e]) / Fraction(c["p"][i]) - 1
        if c["meta"]:
            ret *= Fraction(c["side"][i])
        same([r], [float(ret)], "return of bar %d" % i, 1e-9, 1e-12)
    same(out["label"].values, [nan if w[2] is None else w[2] for w in want], "labels", 0, 0)
    same(out["return"].values, [nan if w[1] is None else w[1] for w in want], "returns", 1e-9, 1e-12)


def gen_tbl(rng, k):
    c = gen_tb(rng, k); c["vol"] = False; c["meta"] = False; c["label0"] = False; c["cols"] = ["close", "side"]
    c["p"] = [float(pick(rng, [1, 2, 4, 8, 1.5, 3, 2.5, 5])) for _ in c["p"]]
    c["v"] = [float(pick(rng, [0.25, .5, 1, 2])) for _ in c["p"]]
    n = len(c["p"])
    c["e"] = [None if rng.random() < .2 else int(rng.integers(i, n)) for i in range(n)]
    return c


@check("L01", "barrier_frame", gen_tbl)
def chk_tbl(c):
    """triple_barrier_labeling with arbitrary expirations and volatilities."""
    n = len(c["p"]); idx = times(c["t"])
    side = [1.0] * n if c["side"] is None else c["side"]
    info = pd.DataFrame({EV: pd.Series([pd.NaT if e is None else idx[e] for e in c["e"]], index=idx, dtype="datetime64[ns]"), "daily_vol": c["v"], "side": side}, index=idx)
    out = lb.triple_barrier_labeling(pd.Series(c["p"], index=idx), info, c["pt"], c["sl"])
    p = [Fraction(v) for v in c["p"]]
    for name, on, cmp in (("profit_taking", c["pt"] > 0, lambda r, v: r > Fraction(c["pt"]) * v), ("stop_loss", c["sl"] > 0, lambda r, v: r < -Fraction(c["sl"]) * v)):
        for i in range(n):
            lim = n - 1 if c["e"][i] is None else c["e"][i]
            want = None
            if on:
                for j in range(i, lim):
                    r = (p[j] / p[i] - 1) * Fraction(side[i]); v = Fraction(c["v"][i])
                    thr = Fraction(c["pt"]) * v if name == "profit_taking" else -Fraction(c["sl"]) * v
                    if p[i] not in POW and abs(r - thr) < 1e-9:
                        raise Skip()
                    if cmp(r, v):
                        want = c["t"][j]; break
            g = out[name].iloc[i]
            got = None if pd.isna(g) else mins(g)
            need(got == want, "%s of bar %d first touched at %s, expected %s", name, i, got, want)


# ---------------------------------------------------------------- L04
def tval(y):
    n = len(y); x = np.arange(n, dtype=float)
    xm, ym = x.mean(), y.mean()
    sxx = ((x - xm) ** 2).sum(); b = ((x - xm) * (y - ym)).sum() / sxx
    a = ym - b * xm
    s2 = ((y - a - b * x) ** 2).sum() / (n - 2)
    return b / math.sqrt(s2 / sxx)


def gen_trend(rng, k):
    m = int(rng.integers(3, 7)); L = int(m + rng.integers(1, 9)); step = int(pick(rng, [1, 1, 2, 3, 5]))
    out = dict(m=m, L=L, step=step, series=[], ev=None)
    for _ in range(1 if rng.random() < .6 else 2):
        n = int(rng.integers(1, 2 * L + 4))
        y = (50 + np.cumsum(rng.normal(pick(rng, [0, .3, -.3]), 1, n))).round(3)
        out["series"].append(dict(t=incr(rng, n, 1, 5, int(rng.integers(0, 1000))), y=[float(v) for v in y]))
    if rng.random() < .4 and len(out["series"]) == 1:
        n = len(out["series"][0]["y"])
        out["ev"] = sorted(int(x) for x in rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
    return out


@check("L04", "scan", gen_trend, 2)
def chk_trend(c):
    ev = None
    if c["ev"] is not None:
        ev = times(c["series"][0]["t"]).values[c["ev"]]
    lab = tsn.TrendScannerLabeling(t_events=ev, look_forward_window=c["L"], min_sample_length=c["m"], step=c["step"])
    seq = c["series"] + ([c["series"][0]] if len(c["series"]) > 1 else [])
    outs = [lab.transform(pd.Series(s["y"], index=times(s["t"]))) for s in seq]
    for s, out in zip(seq, outs):
        n = len(s["y"]); y = np.array(s["y"])
        evs = list(range(n)) if c["ev"] is None else c["ev"]
        need([mins(t) for t in out.index] == [s["t"][i] for i in evs], "wrong index")
        for pos, i in enumerate(evs):
            r = out.iloc[pos]
            if i + c["L"] > n:
                need(pd.isna(r[EV]) and pd.isna(r["t_value"]) and pd.isna(r["return"]) and pd.isna(r["label"]), "event %d lacks data but has a result", i)
                continue
            tv = [(w, tval(y[i:i + w])) for w in range(c["m"], c["L"], c["step"])]
            if not all(abs(t) < 1e6 for _, t in tv):
                continue  # an exact line: the t-value is a quotient by rounding error
            best = max(abs(t) for _, t in tv)
            tops = [(w, t) for w, t in tv if abs(t) >= best * (1 - 1e-7)]
            if len(tops) > 1:
                continue
            w, t = tops[0]
            same([r["t_value"]], [t], "t-value of event %d" % i, 1e-5)
            need(mins(r[EV]) == s["t"][i + w - 1], "event %d ends at %s, expected the last bar of the window of %d", i, r[EV], w)
            same([r["return"]], [y[i + w - 1] / y[i] - 1], "return of event %d" % i, 1e-9, 1e-12)
            need(r["label"] == np.sign(t), "label of event %d", i)
