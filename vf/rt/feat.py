"""F01-F08: features."""
from .core import *
from mizarlabs.transformers.microstructural_features.first_generation import RollMeasure, RollImpact, ParkinsonVolatility, CorwinSchultzSpread, BeckersParkinsonVolatility
from mizarlabs.transformers.microstructural_features.second_generation import KyleLambda, AmihudLambda, HasbrouckLambda
from mizarlabs.transformers.microstructural_features.vpin import VPIN
from mizarlabs.transformers.features.rolling_z_score import RollingZScoreTransformerFactory, RollingZScoreTransformer
from mizarlabs.transformers.features.custom import LocalMaxToCloseRatio
from mizarlabs.transformers.technical.moving_average import MovingAverageCrossOver, MovingAverageCrossOverPredictor, ExponentialWeightedMovingAverageDifference
from mizarlabs.transformers.technical.volume import BuySellImbalance
from mizarlabs.transformers.technical.macd import MACDHistogramCrossOver
from mizarlabs.transformers.technical.rsi import RSIConfirmation, BarArrivalRSIStrategy
from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
from mizarlabs.transformers.technical.factory import TAFactory
from mizarlabs.transformers.targets.labeling import get_daily_vol

NAN = float("nan")


def gen_bars(rng, n, lo=1, hi=50):
    c = np.round(100 * np.exp(np.cumsum(rng.normal(0, .03, n))), 3)
    h = np.round(c * (1 + rng.uniform(0, .05, n)), 3)
    l = np.round(c * (1 - rng.uniform(0, .05, n)), 3)
    if rng.random() < .3:      # flat bars
        j = rng.random(n) < .5
        h = np.where(j, c, h); l = np.where(j, c, l)
    b = rng.integers(0, 50, n); s = rng.integers(0, 50, n)
    if rng.random() < .3:
        z = rng.random(n) < .5
        b = np.where(z, 0, b); s = np.where(z, 0, s)
    u, v = pick(rng, [1.0, 1.0, 2.0 ** -7, 2.0 ** -3]), pick(rng, [1, 1, 1, 2.0 ** -14, 2.0 ** -6, 2.0 ** -2, 2.0 ** 6])      # several scales, exact
    if u != 1 or v != 1:
        return dict(t=incr(rng, n, lo, hi), close=[float(x) * u for x in c], high=[float(x) * u for x in h], low=[float(x) * u for x in l],
                    bb=[int(x) * v for x in b], bs=[int(x) * v for x in s], q=[float(x) * u * v for x in np.round(c * (b + s + 1), 2)], nt=[int(x) for x in rng.integers(1, 20, n)])
    return dict(t=incr(rng, n, lo, hi), close=[float(x) for x in c], high=[float(x) for x in h], low=[float(x) for x in l],
                bb=[int(x) for x in b], bs=[int(x) for x in s], q=[float(x) for x in np.round(c * (b + s + 1), 2)], nt=[int(x) for x in rng.integers(1, 20, n)])


def frame(b, names=None):
    d = dict(close=b["close"], high=b["high"], low=b["low"],
             base_asset_volume=[float(x + y) for x, y in zip(b["bb"], b["bs"])], base_asset_buy_volume=[float(x) for x in b["bb"]], base_asset_sell_volume=[float(x) for x in b["bs"]],
             quote_asset_volume=b["q"], quote_asset_buy_volume=[q * x / (x + y + 1) for q, x, y in zip(b["q"], b["bb"], b["bs"])],
             quote_asset_sell_volume=[q * y / (x + y + 1) for q, x, y in zip(b["q"], b["bb"], b["bs"])],
             num_buy_ticks=b["nt"])
    df = pd.DataFrame(d, index=times(b["t"]))
    df["open"] = df["close"].shift(1).fillna(df["close"].iloc[0]) if len(df) else df["close"]
    return df


def gen_win(rng, k):
    n = int(rng.integers(1, 30))
    return dict(b=gen_bars(rng, n), w=int(pick(rng, [1, 2, 2, 3, 4, 5, 8, 20])))


def win(x, i, w):
    """the last w values up to i, or None if there are fewer or some are missing"""
    if i - w + 1 < 0:
        return None
    v = [float(a) for a in x[i - w + 1:i + 1]]
    return None if any(math.isnan(a) for a in v) else v


def rmean(x, w):
    return [NAN if win(x, i, w) is None else math.fsum(win(x, i, w)) / w for i in range(len(x))]


def diff(x):
    return [NAN] + [x[i] - x[i - 1] for i in range(1, len(x))]


def log(x):
    return [math.log(v) for v in x]


def col(a, n, what="output"):
    a = np.asarray(a)
    need(a.shape == (n, 1), "%s has shape %s, expected (%d, 1)", what, a.shape, n)
    return a[:, 0].astype(float)


def roll_oracle(c, w):
    d = diff(c); lag = [NAN] + d[:-1]; out = []
    for i in range(len(c)):
        a, b = win(d, i, w), win(lag, i, w)
        if a is None or b is None or w < 2:
            out.append(NAN); continue
        ma, mb = math.fsum(a) / w, math.fsum(b) / w
        cov = math.fsum((x - ma) * (y - mb) for x, y in zip(a, b)) / (w - 1)
        out.append(2 * math.sqrt(abs(cov)))
    return out


@check("F01", "roll", gen_win)
def chk_roll(c):
    df = frame(c["b"]); n = len(df)
    want = np.array(roll_oracle(c["b"]["close"], c["w"]))
    got = col(RollMeasure(c["w"]).transform(df), n)
    # the square root amplifies the rounding of a covariance near zero
    same(got ** 2, want ** 2, "squared Roll measure", 1e-6, 1e-8)
    same(got, want, "Roll measure", 1e-6, 1e-4)
    q = np.array(c["b"]["q"])
    same(col(RollImpact(c["w"]).transform(df), n), got / q, "Roll impact", 1e-9, 1e-12)
    g2 = RollMeasure(c["w"], close_column_name="high").transform(df)
    same(g2[:, 0], roll_oracle(c["b"]["high"], c["w"]), "Roll measure of another column", 1e-6, 1e-4)


@check("F01", "parkinson", gen_win)
def chk_park(c):
    df = frame(c["b"]); n = len(df); w = c["w"]; H, L = c["b"]["high"], c["b"]["low"]
    x = [math.log(h / l) ** 2 / (4 * math.log(2)) for h, l in zip(H, L)]
    same(col(ParkinsonVolatility(w).transform(df), n), rmean(x, w), "Parkinson volatility", 1e-7, 1e-13)
    df2 = df.rename(columns={"high": "a", "low": "b"})
    same(col(ParkinsonVolatility(w, "a", "b").transform(df2), n), rmean(x, w), "Parkinson volatility (renamed)", 1e-7, 1e-13)


@check("F01", "corwin_schultz", gen_win, 2)
def chk_cs(c):
    df = frame(c["b"]); n = len(df); w = c["w"]; H, L = c["b"]["high"], c["b"]["low"]
    x = [math.log(h / l) ** 2 for h, l in zip(H, L)]
    beta = rmean([NAN] + [x[i - 1] + x[i] for i in range(1, n)], w)
    gamma = [NAN] + [math.log(max(H[i - 1], H[i]) / min(L[i - 1], L[i])) ** 2 for i in range(1, n)]
    den = 3 - 2 * math.sqrt(2); k2 = math.sqrt(8 / math.pi)
    sp, bp = [], []
    for b, g in zip(beta, gamma):
        if math.isnan(b) or math.isnan(g):
            sp.append(NAN); bp.append(NAN); continue
        b = max(b, 0)
        al = max(0.0, (math.sqrt(2) - 1) * math.sqrt(b) / den - math.sqrt(g / den))
        sp.append(2 * (math.exp(al) - 1) / (1 + math.exp(al)))
        bp.append(max(0.0, (2 ** -.5 - 1) * math.sqrt(b) / (k2 * den) + math.sqrt(g / (k2 ** 2 * den))))
    a = col(CorwinSchultzSpread(w).transform(df), n); b_ = col(BeckersParkinsonVolatility(w).transform(df), n)
    same(a, sp, "Corwin-Schultz spread", 1e-6, 1e-6)
    same(b_, bp, "Beckers-Parkinson volatility", 1e-6, 1e-6)
    need(not (a < 0).any() and not (b_ < 0).any(), "a clipped estimator is negative")


@check("F02", "lambdas", gen_win, 2)
def chk_lam(c):
    b = dict(c["b"]); least = min([x for x in b["bb"] + b["bs"] if x > 0] + [1]); b["bb"] = [x + least for x in b["bb"]]
    df = frame(b); n = len(df); w = c["w"]; p = b["close"]; v = [x + y for x, y in zip(b["bb"], b["bs"])]; q = b["q"]
    lc = diff(log(p))
    ky = rmean([abs(d) / x for d, x in zip(diff(p), v)], w)
    am = rmean([abs(d) / x for d, x in zip(lc, q)], w)
    ha = rmean([abs(d) / math.sqrt(x) for d, x in zip(lc, q)], w)
    for nm, tr, want in (("Kyle lambda", KyleLambda(w), ky), ("Amihud lambda", AmihudLambda(w), am), ("Hasbrouck lambda", HasbrouckLambda(w), ha)):
        got = col(tr.transform(df), n)
        same(got, want, nm, 1e-6, 1e-11)
        need(not (got < -1e-12).any(), "%s is negative", nm)
    df2 = df.rename(columns={"close": "c", "base_asset_volume": "v", "quote_asset_volume": "u"})
    same(col(KyleLambda(w, "c", "v").transform(df2), n), ky, "Kyle lambda (renamed)", 1e-6, 1e-11)
    same(col(AmihudLambda(w, "c", "u").transform(df2), n), am, "Amihud lambda (renamed)", 1e-6, 1e-11)
    same(col(HasbrouckLambda(w, "c", "u").transform(df2), n), ha, "Hasbrouck lambda (renamed)", 1e-6, 1e-11)


@check("F03", "vpin", gen_win)
def chk_vpin(c):
    df = frame(c["b"]); n = len(df); w = c["w"]; b = c["b"]
    got = col(VPIN(w).transform(df), n)
    want = []
    for i in range(n):
        if i < w - 1:
            want.append(NAN); continue
        num = sum(abs(b["bb"][j] - b["bs"][j]) for j in range(i - w + 1, i + 1)); den = sum(b["bb"][j] + b["bs"][j] for j in range(i - w + 1, i + 1))
        want.append(num / den if den else (NAN if i < w else 0.0))
    if n >= w and math.isnan(want[w - 1]):
        got[w - 1] = NAN    # first full window, undefined ratio: not specified
    same(got, want, "VPIN", 1e-9, 1e-12)
    ok = got[~np.isnan(got)]
    need(((ok >= 0) & (ok <= 1 + 1e-12)).all(), "VPIN outside [0, 1]")
    need(not np.isnan(got[w:]).any(), "missing VPIN after the warm-up")
    df2 = df.rename(columns={"base_asset_volume": "v", "base_asset_buy_volume": "b", "base_asset_sell_volume": "s"})
    g2 = col(VPIN(w, "v", "b", "s").transform(df2), n)
    same(g2[w:], got[w:], "VPIN (renamed columns)")


def gen_vpin_exact(rng, k):
    c = gen_win(rng, k)
    return c


@check("F04", "zscores", gen_win, 2)
def chk_z(c):
    df = frame(c["b"]); n = len(df); w = c["w"]; b = c["b"]
    stats = dict(
        bar_arrival_time=[NAN] + [(b["t"][i] - b["t"][i - 1]) * 60e9 for i in range(1, n)],
        buy_sell_diff=[float(x - y) for x, y in zip(df.quote_asset_buy_volume, df.quote_asset_sell_volume)],
        average_buy_size=[float(x / y) for x, y in zip(df.quote_asset_buy_volume, df.num_buy_ticks)],
        high_to_low_ratio=[h / l for h, l in zip(b["high"], b["low"])])
    for key, x in stats.items():
        got = col(RollingZScoreTransformerFactory.get_transformer(key, w).transform(df), n, key)
        for i in range(n):
            v = win(x, i, w)
            if v is None or w < 2:
                need(math.isnan(got[i]), "%s has a value on bar %d, without a full window of %d", key, i, w); continue
            mu = math.fsum(v) / w; sd = math.sqrt(math.fsum((a - mu) ** 2 for a in v) / (w - 1))
            if sd <= 1e-4 * max(abs(a) for a in v):
                continue
            z = (x[i] - mu) / sd
            need(abs(got[i] - z) <= 1e-5 * (1 + abs(z)), "%s z-score on bar %d is %r, expected %r", key, i, got[i], z)
    got = col(LocalMaxToCloseRatio(w).transform(df), n)
    same(got, [NAN if i < w - 1 else max(b["high"][i - w + 1:i + 1]) / b["close"][i] for i in range(n)], "local high ratio", 1e-9, 0)
    got = col(RollingZScoreTransformer(w, lambda d: d.close).transform(df), n)
    for i in range(n):
        need(math.isnan(got[i]) == (i < w - 1 or w < 2) or w < 2 or max(b["close"][i - w + 1:i + 1]) == min(b["close"][i - w + 1:i + 1]), "z-score of the close on bar %d: %r", i, got[i])


def gen_bad_key(rng, k):
    return dict(key=pick(rng, ["", "close", "bar_arrival", "Buy_sell_diff", "high_to_low", "average_sell_size"]), w=3)


@check("F04", "unknown", gen_bad_key)
def chk_key(c):
    try:
        RollingZScoreTransformerFactory.get_transformer(c["key"], c["w"])
    except KeyError:
        return
    fail("unknown statistic %r was accepted", c["key"])


def gen_cross(rng, k):
    n = int(rng.integers(1, 30))
    f = int(rng.integers(1, 6)); s = f + int(rng.integers(0, 5))
    return dict(t=incr(rng, n), p=[int(x) for x in rng.integers(1, pick(rng, [3, 4, 10]), n)], f=f, s=s, fill=bool(rng.random() < .5))


@check("F05", "signal", gen_cross, 2)
def chk_cross(c):
    n = len(c["p"]); f, s = c["f"], c["s"]
    df = pd.DataFrame({"close": [float(x) for x in c["p"]]}, index=times(c["t"]))
    ma = lambda w: [None if i < w - 1 else Fraction(sum(c["p"][i - w + 1:i + 1]), w) for i in range(n)]
    F, S = ma(f), ma(s); want = []; last = 0
    for i in range(n):
        x = 0
        if i and None not in (F[i], S[i], F[i - 1], S[i - 1]):
            if F[i] > S[i] and F[i - 1] <= S[i - 1]:
                x = 1
            elif F[i] < S[i] and F[i - 1] >= S[i - 1]:
                x = -1
        last = x or last
        want.append(last if c["fill"] else x)
    tr = MovingAverageCrossOver(f, s, "close", c["fill"])
    same(col(tr.transform(df), n), want, "crossover signal", 0, 0)
    pr = MovingAverageCrossOverPredictor(f, s, "close", c["fill"])
    same(np.asarray(pr.predict(df)), np.asarray(want, dtype=float), "crossover prediction", 0, 0)


def gen_fs(rng, k):
    s = int(rng.integers(1, 20)); return dict(s=s, f=s + int(rng.integers(1, 9)))


@check("F05", "rejects", gen_fs)
def chk_fs(c):
    for cl in (MovingAverageCrossOver, MovingAverageCrossOverPredictor):
        try:
            cl(c["f"], c["s"], "close")
        except ValueError:
            continue
        fail("%s accepted fast %d > slow %d", cl.__name__, c["f"], c["s"])


def gen_ew(rng, k):
    n = int(rng.integers(1, 30)); f = int(pick(rng, [1, 2, 5, 10])); s = f + int(pick(rng, [0, 1, 3, 20]))
    return dict(b=gen_bars(rng, n), f=f, s=s, norm=bool(rng.random() < .6), vt=pick(rng, ["quote", "base"]), moved=float(pick(rng, [0, 0, 0, 1, 2.5, 100])))


def ewm(x, span):
    a = 2 / (span + 1); num = den = 0.0; out = []
    for v in x:
        num = num * (1 - a) + v; den = den * (1 - a) + 1; out.append(num / den)
    return np.array(out)


@check("F06", "formulas", gen_ew, 2)
def chk_ew(c):
    df = frame(c["b"]); n = len(df)
    if c.get("moved"):          # any series, not only prices
        df["close"] = df["close"] - df["close"].iloc[0] - c["moved"]
    x = df["close"].values
    F, S = ewm(x, c["f"]), ewm(x, c["s"])
    if c["norm"] and (np.abs(F + 1) < 1e-6).any():
        raise Skip
    want = (F - S) / (F + 1) if c["norm"] else F - S
    same(col(ExponentialWeightedMovingAverageDifference(c["f"], c["s"], "close", c["norm"]).transform(df), n), want, "moving average difference", 1e-7, 1e-9)
    if c["norm"]:
        same(col(ExponentialWeightedMovingAverageDifference(c["f"], c["s"], "close").transform(df), n), want, "moving average difference (default)", 1e-7, 1e-9)
    v = c["vt"]; buy, sell, tot = (df[v + m].values for m in ("_asset_buy_volume", "_asset_sell_volume", "_asset_volume"))
    d = buy - sell
    for f, s in ((c["f"], c["s"]), (c["s"], c["f"])):
        same(col(BuySellImbalance(f, s, v).transform(df), n), (ewm(d, f) - ewm(d, s)) / (tot + 1), "imbalance", 1e-6, 1e-9)


@check("F06", "rejects", gen_fs)
def chk_ew_rej(c):
    try:
        ExponentialWeightedMovingAverageDifference(c["f"], c["s"], "close")
    except ValueError:
        pass
    else:
        fail("fast %d > slow %d was accepted", c["f"], c["s"])
    for v in ("", "both", "Quote", "quotebase"):
        try:
            BuySellImbalance(c["s"], c["f"], v)
        except ValueError:
            continue
        fail("volume type %r was accepted", v)


# ---------------------------------------------------------------- F07
class Predictions:
    """a predictor's predictions as a feature column"""
    def __init__(self, p):
        self.p = p

    def transform(self, X):
        return np.asarray(self.p.predict(X)).reshape(len(X), -1)


def transformers(w, f, s):
    ts_ = dict(roll=RollMeasure(w), roll_impact=RollImpact(w), parkinson=ParkinsonVolatility(w), corwin=CorwinSchultzSpread(w), beckers=BeckersParkinsonVolatility(w),
               kyle=KyleLambda(w), amihud=AmihudLambda(w), hasbrouck=HasbrouckLambda(w), vpin=VPIN(w), local=LocalMaxToCloseRatio(w),
               cross=MovingAverageCrossOver(f, s, "close"), cross_fill=MovingAverageCrossOver(f, s, "close", True),
               ewma=ExponentialWeightedMovingAverageDifference(f, s, "close"), ewma_raw=ExponentialWeightedMovingAverageDifference(f, s, "close", False),
               imb_q=BuySellImbalance(f, s, "quote"), imb_b=BuySellImbalance(f, s, "base"))
    for k in ("bar_arrival_time", "buy_sell_diff", "average_buy_size", "high_to_low_ratio"):
        ts_["z_" + k] = RollingZScoreTransformerFactory.get_transformer(k, w)
    for nm, pr in (("mean_reversion", MeanReversionStrategy(.01, max(2, w))), ("rsi_confirmation", RSIConfirmation(max(2, w), 55, f, max(1, s - f))), ("bar_arrival", BarArrivalRSIStrategy(90, 10, 3, -3, max(2, w), f, s + 1, 10 ** 9)),
                   ("crossover_predictor", MovingAverageCrossOverPredictor(f, s, "close", True))):
        ts_[nm] = Predictions(pr)
    ts_["macd"] = MACDHistogramCrossOver(f + 1, s + 2, 2)
    ts_["sma"] = TAFactory().create_transformer("SMA", "close", kw_args={"timeperiod": max(2, w)})
    ts_["atr"] = TAFactory().create_transformer("ATR", kw_args={"timeperiod": max(2, w)})
    return ts_


def gen_causal(rng, k):
    n = int(rng.integers(2, 40)); f = int(rng.integers(1, 5))
    return dict(b=gen_bars(rng, n, *pick(rng, [(1, 50), (200, 2000)])), b2=gen_bars(rng, n), m=int(rng.integers(1, n)), w=int(pick(rng, [1, 2, 3, 5, 8])), f=f, s=f + int(rng.integers(0, 5)))


@check("F07", "causal", gen_causal, 2)
def chk_causal(c):
    b = dict(c["b"]); least = min([x for x in b["bb"] + b["bs"] if x > 0] + [1]); b["bb"] = [x + least for x in b["bb"]]
    c2 = dict(c["b2"]); c2["bb"] = [x + 1 for x in c2["bb"]]; c2["t"] = b["t"]
    df, other, m = frame(b), frame(c2), c["m"]; n = len(df)
    changed = pd.concat([df.iloc[:m], other.iloc[m:]]); pre = df.iloc[:m]
    for name, tr in transformers(c["w"], c["f"], c["s"]).items():
        full = np.asarray(tr.transform(df)); need(full.ndim == 2 and full.shape[0] == n, "%s returned shape %s for %d bars", name, full.shape, n)
        a = np.asarray(tr.transform(changed)); p = np.asarray(tr.transform(pre))
        need(p.shape[0] == m, "%s returned %d rows for %d bars", name, p.shape[0], m)
        tol = 1e-9 if name not in ("roll", "roll_impact") else 1e-6
        for lab, z in (("later bars changed", a[:m]), ("only the first bars", p)):
            if not near(z, full[:m], 1e-9, tol * 1.0):
                fail("%s: value of an earlier bar depends on later bars (%s, %d of %d bars): %s", name, lab, m, n, first_diff(z, full[:m], 1e-9, tol))
    v = [get_daily_vol(d["close"], 20).reindex(d.index).values[:m] for d in (df, changed, pre)]
    same(v[1], v[0], "daily volatility with later bars changed", 1e-9, 1e-12)
    same(v[2], v[0], "daily volatility of the first bars", 1e-9, 1e-12)


# ---------------------------------------------------------------- F08
def gen_rule(rng, k):
    n = int(rng.integers(2, 50)); f = int(rng.integers(1, 5))
    return dict(b=gen_bars(rng, n), f=f, s=f + int(rng.integers(0, 4)), fill=bool(rng.random() < .5), tp=int(rng.integers(2, 6)), thr=float(pick(rng, [0, .001, .01, .05])), rsi=int(pick(rng, [20, 50, 80, 101])), cp=int(rng.integers(1, 4)), mw=int(rng.integers(1, 4)),
                lim=[float(pick(rng, [20, 50])), float(pick(rng, [55, 90])), float(pick(rng, [-.5, -2])), float(pick(rng, [.5, 2]))])


@check("F08", "one_hot", gen_rule, 2)
def chk_rule(c):
    df = frame(c["b"]); l = c["lim"]
    ps = dict(crossover=MovingAverageCrossOverPredictor(c["f"], c["s"], "close", c["fill"]), mean_reversion=MeanReversionStrategy(c["thr"], c["tp"]),
              rsi=RSIConfirmation(c["tp"], c["rsi"], c["cp"], c["mw"]), arrival=BarArrivalRSIStrategy(l[1], l[0], l[3], l[2], c["tp"], c["f"], c["s"] + 1, 60 * 10 ** 9))
    for name, p in ps.items():
        y = np.asarray(p.predict(df)).ravel(); q = np.asarray(p.predict_proba(df))
        cl = list(p.classes_)
        need(len(cl) == p.n_classes_ and sorted(set(cl)) == cl, "%s announces classes %s", name, cl)
        need(q.shape == (len(y), len(cl)), "%s: probabilities have shape %s for %d predictions", name, q.shape, len(y))
        need(len(y) == len(df), "%s: %d predictions for %d bars", name, len(y), len(df))
        for i, v in enumerate(y):
            need(v in cl, "%s predicts %r, not in %s", name, v, cl)
            want = [1.0 if v == k else 0.0 for k in cl]
            need(list(q[i]) == want, "%s: probabilities %s for prediction %r of classes %s", name, list(q[i]), v, cl)


# ---------------------------------------------------------------- F09
def gen_rules(rng, k):
    n = int(pick(rng, [2, 3, 8, 20, 60])); f = int(rng.integers(1, 6))
    b = gen_bars(rng, n, *pick(rng, [(1, 50), (1, 3), (20, 21)]))
    kind = pick(rng, ["any", "any", "any", "falling", "flat", "steps"])
    if kind != "any":
        b["close"] = [float(x) for x in (200 - np.arange(n) if kind == "falling" else np.full(n, 64.0) if kind == "flat" else 64 + (np.arange(n) // 4) % 3)]
        b["high"] = [x + 1 for x in b["close"]]; b["low"] = [x - 1 for x in b["close"]]
    return dict(b=b, f=f, s=int(rng.integers(1, 8)), tp=int(rng.integers(2, 6)), thr=float(pick(rng, [0, 0, .001, .01, .05])), rsi=float(pick(rng, [0, 20, 50, 60, 80, 100, 101])), cp=int(rng.integers(1, 4)), mw=int(rng.integers(1, 5)),
                lim=[float(pick(rng, [-1, 0, 20, 50])), float(pick(rng, [55, 90, 100, 101])), float(pick(rng, [0, -.5, -2])), float(pick(rng, [0, .5, 2]))], mx=float(pick(rng, [10 ** 9, 60 * 10 ** 9, -10 ** 9])), sig=int(rng.integers(1, 4)))


def over(a, b, exact=False):
    """a > b, or None if too close to call"""
    if a is None or b is None or math.isnan(a) or math.isnan(b):
        return False
    if (a == b) if exact else False:
        return False
    return None if abs(a - b) < 1e-9 * max(1, abs(b)) else a > b


def every(*v):
    return False if any(x is False for x in v) else None if any(x is None for x in v) else True


@check("F09", "mean_reversion", gen_rules)
def chk_mean_reversion(c):
    import talib
    df = frame(c["b"]); e = talib.EMA(df["close"].values.astype(float), timeperiod=c["tp"])
    got = np.asarray(MeanReversionStrategy(c["thr"], c["tp"]).predict(df)).ravel()
    need(len(got) == len(df), "%d predictions for %d bars", len(got), len(df))
    for i, x in enumerate(df["close"]):
        d = (x - e[i]) / e[i]
        hi, lo = over(d, c["thr"], d == 0), over(-d, c["thr"], d == 0)
        if hi is None or lo is None:
            continue
        need(got[i] == (-1 if hi else 1 if lo else 0), "mean reversion at bar %d: %r, close is %s of the average away, threshold %s", i, got[i], d, c["thr"])


@check("F09", "rsi_confirmation", gen_rules)
def chk_confirmation(c):
    import talib
    df = frame(c["b"]); r = [float(x) for x in talib.RSI(df["close"].values.astype(float), timeperiod=c["tp"])]
    got = np.asarray(RSIConfirmation(c["tp"], c["rsi"], c["cp"], c["mw"]).predict(df)).ravel()
    need(len(got) == len(df), "%d predictions for %d bars", len(got), len(df))
    m = rmean(r, c["mw"])
    for i in range(len(df)):
        w = win(r, i, c["cp"])
        below = w is not None and all(x < c["rsi"] for x in w)
        rise = over(m[i], m[i - 1]) if i else False
        want = every(below, rise)
        if want is not None:
            need(got[i] == (1 if want else 0), "RSI confirmation at bar %d: %r, RSIs %s below %s: %s, mean %s after %s", i, got[i], w, c["rsi"], below, m[i], m[i - 1] if i else None)


@check("F09", "bar_arrival", gen_rules)
def chk_arrival(c):
    import talib
    df = frame(c["b"]); r = [float(x) for x in talib.RSI(df["close"].values.astype(float), timeperiod=c["tp"])]; l = c["lim"]
    got = np.asarray(BarArrivalRSIStrategy(l[1], l[0], l[3], l[2], c["tp"], c["f"], c["s"], c["mx"]).predict(df)).ravel()
    need(len(got) == len(df), "%d predictions for %d bars", len(got), len(df))
    g = [NAN] + [float(x) for x in np.diff(df.index.values.astype("M8[ns]").astype("i8"))]
    a, b = rmean(g, c["f"]), rmean(g, c["s"])
    for i in range(len(df)):
        same_gaps = len(set(g[max(1, i - max(c["f"], c["s"]) + 1):i + 1])) <= 1
        d = (a[i] - b[i]) / c["mx"]
        want = every(r[i] > l[0], r[i] < l[1], over(l[3], d, same_gaps), over(d, l[2], same_gaps))
        if want is not None:
            need(got[i] == (1 if want else 0), "bar arrival at bar %d: %r, RSI %s in (%s, %s), difference %s in (%s, %s)", i, got[i], r[i], l[0], l[1], d, l[2], l[3])


@check("F09", "macd", gen_rules)
def chk_macd(c):
    import talib
    df = frame(c["b"]); f, s, g = c["f"] + 1, c["f"] + c["s"], c["sig"]
    if f > s:
        return
    df["other"] = df["close"].values[::-1] + 3.0
    for name in ("close", "other"):
        h = talib.MACD(df[name].values.astype(float), fastperiod=f, slowperiod=s, signalperiod=g)[2]
        sg = [NAN if math.isnan(x) else float(np.sign(x)) for x in h]
        want = [NAN] + [(sg[i] - sg[i - 1]) / 2 for i in range(1, len(sg))]
        m = MACDHistogramCrossOver(f, s, g, name) if name != "close" else MACDHistogramCrossOver(f, s, g)
        same(col(m.transform(df), len(df)), want, "MACD histogram crossover of %s" % name, 1e-12, 1e-12)
    try:
        MACDHistogramCrossOver(s + 1, s, g)
    except ValueError:
        return
    fail("a fast period %d longer than the slow one %d was accepted", s + 1, s)
