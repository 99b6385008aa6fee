"""P01-P05, R01, T01: strategy pipeline, no mutation, technical indicators."""
import copy, pickle
from .core import *
from . import feat, lab, boot, brk
from mizarlabs.model import pipeline as pl
from mizarlabs.model import model_selection as ms
from mizarlabs.model import bootstrapping as bs
from mizarlabs.transformers.trading import bet_sizing as bz
from mizarlabs.transformers.technical.factory import TAFactory
from mizarlabs.transformers.targets import labeling as lb
from mizarlabs.transformers.targets import trend_scanning as tsn
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness
from mizarlabs.transformers.sampling.down_sampling import CUSUMFilter
from mizarlabs.transformers.sample_weights import SampleWeightsByReturns, SampleWeightsByTimeDecay
from mizarlabs.structural_breaks import cusum_chu_stinchcome_white as cc, sadf, sdfc
from mizarlabs.transformers.technical.rsi import RSIConfirmation, BarArrivalRSIStrategy
from mizarlabs.transformers.technical.mean_reversion import MeanReversionStrategy
import talib

EV = "event_end_time"
NAN = float("nan")


class TableModel:
    """predicts a fixed function of the features' first columns"""
    def __init__(self, classes, w, bias=0.0):
        self.classes_ = np.array(classes); self.n_classes_ = len(classes); self.w = w; self.bias = bias
    def fit(self, X, y=None): return self
    def predict_proba(self, X):
        v = np.asarray(X, dtype=float)
        s = np.abs(np.sin(v.sum(axis=1, keepdims=True) * np.array(self.w) + np.arange(len(self.w)) + self.bias)) + .05
        return s / s.sum(axis=1, keepdims=True)
    def predict(self, X):
        # not the class of the largest probability: they are separate outputs
        v = np.asarray(X, dtype=float).sum(axis=1)
        return self.classes_[(np.floor(np.abs(v) * 3) % len(self.classes_)).astype(int)]


def mk(c, **kw):
    return pl.StrategySignalPipeline({k: None for k in c["frames"]}, c["on"], {k: h for k, h in c["how"].items()}, **kw)


def gen_frames(rng, k, nan=False):
    n = int(rng.integers(2, 12)) if rng.random() < .85 else int(rng.integers(30, 120)); st = pick(rng, [1, 3, 10])
    lead = incr(rng, n, 1, st, 10)
    fr = {}; how = {}
    names = ["lead", "a", "b"][:int(rng.integers(1, 4))]
    order = [names[i] for i in rng.permutation(len(names))]
    for nm in order:
        t = lead if nm == "lead" else incr(rng, int(rng.integers(1, 20)), 1, pick(rng, [1, 2, 6]), int(rng.integers(0, 16)))
        w = int(rng.integers(1, 4))
        v = [[float(x) for x in rng.integers(-40, 40, w) / 8.0] for _ in t]
        if nan and nm == "lead" and rng.random() < .5:
            for _ in range(2):
                v[int(rng.integers(len(v)))][0] = None
        fr[nm] = dict(t=t, v=v); how[nm] = pick(rng, ["mean", "min", "max"])
    return dict(frames=fr, on="lead", how=how)


def to_df(f, pre):
    return pd.DataFrame([[NAN if x is None else x for x in r] for r in f["v"]], index=times(f["t"]), columns=["%s%d" % (pre, j) for j in range(len(f["v"][0]))], dtype=float)


AGG = dict(mean=lambda c: math.fsum(c) / len(c), min=min, max=max)


def align_oracle(c):
    g = c["frames"][c["on"]]["t"]; out = {}
    for nm, f in c["frames"].items():
        v = [[NAN if x is None else x for x in r] for r in f["v"]]
        if nm == c["on"]:
            out[nm] = v; continue
        prev = None; last = [NAN] * len(v[0]); rows = []
        for t in g:
            sub = [r for s, r in zip(f["t"], v) if (prev is None or s > prev) and s <= t]
            if sub:
                last = [AGG[c["how"][nm]](x) for x in zip(*sub)]; prev = t
            rows.append(last)
        out[nm] = rows
    return out


def joined(c):
    al = align_oracle(c); n = len(c["frames"][c["on"]]["t"])
    return [sum((list(al[nm][i]) for nm in c["frames"]), []) for i in range(n)]


@check("P01", "align", lambda rng, k: gen_frames(rng, k), 2)
def chk_align(c):
    d = {k: to_df(f, k) for k, f in c["frames"].items()}
    g = c["frames"][c["on"]]["t"]
    y = pd.Series([1.0, 0.0, -1.0][0:1] * len(g), index=times(g))
    X, y2 = mk(c).create_dataset_primary(d, y, drop_na=False)
    need([mins(t) for t in X.index] == g, "aligned times %s, expected %s", [mins(t) for t in X.index], g)
    need(list(X.columns) == [x for k in c["frames"] for x in d[k].columns], "aligned columns %s", list(X.columns))
    same(X.values.astype(float), joined(c), "aligned features", 1e-12, 1e-12)
    for k, f in c["frames"].items():
        need(d[k].equals(to_df(f, k)), "the features given were modified")


# ---------------------------------------------------------------- P02
def gen_sig(rng, k):
    c = gen_frames(rng, k, nan=True)
    c["classes"] = pick(rng, [[-1.0, 0.0, 1.0], [-1.0, 1.0], [0.0, 1.0]])
    c["w"] = [float(x) for x in rng.integers(1, 9, len(c["classes"])) / 4.0]
    c["meta"] = bool(rng.random() < .6); c["sizer"] = bool(rng.random() < .5)
    c["bias"] = float(rng.integers(0, 9)) / 4
    # features of the metalabeling model: a subset of the frames
    c["mf"] = [x for x in c["frames"] if rng.random() < .6] or ["lead"]
    if "lead" not in c["mf"] and rng.random() < .5:
        c["mf"].append("lead")
    c["use_pred"] = bool(rng.random() < .5); c["use_proba"] = bool(rng.random() < .6)
    c["labels"] = [pick(rng, c["classes"] + [None]) for _ in c["frames"]["lead"]["t"]]
    c["sub"] = [bool(rng.random() < .8) for _ in c["labels"]]
    return c


def setup_sig(c, sizer=None):
    d = {k: to_df(f, k) for k, f in c["frames"].items()}
    # the feature frames of both models
    p = pl.StrategySignalPipeline({k: None for k in c["frames"]}, c["on"], c["how"],
                                  feature_transformers_metalabeling_model={k: None for k in c["mf"]} if c["meta"] else None,
                                  metalabeling_use_proba_primary_model=c["use_proba"], metalabeling_use_predictions_primary_model=c["use_pred"], bet_sizer=sizer)
    prim = TableModel(c["classes"], c["w"]); meta = TableModel([0.0, 1.0], [.7, 1.9], c["bias"])
    p.set_primary_model(prim)
    if c["meta"]:
        p.set_metalabeling_model(meta)
    return d, p, prim, meta


def isnan(v):
    return isinstance(v, float) and math.isnan(v)


def model_inputs(c):
    """rows of the primary and metalabeling models by time; None where the configuration is rejected"""
    g = c["frames"][c["on"]]["t"]; al = align_oracle(c)
    prim = {}
    for i, t in enumerate(g):
        r = sum((list(al[nm][i]) for nm in c["frames"]), [])
        if not any(isnan(x) for x in r):
            prim[t] = r
    meta = {}
    for i, t in enumerate(g):
        r = sum((list(al[nm][i]) for nm in c["mf"]), [])
        if not any(isnan(x) for x in r):
            meta[t] = r
    return prim, meta


def meta_rows(c, prim, meta, pm):
    """adds the primary outputs; rejected (None) when a needed prediction is missing"""
    ts_ = sorted(meta)
    out = {}
    for t in ts_:
        r = list(meta[t])
        if t not in prim:
            if c["use_proba"]:
                continue
            if c["use_pred"]:
                return None
        if c["use_pred"]:
            r = r + [float(pm.predict([prim[t]])[0])]
        if c["use_proba"]:
            r = r + [float(x) for x in pm.predict_proba([prim[t]])[0]]
        out[t] = r
    return out


class RecSizer:
    def __init__(self): self.X = []
    def transform(self, X):
        self.X.append(X.copy()); return pd.Series(np.arange(len(X)) / (len(X) + 1.0), index=X.index)


@check("P02", "side_and_size", gen_sig, 2)
def chk_sig(c):
    rec = RecSizer() if c["sizer"] else None
    d, p, pm, mm = setup_sig(c, rec)
    prim, meta = model_inputs(c)
    rows = meta_rows(c, prim, meta, pm) if c["meta"] else None
    first = c["frames"][c["on"]]["t"][0]
    reject = any(first > f["t"][-1] for f in c["frames"].values()) or (c["meta"] and rows is None)
    if not prim or (c["meta"] and not rows):
        raise Skip()
    if reject:
        try:
            p.get_side_and_size(d)
        except ValueError:
            return
        fail("a configuration without the needed data was accepted")
    out = p.get_side_and_size(d)
    side = {t: float(pm.predict([r])[0]) for t, r in prim.items()}
    src = {t: mm.predict_proba([r])[0] for t, r in rows.items()} if c["meta"] else {t: pm.predict_proba([r])[0] for t, r in prim.items()}
    cl = [0.0, 1.0] if c["meta"] else c["classes"]
    if c["sizer"]:
        X = rec.X[-1]
        need([mins(t) for t in X.index] == sorted(src), "bet sizer received the times %s, expected %s", [mins(t) for t in X.index], sorted(src))
        for t in src:
            q = list(src[t]); r = X.loc[ts(t)]
            need(abs(r["prob"] - max(q)) < 1e-12, "bet sizer received probability %r, expected %r", r["prob"], max(q))
            need(r["pred"] == cl[q.index(max(q))], "bet sizer received prediction %r, expected %r", r["pred"], cl[q.index(max(q))])
            if c["meta"]:
                need(r["side"] == side[t] if t in side else np.isnan(r["side"]), "bet sizer received side %r", r["side"])
        tt = sorted(src); size = {t: i / (len(tt) + 1.0) for i, t in enumerate(tt)}
    elif c["meta"]:
        size = {t: q[1] for t, q in src.items()}
    else:
        size = {t: max(q) for t, q in src.items()}
    tt = sorted(set(side) & set(size))
    need([mins(t) for t in out.index] == tt, "signal times %s, expected %s", [mins(t) for t in out.index], tt)
    same(out["side"].values, [side[t] for t in tt], "side")
    same(out["size"].values, [size[t] for t in tt], "size", 1e-12, 1e-12)


def gen_sizer2(rng, k):
    c = gen_sig(rng, k); c["meta"] = False; c["sizer"] = True; c["disc"] = bool(rng.random() < .3); return c


@check("P02", "bet_sizer", gen_sizer2)
def chk_sizer2(c):
    bsz = lambda: bz.BetSizingFromProbabilities(len(c["classes"]), discretise=c["disc"], step_size=.1 if c["disc"] else None)
    d, p, pm, mm = setup_sig(c, bsz())
    prim, _ = model_inputs(c)
    first = c["frames"][c["on"]]["t"][0]
    if not prim or any(first > f["t"][-1] for f in c["frames"].values()):
        raise Skip()
    out = p.get_side_and_size(d)
    tt = sorted(prim); pr = [pm.predict_proba([prim[t]])[0] for t in tt]
    X = pd.DataFrame({"prob": [max(q) for q in pr], "pred": [c["classes"][int(np.argmax(q))] for q in pr]}, index=times(tt))
    same(out["size"].values, bsz().transform(X).values, "size of the bet sizer", 1e-9, 1e-12)
    same(out["side"].values, [float(pm.predict([prim[t]])[0]) for t in tt], "side")


# ---------------------------------------------------------------- P03
@check("P03", "primary", gen_sig)
def chk_p3(c):
    c = dict(c, meta=False)
    d, p, pm, _ = setup_sig(c)
    g = c["frames"][c["on"]]["t"]
    lt = [t for t, s in zip(g, c["sub"]) if s]; lv = [NAN if v is None else v for v, s in zip(c["labels"], c["sub"]) if s]
    y = pd.Series(lv, index=times(lt), dtype=float)
    prim, _ = model_inputs(c)
    want = [(t, v) for t, v in zip(lt, lv) if not isnan(v) and t in prim]
    if len(want) < 1:
        raise Skip()
    X, y2 = p.create_dataset_primary(d, y)
    need([mins(t) for t in X.index] == [t for t, _ in want], "training times %s, expected %s", [mins(t) for t in X.index], [t for t, _ in want])
    same(X.values.astype(float), [prim[t] for t, _ in want], "training features", 1e-12, 1e-12)
    need(y2.index.equals(X.index), "labels and features have different times")
    same(y2.values, [v for _, v in want], "training labels")


def gen_meta3(rng, k):
    c = gen_sig(rng, k); c["meta"] = True; return c


@check("P03", "meta", gen_meta3, 2)
def chk_p3m(c):
    d, p, pm, _ = setup_sig(c)
    g = c["frames"][c["on"]]["t"]
    lt = [t for t, s in zip(g, c["sub"]) if s]; lv = [NAN if v is None else v for v, s in zip(c["labels"], c["sub"]) if s]
    y = pd.Series(lv, index=times(lt), dtype=float)
    prim, meta = model_inputs(c)
    lab_ = {t: v for t, v in zip(lt, lv) if not isnan(v) and t in prim}
    if not lab_:
        raise Skip()
    pr = {t: prim[t] for t in lab_}
    rows = meta_rows(c, pr, meta, pm)
    if rows is None:      # predictions of the primary model are missing at some times
        try:
            X, y2 = p.create_dataset_metalabeling(d, y)
        except ValueError:
            return
    else:
        X, y2 = p.create_dataset_metalabeling(d, y)
    rows = rows if rows is not None else {t: meta[t] + ([float(pm.predict([pr[t]])[0])] if c["use_pred"] else []) for t in meta if t in pr}
    want = sorted(set(rows) & set(lab_))
    need([mins(t) for t in X.index] == want, "training times %s, expected %s", [mins(t) for t in X.index], want)
    same(X.values.astype(float).reshape(len(want), -1), np.array([rows[t] for t in want], dtype=float).reshape(len(want), -1), "metalabeling features", 1e-12, 1e-12)
    need(y2.index.equals(X.index), "labels and features have different times")
    same(y2.values, [1.0 if float(pm.predict([pr[t]])[0]) == lab_[t] else 0.0 for t in want], "metalabels")


# ---------------------------------------------------------------- P04
class FixedPipeline:
    align_on_ = "bars"
    def __init__(self, df): self.df = df
    def get_side_and_size(self, X): return self.df.copy()


def gen_pos(rng, k):
    n = int(rng.integers(1, 20)); t = incr(rng, n, *pick(rng, [(200, 900), (1440, 1440), (1, 100)]))
    p = [float(v) for v in (100 * np.exp(np.cumsum(rng.normal(0, .05, n)))).round(3)]
    st = [i for i in range(n) if rng.random() < .7]
    odd = rng.random() < .5
    sz = [float(pick(rng, [0, 1, .5, .3] + ([1.0000001, -1e-9, 2, -1] if odd and rng.random() < .4 else []))) for _ in st]
    sd = [float(pick(rng, [1, -1, 0, .5] + ([1.5, -1.0000001] if odd and rng.random() < .3 else []))) for _ in st]
    return dict(t=t, p=p, i=st, size=sz, side=sd, sl=float(pick(rng, [0, .5, 1, 2.5])), pt=float(pick(rng, [0, .5, 1, 3])), nb=int(rng.integers(1, 50)), adj=bool(rng.random() < .7), win=int(pick(rng, [2, 10, 100])), dup=bool(rng.random() < .2))


@check("P04", "position", gen_pos, 2)
def chk_pos(c):
    df = pd.DataFrame({"close": c["p"], "stop_loss": 7.0}, index=times(c["t"]))
    sig = pd.DataFrame({"side": c["side"], "size": c["size"]}, index=times([c["t"][i] for i in c["i"]]), dtype=float)
    tr = pl.StrategyTrader(FixedPipeline(sig), 1, c["nb"], c["sl"], c["pt"], volatility_window=c["win"], volatility_adjusted_stop_loss=c["adj"])
    d = {"bars": df, "x": pd.DataFrame({"a": [1.0, 2.0]}, index=times([0, 1]))}
    if c["dup"]:
        bad = pd.DataFrame({"close": [1.0, 2.0, 3.0], "a": 1.0}, index=times([0, 5, 5]))
        for k in ("bars", "x"):
            for f in (tr.create_signal, tr.create_strategy_bars, tr.create_position):
                try:
                    f(dict(d, **{k: bad}))
                except ValueError:
                    continue
                fail("a frame with repeated times was accepted by %s", f.__name__)
        return
    _, vol = lab.vol_oracle(c["t"], c["p"], c["win"])
    vol = np.array(vol if c["adj"] else [1.0] * len(c["t"]))
    before = df.copy()
    bars = tr.create_strategy_bars(d)
    need(df.equals(before) and list(df.columns) == list(before.columns), "create_strategy_bars modified the bars")
    need(bars.index.equals(df.index), "strategy bars have other times than the bars")
    def chk_bars(b, w):
        same(b["stop_loss"].values, w * c["sl"], "stop loss", 1e-6, 1e-8)
        same(b["profit_taking"].values, w * c["pt"], "profit taking", 1e-6, 1e-8)
        need((b["num_expiration_bars"] == c["nb"]).all(), "expiration bars differ")
    chk_bars(bars, vol)
    s = tr.create_signal(d)
    valid = all(0 <= x <= 1 for x in c["size"]) and all(-1 <= x <= 1 for x in c["side"])
    need(tr.strategy_valid is valid or tr.strategy_valid == valid, "strategy_valid is %r, expected %r", tr.strategy_valid, valid)
    need(s.equals(sig), "signal differs from the pipeline's")
    pos = tr.create_position(d)
    need(pos.index.equals(df.index), "position times differ from the bars' times")
    chk_bars(pos, vol)
    side, size = np.full(len(df), NAN), np.full(len(df), NAN)
    for i, a, b in zip(c["i"], c["side"], c["size"]):
        side[i], size[i] = a, b
    same(pos["side"].values, side, "side of the position"); same(pos["size"].values, size, "size of the position")


# ---------------------------------------------------------------- P05
def gen_close(rng, k):
    return dict(a=["all", "long", "short", None, "none", "", "ALL", 0, 1, "longshort", "buy", False, True][k % 13], none=k % 5 == 4)


@check("P05", "closing", gen_close)
def chk_close(c):
    class M(pl.ClosingPositionsModel):
        def close_positions(self, X_dict):
            seen.append(X_dict); return c["a"]
    seen = []; d = {"lead": pd.DataFrame({"close": [1.0]}, index=times([0]))}
    p = pl.StrategySignalPipeline({"lead": None}, "lead", {}, closing_positions_model=None if c["none"] else M())
    for f in (p.determine_positions_to_close, pl.StrategyTrader(p, 1, 1).determine_positions_to_close):
        del seen[:]
        if c["none"]:
            need(f(d) is None, "something is closed without a closing model"); continue
        ok = c["a"] is None or c["a"] in ("all", "long", "short")
        try:
            r = f(d)
        except ValueError:
            need(not ok, "answer %r was rejected", c["a"]); continue
        need(ok, "answer %r was accepted", c["a"])
        need(r == c["a"] and type(r) is type(c["a"]), "answer %r became %r", c["a"], r)
        need(len(seen) >= 1 and seen[0] is d or seen[0].keys() == d.keys(), "the model received other data")


# ---------------------------------------------------------------- T01
IN1 = ["SMA", "EMA", "RSI", "MACD", "BBANDS", "ROC", "STDDEV", "LINEARREG", "MOM", "STOCHRSI", "COS", "HT_DCPHASE"]
INP = {"ATR": ["high", "low", "close"], "STOCH": ["high", "low", "close"], "OBV": ["real", "volume"], "BOP": ["open", "high", "low", "close"], "AROON": ["high", "low"], "MFI": ["high", "low", "close", "volume"], "CDLDOJI": ["open", "high", "low", "close"], "ADX": ["high", "low", "close"], "AD": ["high", "low", "close", "volume"], "SAR": ["high", "low"]}
IN2 = ["BETA", "CORREL", "ADD", "SUB", "MULT", "DIV"]
OPT = {"SMA": ["timeperiod"], "EMA": ["timeperiod"], "RSI": ["timeperiod"], "MACD": ["fastperiod", "slowperiod", "signalperiod"], "BBANDS": ["timeperiod", "nbdevup", "nbdevdn"], "ROC": ["timeperiod"], "STDDEV": ["timeperiod", "nbdev"], "LINEARREG": ["timeperiod"], "MOM": ["timeperiod"], "STOCHRSI": ["timeperiod", "fastk_period", "fastd_period"],
       "ATR": ["timeperiod"], "STOCH": ["fastk_period", "slowk_period"], "AROON": ["timeperiod"], "MFI": ["timeperiod"], "ADX": ["timeperiod"], "SAR": ["acceleration", "maximum"], "BETA": ["timeperiod"], "CORREL": ["timeperiod"]}
COLS = ["open", "high", "low", "close", "volume", "zig", "zag"]


def gen_ta(rng, k):
    n = int(rng.integers(20, 60)); b = feat.gen_bars(rng, n)
    f = pick(rng, IN1 + list(INP) * 1 + IN2)
    kw = {o: (round(float(rng.uniform(.01, .2)), 3) if o in ("acceleration", "maximum") else float(rng.integers(1, 4)) if o.startswith("nbdev") else int(rng.integers(2, 6))) for o in OPT.get(f, []) if rng.random() < .7}
    if "slowperiod" in kw: kw["slowperiod"] += 5
    c = dict(b=b, f=f, kw=kw or None, cols=[pick(rng, COLS) for _ in range(2)], ren={}, seed=int(rng.integers(1 << 30)))
    if f in INP and rng.random() < .6:
        for a in INP[f]:
            if a != "real" and rng.random() < .5:
                c["ren"][a] = pick(rng, ["zig", "zag", "col_" + a])
    return c


def ta_frame(c):
    df = feat.frame(c["b"])[["open", "high", "low", "close"]].copy(); rng = np.random.default_rng(c["seed"])
    df["volume"] = rng.integers(1, 100, len(df)).astype(float); df["zig"] = df["high"] * 1.5; df["zag"] = df["low"] * .5
    for a in ("open", "high", "low", "close", "volume"):
        df["col_" + a] = df[a] * 1.25
    return df


def ta_same(got, want):
    want = want if isinstance(want, tuple) else (want,)
    got = np.asarray(got)
    need(got.ndim == 2 and got.shape == (len(want[0]), len(want)), "output shape %s, expected (%d, %d)", got.shape, len(want[0]), len(want))
    for j, w in enumerate(want):
        same(got[:, j], np.asarray(w, dtype=float), "output %d" % j, 1e-12, 1e-12)


@check("T01", "routing", gen_ta, 2)
def chk_ta(c):
    df = ta_frame(c); f = c["f"]; fn = getattr(talib, f); kw = c["kw"]
    if f in IN1:
        names, arg = [c["cols"][0]], c["cols"][0]
    elif f in IN2:
        names, arg = c["cols"], list(c["cols"])
    else:
        arg = c["cols"][0] if "real" in INP[f] else None
        names = [arg if a == "real" else c["ren"].get(a, a) for a in INP[f]]
        # a renaming of a column chosen as the data column applies to it as well
        if arg in c["ren"]:
            raise Skip()
    tr = TAFactory().create_transformer(f, arg, dict(c["ren"]) or None, dict(kw) if kw else None)
    want = fn(*[df[x].astype(float) for x in names], **(kw or {}))
    ta_same(tr.transform(df), want)
    ta_same(tr.transform(df[sorted(set(names))]), want)     # column order and other columns play no part
    for x in set(names):
        try:
            tr.transform(df.drop(columns=[x]))
        except ValueError:
            continue
        fail("a frame without the column %r was accepted", x)
    try:
        tr.transform(df.values)
    except TypeError:
        pass
    else:
        fail("an array was accepted in place of a frame")


def gen_ta_bad(rng, k):
    bad = [("NOPE", "close", None, None), ("sma", "close", None, None), ("SMA", "close", None, {"period": 3}), ("SMA", "close", None, {"timeperiod": 3, "x": 1}), ("OBV", "close", None, {"timeperiod": 3}),
           ("SMA", None, None, None), ("BETA", "close", None, None), ("ATR", None, {"volume": "v"}, None), ("ATR", None, {"high": "h", "hi": "x"}, None), ("SMA", "close", {"open": "x"}, None), ("COS", "close", None, {"a": 1}), ("ATR", None, None, {"nbdev": 1.0}), ("MACD", "close", None, {"timeperiod": 3})]
    return dict(a=list(bad[k % len(bad)]))


@check("T01", "rejects", gen_ta_bad)
def chk_ta_bad(c):
    try:
        TAFactory().create_transformer(*c["a"])
    except ValueError:
        return
    fail("create_transformer accepted %s", c["a"])


# ---------------------------------------------------------------- R01
def snap(x):
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return x.copy(deep=True)
    if isinstance(x, pd.Index):
        return x.copy(deep=True)
    return copy.deepcopy(x)


def eq(a, b):
    if isinstance(a, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and list(a.dtypes) == list(b.dtypes) and a.index.equals(b.index) and a.index.name == b.index.name and a.equals(b)
    if isinstance(a, pd.Series):
        return isinstance(b, pd.Series) and a.dtype == b.dtype and a.index.equals(b.index) and a.name == b.name and a.equals(b)
    if isinstance(a, pd.Index):
        return a.equals(b)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and (near(a, b, 0, 0) if a.dtype.kind == "f" else (a == b).all())
    if hasattr(a, "todense"):
        return (a.todense() == b.todense()).all()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b or a is b or (a != a and b != b)


def close_(a, b):
    """equal results up to rounding"""
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(close_(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(close_(a[k], b[k]) for k in a)
    if isinstance(a, pd.DataFrame):
        return isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and a.index.equals(b.index) and all(close_(a.iloc[:, j], b.iloc[:, j]) for j in range(a.shape[1]))
    if isinstance(a, pd.Series):
        if not (isinstance(b, pd.Series) and a.dtype == b.dtype and a.index.equals(b.index)):
            return False
        if a.dtype.kind != "f":
            return a.equals(b)
        a, b = np.asarray(a), np.asarray(b)
    if isinstance(a, np.ndarray) and a.dtype.kind == "f":
        return near(a, b, 1e-12, 1e-12)
    try:
        return eq(a, b)
    except Exception:
        return False


def gen_ops(rng, k):
    n = int(rng.integers(12, 40))
    c = dict(b=feat.gen_bars(rng, n, *pick(rng, [(1, 50), (300, 900)])), b2=feat.gen_bars(rng, n + 3, 100, 700), w=int(pick(rng, [2, 3, 5])), f=int(rng.integers(1, 4)), seed=int(rng.integers(1 << 30)), grp=k % 8)
    for x in ("b", "b2"):
        c[x]["bb"] = [v + 1 for v in c[x]["bb"]]
    return c


def events(df, rng):
    n = len(df); i = np.sort(rng.choice(n - 3, min(6, n - 3), replace=False)); d = rng.integers(0, 3, len(i))
    e = pd.DataFrame({EV: df.index[i + d], "prob": rng.uniform(.1, .9, len(i)), "pred": rng.choice([-1.0, 1.0], len(i)), "side": rng.choice([-1.0, 0.0, 1.0], len(i))}, index=df.index[i])
    return e


def ops(c, df, ev, rng_seed):
    """(name, callable, arguments) of the public operations on these data"""
    w, f = c["w"], c["f"]; g = c["grp"]; o = []
    if g == 0:
        for name, tr in feat.transformers(w, f, f + 2).items():
            o.append((name, tr.transform, [df]))
    if g == 1:
        tb = lb.TripleBarrierMethodLabeling(3, 1.5, 1.0, volatility_window=5)
        tb2 = lb.TripleBarrierMethodLabeling(2, 1.0, 1.0, metalabeling=True, side_column_name="side", expiration_label=True)
        o += [("triple barrier", tb.transform, [df]), ("triple barrier meta", tb2.transform, [df.assign(side=1.0)]),
              ("daily volatility", lambda s: lb.get_daily_vol(s, 5), [df["close"]]),
              ("trend scanning", tsn.TrendScannerLabeling(None, 6, 3, 1).transform, [df["close"]]),
              ("CUSUM filter", CUSUMFilter(1.0).transform, [df["close"]])]
    if g == 2:
        i = df.index; full = df[["close"]].assign(**{EV: i[np.minimum(np.arange(len(i)) + np.random.default_rng(c["seed"] + len(i)).integers(0, 4, len(i)), len(i) - 1)]})
        o += [("average uniqueness", AverageUniqueness(EV).transform, [full]), ("return weights", SampleWeightsByReturns().transform, [full]),
              ("time decay", SampleWeightsByTimeDecay(.3).transform, [full]), ("negative time decay", SampleWeightsByTimeDecay(-.4).transform, [full]),
              ("indicator matrix", lambda e, b: bs.get_ind_matrix(e, b, EV, return_indices=True), [ev[EV], df[["close"]]])]
    if g == 3:
        m = bs.get_ind_matrix(ev[EV], df[["close"]], EV)
        def seq(mat):
            np.random.seed(rng_seed % 1000)
            return np.asarray(bs.seq_bootstrap(mat, 10, np.random.RandomState(5), 2))
        o += [("sequential bootstrap", seq, [m]), ("average uniqueness of a matrix", bs.calc_average_uniqueness, [m])]
        i = df.index; e = pd.Series(i[np.minimum(np.arange(len(i)) + 2, len(i) - 1)], index=i); p = pd.Series(i, index=i)
        cv = ms.CombPurgedKFoldCV(4, 2, p, e, pd.Timedelta(minutes=30))
        o += [("split", lambda X: [(np.array(a), np.array(b)) for a, b in cv.split(X)], [df]),
              ("split of other times", lambda X, p, e: [(np.array(a), np.array(b)) for a, b in ms.CombPurgedKFoldCV(4, 2, p, e).split(X)], [df, p, e])]
    if g == 4:
        if c["seed"] % 2:       # some bets stay open
            ev = ev.assign(**{EV: ev[EV].where(np.random.default_rng(c["seed"]).random(len(ev)) < .6)})
        s = bz.BetSizingFromProbabilities(2, meta_labeling=True, average_active=True, discretise=True, step_size=.1)
        o += [("bet size", s.transform, [ev]), ("bet size 2", bz.BetSizingFromProbabilities(3).transform, [ev]),
              ("averaged bets", lambda x: bz.avg_active_signals(x, EV, "prob"), [ev]), ("discretise", lambda x: bz.discretise_signal(x, .2), [ev["prob"]])]
    if g == 5:
        x = np.log(df["close"])
        o += [("CUSUM test " + t, cc.ChuStinchcombeWhiteStatTest(t).run, [x]) for t in ("one_sided_positive", "two_sided")]
        o += [("Dickey-Fuller", sdfc.SupremumDickeyFullerChowStatTest(5).run, [x])]
        o += [("SADF " + m, sadf.SupremumAugmentedDickeyFullerStatTest(m, 2, 8, m in ("linear", "quadratic"), .5 if m.startswith("sm") else 0).run, [x]) for m in ("linear", "sm_power")]
    if g == 6:
        o += [(nm, p.predict_proba, [df]) for nm, p in (("mean reversion", MeanReversionStrategy(.01, 3)), ("rsi", RSIConfirmation(3, 60, 1, 2)), ("arrival", BarArrivalRSIStrategy(90, 10, 1, -1, 3, 1, 3, 60 * 10 ** 9)))]
        o += [("bollinger", TAFactory().create_transformer("BBANDS", "close", kw_args={"timeperiod": 4}).transform, [df])]
    if g == 7:
        d = {"lead": df[["close", "high"]], "a": df[["low"]].iloc[::2], "b": df[["quote_asset_volume"]].iloc[1:]}
        kw = dict(feature_transformers_metalabeling_model={"lead": None, "a": None})
        r = np.random.default_rng(c["seed"] + 1)
        y = pd.Series(r.choice([-1.0, 0.0, 1.0], len(df)), index=df.index)
        if c["seed"] % 2:       # missing labels and features
            y[r.random(len(y)) < .3] = np.nan
            for k in d:
                d[k] = d[k].mask(r.random(d[k].shape) < .1)
            d["lead"] = d["lead"].assign(close=df["close"])
        p = pl.StrategySignalPipeline({k: None for k in d}, "lead", {"a": "mean", "b": "max"}, **kw)
        p.set_primary_model(TableModel([-1.0, 0.0, 1.0], [.3, .9, 1.7])); p.set_metalabeling_model(TableModel([0.0, 1.0], [.7, 1.9]))
        tr = pl.StrategyTrader(p, 1, 5, 1.5, 2.5)
        o += [("training set", p.create_dataset_primary, [d, y]), ("metalabeling set", p.create_dataset_metalabeling, [d, y]), ("signal", tr.create_signal, [d]), ("bars", tr.create_strategy_bars, [d]), ("position", tr.create_position, [d]), ("predict", p.predict, [d]), ("predict_proba", p.predict_proba, [d])]
    return o


@check("R01", "arguments", gen_ops, 2)
def chk_ops(c):
    rng = np.random.default_rng(c["seed"])
    df, df2 = feat.frame(c["b"]), feat.frame(c["b2"])
    ev, ev2 = events(df, rng), events(df2, rng)
    A, B = ops(c, df, ev, 3), ops(c, df2, ev2, 3)
    done = 0
    for (name, f, args), (_, f2, args2) in zip(A, B):
        before = snap(args)
        try:
            r1 = f(*args)
        except (ValueError, IndexError, np.linalg.LinAlgError, AssertionError):
            if not eq(before, args):
                fail("%s modified its arguments before failing", name)
            continue
        if not eq(before, args):
            fail("%s modified its arguments", name)
        r1 = snap(r1)
        try:
            f(*args2)         # other data in between, with the same object
        except (ValueError, IndexError, KeyError, np.linalg.LinAlgError, AssertionError):
            pass
        r2 = f(*args)
        if not close_(r1, r2):
            fail("%s gives another result when repeated after other data", name)
        if not eq(before, args):
            fail("%s modified its arguments when repeated", name)
        done += 1
    if not done:
        raise Skip()
