"""Contracts of the feature transformers (F01 to F08)."""
from .base import *
from fractions import Fraction
from mizarlabs.transformers.microstructural_features import first_generation as fg, second_generation as sg, vpin as vp
from mizarlabs.transformers.features import rolling_z_score as rz, custom as cu
from mizarlabs.transformers.technical import moving_average as mv, volume as vl, macd as mc, rsi as rs, mean_reversion as mr

w = var("w", "I")
F, S = var("f", "I"), var("s", "I")
for nm in "wfs":
    tm._nonneg.add(nm)
W = [le(ONE, w)]
FS = [le(ONE, F), le(F, S)]
NN = [le(ZERO, n)]
P = {}
NONNEG = dict(positive=False, nonneg=True)
ANY = dict(positive=False)


def C(name):
    f = column(name, False)
    return lambda k: f(k).v


def rows(r):
    """number of rows, columns and element function of a result"""
    if isinstance(r, Mat):
        return r.nr, r.nc, r.e
    if isinstance(r, Seq):
        if not r.dense():
            raise Unsupported("a selection of rows is returned")
        return sub(r.hi, r.lo), ONE, lambda i, j: r.e(add(r.lo, i))
    raise Unsupported("result of type %s" % type(r).__name__)


def check_col(s, label, o, r, spec, k=K, lem=()):
    nr, nc, e = rows(r)
    s.goal(label + ": one column", o.pc, eq(nc, ONE))
    s.goal(label + ": one row per bar", o.pc, eq(nr, n))
    s.equal(label, list(lem) + list(o.pc) + [le(ZERO, k), lt(k, n)], e(k, ZERO), spec(k))


def rowwise(s, label, run, spec, hyps=W, rejects=None, lemma=None):
    """every row of the returned column equals the specification of that row"""
    s.current = label
    lem = lemma(s) if lemma else ()
    for i, o in enumerate(s.paths(label, run, list(hyps) + NN, rejects)):
        check_col(s, "%s (path %d)" % (label, i), o, o.value, spec, lem=lem)
        s.frame(label, o)


def tr(s, make, cols, method="transform"):
    """runs a method of the transformer built by make(it) on a symbolic frame"""
    def run(it):
        X = frame(s, cols)
        return it.call(it.getattr(make(it), method), [X], {})
    return run


def win(k, wd, f, first=0):
    """bars k-w+1..k in time order; undefined before row first + w - 1"""
    return lambda j: f(add(sub(k, wd), j, ONE))


def wsum(k, wd, f): return ssum(wd, win(k, wd, f))
def wmean_(k, wd, f): return div(wsum(k, wd, f), wd)
def early(k, wd, first=0): return lt(k, add(wd, N(first - 1)))


def wmean(f, first=0):
    return lambda k: Sc(wmean_(k, w, f), early(k, w, first))


def named(cls, custom, cols, **kw):
    """constructor and column names, default or renamed with decoys under the default names"""
    d = {c: ("my_" + c if custom else c) for c in cols}
    make = lambda it: it.call(cls, [], dict(kw, window=Sc(w), **({c + "_column_name": d[c] for c in cols} if custom else {})))
    return make, d


def both(prop, cls, cols, spec, opts=None, hyps=W):
    for custom in (False, True):
        make, d = named(cls, custom, cols)
        fr = {d[c]: (opts or {}).get(c, P) for c in cols}
        if custom:
            fr.update({c: P for c in cols})
        label = "%s.transform%s" % (cls.__name__, " (renamed columns)" if custom else "")
        def go(s, make=make, fr=fr, d=d, label=label):
            rowwise(s, label, tr(s, make, fr), spec({c: C(d[c]) for c in cols}), hyps)
        contract(prop, label)(go)


log = lambda x: tm.log_(x)
prev = lambda q: sub(q, ONE)


# ---------------------------------------------------------------- F01
def roll(c):
    p = c["close"]
    d = lambda q: sub(p(q), p(prev(q)))
    def spec(k):
        a, b = (lambda q: d(q)), (lambda q: d(prev(q)))
        ma, mb = wmean_(k, w, a), wmean_(k, w, b)
        cov = div(wsum(k, w, lambda q: mul(sub(a(q), ma), sub(b(q), mb))), sub(w, ONE))
        return Sc(mul(N(2), tm.sqrt_(abs_(cov))), or_(early(k, w, 2), le(w, ONE)))
    return spec


def rollimpact(c):
    r = roll(c)
    return lambda k: Sc(div(r(k).v, c["quote_asset_volume"](k)), r(k).nan)


def parkinson(c):
    l = lambda q: log(div(c["high"](q), c["low"](q)))
    return wmean(lambda q: div(powi(l(q), 2), mul(N(4), log(N(2)))))


DEN = sub(N(3), mul(N(2), tm.sqrt_(N(2))))


def beta_gamma(c, k):
    h, l = c["high"], c["low"]
    sq = lambda q: powi(log(div(h(q), l(q))), 2)
    beta = wmean_(k, w, lambda q: add(sq(prev(q)), sq(q)))
    hh = max2(h(prev(k)), h(k))
    ll = min2(l(prev(k)), l(k))
    return beta, powi(log(div(hh, ll)), 2)


def clip0(x): return ite(lt(x, ZERO), ZERO, x)


def corwin(c):
    def spec(k):
        b, g = beta_gamma(c, k)
        al = clip0(sub(div(mul(sub(tm.sqrt_(N(2)), ONE), tm.sqrt_(b)), DEN), tm.sqrt_(div(g, DEN))))
        e = app("exp", (al,), "R")
        return Sc(div(mul(N(2), sub(e, ONE)), add(ONE, e)), early(k, w, 1))
    return spec


def beckers(c):
    tm._pos.add("pi")
    def spec(k):
        b, g = beta_gamma(c, k)
        k2 = tm.sqrt_(div(N(8), var("pi", "R")))
        x = add(div(mul(sub(inv(tm.sqrt_(N(2))), ONE), tm.sqrt_(b)), mul(k2, DEN)), tm.sqrt_(div(g, mul(k2, k2, DEN))))
        return Sc(clip0(x), early(k, w, 1))
    return spec


both("F01", fg.RollMeasure, ["close"], roll, dict(close=ANY))
both("F01", fg.RollImpact, ["close", "quote_asset_volume"], rollimpact)
both("F01", fg.ParkinsonVolatility, ["high", "low"], parkinson)
both("F01", fg.CorwinSchultzSpread, ["high", "low"], corwin)
both("F01", fg.BeckersParkinsonVolatility, ["high", "low"], beckers)


# ---------------------------------------------------------------- F02
def kyle(c):
    return wmean(lambda q: div(abs_(sub(c["close"](q), c["close"](prev(q)))), c["base_asset_volume"](q)), 1)


def amihud(c):
    return wmean(lambda q: div(abs_(sub(log(c["close"](q)), log(c["close"](prev(q))))), c["quote_asset_volume"](q)), 1)


def hasbrouck(c):
    return wmean(lambda q: div(abs_(sub(log(c["close"](q)), log(c["close"](prev(q))))), tm.sqrt_(c["quote_asset_volume"](q))), 1)


both("F02", sg.KyleLambda, ["close", "base_asset_volume"], kyle)
both("F02", sg.AmihudLambda, ["close", "quote_asset_volume"], amihud)
both("F02", sg.HasbrouckLambda, ["close", "quote_asset_volume"], hasbrouck)


# ---------------------------------------------------------------- F03
V = ["base_asset_volume", "base_asset_buy_volume", "base_asset_sell_volume"]


def vpin(c):
    v, b, s_ = (c[x] for x in V)
    def spec(k):
        tot = wsum(k, w, v)
        z = eq(tot, ZERO)
        return Sc(ite(z, ZERO, div(wsum(k, w, lambda q: abs_(sub(b(q), s_(q)))), tot)), or_(early(k, w), and_(z, lt(k, w))))
    return spec


both("F03", vp.VPIN, V, vpin, {V[1]: NONNEG, V[2]: NONNEG})


def vol_frame(s):
    """buy and sell volumes non-negative (possibly zero) and adding up to the total"""
    setup(s)
    b, l = column(V[1], False, True), column(V[2], False, True)
    ix = Index(time_space(), ZERO, n, own="the index")
    return Frame(ix, {V[0]: (lambda k: b(k) + l(k), "f"), V[1]: (b, "f"), V[2]: (l, "f")}, "the frame"), b, l


@contract("F03", "VPIN range")
def vpin_range(s):
    s.current = "VPIN.transform (volumes adding up)"
    def run(it):
        X, b, l = vol_frame(s)
        return it.call(it.getattr(it.call(vp.VPIN, [Sc(w)], {}), "transform"), [X], {})
    b, l = C(V[1]), C(V[2])
    # pointwise |b - l| <= b + l, summed over the window
    for o in s.paths(s.current, run, W + NN):
        nr, nc, e = rows(o.value)
        h = list(o.pc) + [le(ZERO, K), lt(K, n)]
        q = fresh("q", "I")
        num_, den = wsum(K, w, lambda q: abs_(sub(b(q), l(q)))), wsum(K, w, lambda q: add(b(q), l(q)))
        s.goal("imbalance of a bar is at most its volume", [], le(abs_(sub(b(q), l(q))), add(b(q), l(q))))
        # monotonicity of finite sums
        h += [le(num_, den), le(ZERO, num_)]
        s.assume("monotonicity of finite sums (rule of the verifier)")
        v = e(K, ZERO)
        z = eq(den, ZERO)
        ratio = var("ratio", "R")
        s.goal("value from the window on", h + [le(w, K)], not_(v.nan))
        s.equal("VPIN with zero volumes", h, v, Sc(ite(z, ZERO, div(num_, den)), or_(early(K, w), and_(z, lt(K, w)))))
        s.goal("ratio of a non-negative number and one at least as large is in [0, 1]", [le(ZERO, var("x", "R")), le(var("x", "R"), var("y", "R")), lt(ZERO, var("y", "R")), eq(mul(ratio, var("y", "R")), var("x", "R"))], and_(le(ZERO, ratio), le(ratio, ONE)))


# ---------------------------------------------------------------- F04
def zspec(f, first):
    def spec(k):
        m = wmean_(k, w, f)
        v = div(wsum(k, w, lambda q: powi(sub(f(q), m), 2)), sub(w, ONE))
        return Sc(div(sub(f(k), m), tm.sqrt_(v)), or_(early(k, w, first), le(w, ONE), eq(v, ZERO)))
    return spec


STATS_ = {
    "bar_arrival_time": ((), lambda q: sub(mul(MSNS, ms(q)), mul(MSNS, ms(prev(q)))), 1),
    "buy_sell_diff": (("quote_asset_buy_volume", "quote_asset_sell_volume"), lambda q: sub(C("quote_asset_buy_volume")(q), C("quote_asset_sell_volume")(q)), 0),
    "average_buy_size": (("quote_asset_buy_volume", "num_buy_ticks"), lambda q: div(C("quote_asset_buy_volume")(q), C("num_buy_ticks")(q)), 0),
    "high_to_low_ratio": (("high", "low"), lambda q: div(C("high")(q), C("low")(q)), 0),
}
for key in STATS_:
    def go(s, key=key):
        cols, f, first = STATS_[key]
        make = lambda it: it.call(it.getattr(rz.RollingZScoreTransformerFactory, "get_transformer"), [key, Sc(w)], {})
        rowwise(s, "RollingZScoreTransformer.transform of " + key, tr(s, make, {c: P for c in (cols or ["close"])}), zspec(f, first), lemma=lambda s: [s.sum_nonneg(w, lambda j: powi(sub(win(K, w, f)(j), wmean_(K, w, f)), 2))])
    contract("F04", "z-score of " + key)(go)


@contract("F04", "local high")
def local_high(s):
    make = lambda it: it.call(cu.LocalMaxToCloseRatio, [Sc(w)], {})
    spec = lambda k: Sc(div(smax(w, win(k, w, C("high"))), C("close")(k)), early(k, w))
    rowwise(s, "LocalMaxToCloseRatio.transform", tr(s, make, {"high": ANY, "close": P}), spec)


@contract("F04", "unknown statistics")
def unknown_stat(s):
    s.current = "RollingZScoreTransformerFactory.get_transformer"
    for key in ["", "unknown", "close", "Bar_arrival_time"]:
        outs = s.explore(lambda it: it.call(it.getattr(rz.RollingZScoreTransformerFactory, "get_transformer"), [key, Sc(w)], {}), W)
        s.goal("%r is rejected" % key, [], N(all(o.kind == "raise" and issubclass(o.value.exc, KeyError) for o in outs)))
    s.goal("the known statistics are the four predefined ones", [], N(sorted(rz.RollingZScoreTransformerFactory.types) == sorted(STATS_)))


# ---------------------------------------------------------------- F05
def cross_spec(fill):
    p = C("price")
    F_, S_ = (lambda k: wmean_(k, F, p)), (lambda k: wmean_(k, S, p))
    def cross(k):
        ok = not_(early(k, S, 1))        # both averages defined on the previous bar too
        up = and_(ok, gt(F_(k), S_(k)), le(F_(prev(k)), S_(prev(k))))
        dn = and_(ok, lt(F_(k), S_(k)), ge(F_(prev(k)), S_(prev(k))))
        return up, dn
    def spec(k):
        up, dn = cross(k)
        val = lambda u, d: ite(u, ONE, ite(d, N(-1), ZERO))
        if not fill:
            return Sc(val(up, dn))
        x = fresh("x", "I")
        g = or_(*cross(x))
        last = ho("last", add(k, ONE), g, TRUE, x)
        u, d = cross(last)
        return Sc(ite(ho("ex", add(k, ONE), g, TRUE, x), ite(u, ONE, N(-1)), ZERO))
    return spec


for cls, method in ((mv.MovingAverageCrossOver, "transform"), (mv.MovingAverageCrossOverPredictor, "transform"), (mv.MovingAverageCrossOverPredictor, "predict")):
    for fill in (False, True):
        def go(s, cls=cls, method=method, fill=fill):
            make = lambda it: it.call(cls, [Sc(F), Sc(S), "price"], {"fill_between_crossovers": fill} if fill or method == "predict" else {})
            rowwise(s, "%s.%s%s" % (cls.__name__, method, " (filled)" if fill else ""), tr(s, make, {"price": ANY, "close": ANY}, method), cross_spec(fill), FS)
        contract("F05", "%s.%s%s" % (cls.__name__, method, " filled" if fill else ""))(go)


def rejects_fast(prop, classes):
    @contract(prop, "fast and slow windows")
    def go(s):
        f, sl = var("f", "I"), var("s", "I")
        with_indicators(s)
        for cls, extra in classes:
            s.current = cls.__name__ + ".__init__"
            s.paths(s.current, lambda it: it.call(cls, [Sc(f), Sc(sl)] + extra, {}), [], gt(f, sl))


rejects_fast("F05", [(mv.MovingAverageCrossOver, ["price"]), (mv.MovingAverageCrossOverPredictor, ["price"])])


# ---------------------------------------------------------------- F06
def ewmean(f, k, span):
    """weights (1 - 2/(span+1))^age over the bars so far"""
    q = sub(ONE, div(N(2), add(span, ONE)))
    wt = lambda x: mk("app", ("powr", q, sub(k, x)), "R")
    m = add(k, ONE)
    return div(ssum(m, lambda x: mul(wt(x), f(x))), ssum(m, wt))


for norm in (True, False, None):
    def go(s, norm=norm):
        p = C("price")
        make = lambda it: it.call(mv.ExponentialWeightedMovingAverageDifference, [Sc(F), Sc(S), "price"], {} if norm is None else {"normalised": norm})
        def spec(k):
            a, b = ewmean(p, k, F), ewmean(p, k, S)
            d = sub(a, b)
            return Sc(div(d, add(a, ONE)), eq(add(a, ONE), ZERO)) if norm is not False else Sc(d)
        rowwise(s, "ExponentialWeightedMovingAverageDifference.transform (normalised: %s)" % ("default" if norm is None else norm), tr(s, make, {"price": ANY, "close": ANY}), spec, FS)
    contract("F06", "EWMA difference, normalised %s" % norm)(go)

for vt in ("quote", "base"):
    def go(s, vt=vt):
        b, l, v = C(vt + "_asset_buy_volume"), C(vt + "_asset_sell_volume"), C(vt + "_asset_volume")
        make = lambda it: it.call(vl.BuySellImbalance, [Sc(F), Sc(S), vt], {})
        cols = {t + "_asset" + x: NONNEG for t in ("quote", "base") for x in ("_volume", "_buy_volume", "_sell_volume")}
        d = lambda q: sub(b(q), l(q))
        spec = lambda k: Sc(div(sub(ewmean(d, k, F), ewmean(d, k, S)), add(v(k), ONE)))
        rowwise(s, "BuySellImbalance.transform (%s)" % vt, tr(s, make, cols), spec, [le(ONE, F), le(ONE, S)])
    contract("F06", "imbalance " + vt)(go)


rejects_fast("F06", [(mv.ExponentialWeightedMovingAverageDifference, ["price"])])


@contract("F06", "volume types")
def volume_types(s):
    s.current = "BuySellImbalance.__init__"
    for t in ["", "both", "Quote", "quotebase"]:
        outs = s.explore(lambda it: it.call(vl.BuySellImbalance, [Sc(F), Sc(S), t], {}), [])
        s.goal("%r is rejected" % t, [], N(all(o.kind == "raise" and issubclass(o.value.exc, ValueError) for o in outs)))


# ---------------------------------------------------------------- F07
def other_data(t, k, n2):
    """the term for the same code run on other bars that agree up to bar k, and of another number of bars"""
    memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "v":
            r = n2 if t is n else t
        elif op == "app" and (t.args[0].startswith("c_") or t.args[0].startswith("ta_") or t.args[0] == "ms") and len(t.args) >= 2:
            q = go(t.args[1])
            rest = tuple(go(a) for a in t.args[2:])
            here = mk("app", (t.args[0], q) + rest, t.sort)
            nm = "later_" + t.args[0]
            for d in (tm._pos, tm._nonneg):
                if t.args[0] in d:
                    d.add(nm)
            r = ite(le(q, k), here, mk("app", (nm, q) + rest, t.sort))
        elif op == "c":
            r = t
        elif op == "ho":
            kind = t.args[0]
            if kind == "fold":
                x = fresh("b", "I")
                sts = [fresh("s", "B" if i.sort == "B" else "R") for i in t.args[2]]
                r = tm.fold(go(t.args[1]), [go(a) for a in t.args[2]], [go(a) for a in tm.fold_step(t, x, sts)], sts, x, t.args[4])
            else:
                x = fresh("b", "I")
                g, b = tm.open_(t, x)
                r = ho(kind, go(t.args[1]), go(g), go(b), x)
        elif op == "poly":
            r = add(*[mul(N(c), *[powi(go(a), e) for a, e in m]) for m, c in t.args])
        elif op == "app":
            r = app(t.args[0], [go(a) for a in t.args[1:]], t.sort)
        elif op == "ite":
            r = ite(*[go(a) for a in t.args])
        elif op == "and":
            r = and_(*[go(a) for a in t.args])
        elif op == "or":
            r = or_(*[go(a) for a in t.args])
        elif op == "not":
            r = not_(go(t.args[0]))
        else:
            r = tm._cmp0(op, go(t.args[0]))
        memo[t] = r
        return r
    return go(t)


n2 = var("n2", "I")
HL = {"high": P, "low": P, "close": P}
VOLS = {t + "_asset" + x: (P if x == "_volume" else NONNEG) for t in ("quote", "base") for x in ("_volume", "_buy_volume", "_sell_volume")}
BARS = dict(HL, **VOLS, num_buy_ticks=P, open=P)
TP = var("tp", "I")
tm._nonneg.add("tp")


def causal(name, make, method="transform", hyps=W, cols=BARS, series=None):
    def go(s):
        s.current = name
        with_indicators(s)
        outs = s.paths(name, tr(s, make, cols, method) if series is None else series(s), list(hyps) + NN)
        for i, a in enumerate(outs):
            nr, nc, e = rows(a.value)
            s.goal("%s (path %d): one row per bar" % (name, i), a.pc, eq(nr, n))
            for j, b in enumerate(outs):
                nc2 = rows(b.value)
                s.goal("%s (paths %d and %d): same number of columns" % (name, i, j), list(a.pc) + list(b.pc), eq(nc, nc2[1]))
                va, vb = e(K, ZERO), nc2[2](K, ZERO)
                wd = [ZERO] if nc is ONE else [N(c) for c in range(int(nc.args[0]))] if nc.op == "c" else None
                if wd is None:
                    raise Unsupported("unknown number of columns")
                for c in wd:
                    va, vb = sc(e(K, c)), sc(nc2[2](K, c))
                    v2 = Sc(other_data(vb.v, K, n2), other_data(vb.nan, K, n2))
                    pc2 = [other_data(h, K, n2) for h in b.pc]
                    hy = list(a.pc) + pc2 + [le(ZERO, K), lt(K, n), lt(K, n2)]
                    s.equal("%s (paths %d and %d): value at a bar from the bars up to it" % (name, i, j), hy, v2, va)
    contract("F07", name)(go)


def wk(cls): return lambda it: it.call(cls, [Sc(w)], {})


for cls in (fg.RollMeasure, fg.RollImpact, fg.ParkinsonVolatility, fg.CorwinSchultzSpread, fg.BeckersParkinsonVolatility,
            sg.KyleLambda, sg.AmihudLambda, sg.HasbrouckLambda, vp.VPIN, cu.LocalMaxToCloseRatio):
    causal(cls.__name__, wk(cls))
for key in STATS_:
    causal("z-score of " + key, lambda it, key=key: it.call(it.getattr(rz.RollingZScoreTransformerFactory, "get_transformer"), [key, Sc(w)], {}))
for fill in (False, True):
    causal("crossover" + (" filled" if fill else ""), lambda it, fill=fill: it.call(mv.MovingAverageCrossOver, [Sc(F), Sc(S), "close", fill], {}), hyps=FS)
    causal("EWMA difference" + (" normalised" if fill else ""), lambda it, fill=fill: it.call(mv.ExponentialWeightedMovingAverageDifference, [Sc(F), Sc(S), "close", fill], {}), hyps=FS)
for vt in ("quote", "base"):
    causal("imbalance " + vt, lambda it, vt=vt: it.call(vl.BuySellImbalance, [Sc(F), Sc(S), vt], {}), hyps=FS)
causal("MACD histogram", lambda it: it.call(mc.MACDHistogramCrossOver, [Sc(F), Sc(S), Sc(TP)], {}), hyps=FS)


# ---------------------------------------------------------------- F08
TH = var("threshold", "R")
U, L_, BU, BL = (var(x, "R") for x in ("rsi_high", "rsi_low", "arrival_high", "arrival_low"))
MX = var("max_diff", "R")
PREDICTORS = {
    "MovingAverageCrossOverPredictor": (mv.MovingAverageCrossOverPredictor, lambda it: it.call(mv.MovingAverageCrossOverPredictor, [Sc(F), Sc(S), "close"], {}), FS, None),
    "MovingAverageCrossOverPredictor (filled)": (mv.MovingAverageCrossOverPredictor, lambda it: it.call(mv.MovingAverageCrossOverPredictor, [Sc(F), Sc(S), "close", True], {}), FS, None),
    "MeanReversionStrategy": (mr.MeanReversionStrategy, lambda it: it.call(mr.MeanReversionStrategy, [Sc(TH), Sc(TP)], {}), [], None),
    "RSIConfirmation": (rs.RSIConfirmation, lambda it: it.call(rs.RSIConfirmation, [Sc(TP), Sc(TH), Sc(F), Sc(S)], {}), [le(ONE, F), le(ONE, S)], None),
    "BarArrivalRSIStrategy": (rs.BarArrivalRSIStrategy, lambda it: it.call(rs.BarArrivalRSIStrategy, [Sc(U), Sc(L_), Sc(BU), Sc(BL), Sc(TP), Sc(F), Sc(S), Sc(MX)], {}), [le(ONE, F), le(ONE, S)], None),
}
for name in PREDICTORS:
    def go(s, name=name):
        cls, make, hyps, _ = PREDICTORS[name]
        with_indicators(s)
        classes = [Fraction(c) for c in cls.classes_]
        s.current = cls.__name__ + ".classes_"
        s.goal("%s: announced classes are sorted, distinct and counted by n_classes_" % name, [], N(classes == sorted(set(classes)) and cls.n_classes_ == len(classes)))
        s.current = cls.__name__ + ".predict"
        def run(it):
            o = make(it)
            X = frame(s, BARS)
            return it.call(it.getattr(o, "predict"), [X], {}), it.call(it.getattr(o, "predict_proba"), [X], {})
        for i, o in enumerate(s.paths(name, run, list(hyps) + NN)):
            p, q = o.value
            nr, _, pe = rows(p)
            qr, qc, qe = rows(q)
            hy = list(o.pc) + [le(ZERO, K), lt(K, n)]
            s.goal("%s (path %d): one prediction per bar" % (name, i), o.pc, eq(nr, n))
            s.goal("%s (path %d): one row of probabilities per bar, one column per class" % (name, i), o.pc, and_(eq(qr, n), eq(qc, N(len(classes)))))
            v = sc(pe(K, ZERO))
            s.goal("%s (path %d): predictions are never missing" % (name, i), hy, not_(v.nan))
            s.goal("%s (path %d): predictions are among the classes" % (name, i), hy + [not_(v.nan)], or_(*[eq(num(v.v), N(c)) for c in classes]))
            for j, c in enumerate(classes):
                s.equal("%s (path %d): probability of class %s" % (name, i, c), hy + [not_(v.nan)], qe(K, N(j)), Sc(ite(eq(num(v.v), N(c)), ONE, ZERO)))
            s.frame(name, o)
    contract("F08", name)(go)


# ---------------------------------------------------------------- F09
def indicator(name, *opts):
    """value and missing flag of an opaque indicator at a bar"""
    def f(k):
        return mk("app", (name, k) + opts, "R"), mk("app", (name + "_missing", k) + opts, "B")
    return f


def some(m, f):
    """some j in 0..m-1 with f(j)"""
    x = fresh("x", "I")
    return ho("ex", m, f(x), TRUE, x)


def sign(x):
    return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), N(-1), ZERO))


RSI = indicator("ta_RSI_close_0", TP)


def mean_reversion_spec(k):
    e, miss = indicator("ta_EMA_close_0", TP)(k)
    d = div(sub(C("close")(k), e), e)
    ok = not_(or_(miss, eq(e, ZERO)))
    return Sc(ite(and_(ok, gt(d, TH)), N(-1), ite(and_(ok, lt(d, neg(TH))), ONE, ZERO)))


def confirmation_spec(k):
    """below the threshold on each of the last F bars, and the mean of the last S bars above that of the S bars ending one bar earlier"""
    below = not_(some(F, lambda j: or_(RSI(add(sub(k, F), j, ONE))[1], ge(RSI(add(sub(k, F), j, ONE))[0], TH))))
    known = lambda q: not_(some(S, lambda j: RSI(add(sub(q, S), j, ONE))[1]))
    rise = gt(wmean_(k, S, lambda q: RSI(q)[0]), wmean_(prev(k), S, lambda q: RSI(q)[0]))
    return Sc(ite(and_(not_(early(k, F)), below, not_(early(k, S, 1)), known(k), known(prev(k)), rise), ONE, ZERO))


def arrival_spec(k):
    gap = lambda q: sub(mul(MSNS, ms(q)), mul(MSNS, ms(prev(q))))
    r, miss = RSI(k)
    d = div(sub(wmean_(k, F, gap), wmean_(k, S, gap)), MX)
    ok = and_(not_(miss), not_(eq(MX, ZERO)), not_(early(k, F, 1)), not_(early(k, S, 1)))
    return Sc(ite(and_(ok, gt(r, L_), lt(r, U), lt(d, BU), gt(d, BL)), ONE, ZERO))


RULES = {"MeanReversionStrategy": (mean_reversion_spec, [le(ZERO, TH)]), "RSIConfirmation": (confirmation_spec, []), "BarArrivalRSIStrategy": (arrival_spec, [])}
for name in RULES:
    def go(s, name=name):
        spec, more = RULES[name]
        cls, make, hyps, _ = PREDICTORS[name]
        with_indicators(s)
        rowwise(s, name + ".predict", tr(s, make, BARS, "predict"), spec, list(hyps) + more)
    contract("F09", name)(go)
    causal(name, PREDICTORS[name][1], "predict", PREDICTORS[name][2])


@contract("F09", "MACDHistogramCrossOver")
def macd_rule(s):
    with_indicators(s)
    h = indicator("ta_MACD_close_2", F, TP, S)
    def spec(k):
        a, b = h(k), h(prev(k))
        return Sc(div(sub(sign(a[0]), sign(b[0])), N(2)), or_(lt(k, ONE), a[1], b[1]))
    make = lambda it: it.call(mc.MACDHistogramCrossOver, [Sc(F), Sc(S), Sc(TP)], {})
    rowwise(s, "MACDHistogramCrossOver.transform", tr(s, make, {"close": ANY}), spec, FS)
    h = indicator("ta_MACD_my_close_2", F, TP, S)
    make = lambda it: it.call(mc.MACDHistogramCrossOver, [Sc(F), Sc(S), Sc(TP), "my_close"], {})
    rowwise(s, "MACDHistogramCrossOver.transform (renamed column)", tr(s, make, {"close": ANY, "my_close": ANY}), spec, FS)


rejects_fast("F09", [(mc.MACDHistogramCrossOver, [])])
