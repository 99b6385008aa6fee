"""Contracts of the numerical kernels: sampling, weights, barriers, bet averaging, structural breaks."""
from .base import *
from ..eng.lib import *
from ..eng import loops
from .feat import rows
from mizarlabs.transformers.sampling import down_sampling as ds
from mizarlabs.transformers import sample_weights as sw
from mizarlabs.transformers.trading import bet_sizing as bs
from mizarlabs.transformers.targets import labeling as lb, trend_scanning as ts
from mizarlabs.structural_breaks import cusum_chu_stinchcome_white as cs, sdfc, sadf

NN = [le(ZERO, n)]
m = var("m", "I")
h = var("h", "R")


def series(s, f, own="the series", length=n, name=None, space=None):
    setup(s)
    return Series(Index(space or time_space(), ZERO, length, own=own + " index"), f, "f", own, name)


def arr(f, length, own="the array", dt="f"):
    return Seq(ZERO, length, TR, f, dt, own)


TR = lambda k: TRUE


# ---------------------------------------------------------------- S01
X = column("x", False)


@contract("S01", "CUSUMFilter.transform")
def cusum(s):
    s.current = "mizarlabs.transformers.sampling.down_sampling.CUSUMFilter.transform"
    hy = NN + [le(ZERO, h)]

    def run(it):
        return it.call(it.getattr(it.call(ds.CUSUMFilter, [Sc(h)], {}), "transform"), [series(s, X)], {})

    def at(q):
        """(selected at bar q)"""
        x = fresh("q", "I")
        p0, q0 = fresh("p", "R"), fresh("u", "R")
        d = lambda j: sub(X(add(j, ONE)).v, X(j).v)
        up, dn = max2(ZERO, add(p0, d(x))), min2(ZERO, add(q0, d(x)))
        st = [ite(gt(up, h), ZERO, up), ite(lt(dn, neg(h)), ZERO, dn)]
        j = sub(q, ONE)
        P = fold(j, [ZERO, ZERO], st, [p0, q0], x, 0)
        Q = fold(j, [ZERO, ZERO], st, [p0, q0], x, 1)
        return or_(gt(max2(ZERO, add(P, d(j))), h), lt(min2(ZERO, add(Q, d(j))), neg(h)))
    for i, o in enumerate(s.paths("CUSUMFilter.transform", run, hy)):
        r = o.value
        k = K
        rg = list(o.pc) + [le(ZERO, k), lt(k, n)]
        got = and_(le(r.lo, k), lt(k, r.hi), r.g(k))
        s.goal("a time is selected exactly when the recurrence triggers there (path %d)" % i, rg, iff(got, and_(le(ONE, k), at(k))))
        s.equal("selected entries are the series' times (path %d)" % i, rg + [got], r.e(k), Sc(mul(MSNS, ms(k))))
        s.frame("CUSUMFilter.transform", o)


# ---------------------------------------------------------------- Z02
SIG = column("sig", False)
EN = lambda q: mul(MSNS, mk("app", ("en", N(q)), "I"))
tm._pos.add("en")
NOEND = lambda q: mk("app", ("no_end", N(q)), "B")
T = lambda q: mul(MSNS, ms(q))


def end_column(missing=True):
    return lambda k: Sc(EN(k), NOEND(k) if missing else FALSE)


@contract("Z02", "avg_active_signals")
def averaged(s):
    s.current = "mizarlabs.transformers.trading.bet_sizing.avg_active_signals"
    for custom in (False, True):
        e, b = ("my_end", "my_size") if custom else ("event_end_time", "bet_size")
        label = "avg_active_signals" + (" (renamed columns)" if custom else "")

        def run(it):
            setup(s)
            cols = {b: (SIG, "f"), e: (end_column(), "M")}
            if custom:
                cols.update(bet_size=(column("decoy", False), "f"), event_end_time=(lambda k: Sc(mul(MSNS, mk("app", ("decoy_end", N(k)), "I"))), "M"))
            X_ = Frame(Index(time_space(), ZERO, n, own="index"), cols, "the signals")
            return it.call(bs.avg_active_signals, [X_] + ([e, b] if custom else []), {})

        for i, o in enumerate(s.paths(label, run, NN)):
            r = o.value
            t = var("t", "I")
            ix = r.index
            src = getattr(ix.space, "of", None) or getattr(r, "of", None)
            lab = lambda k: ix.space.lab(k)
            k = K
            rg = list(o.pc) + [le(r.lo, k), lt(k, r.hi), r.g(k)]
            # the index: exactly the distinct start and end times, in time order
            want = lambda t: or_(exists(n, lambda q: eq(T(q), t)), exists(n, lambda q: and_(not_(NOEND(q)), eq(EN(q), t))))
            inside = ho("ex", sub(r.hi, r.lo), eq(lab(add(r.lo, fresh("z", "I"))), t), TRUE, fresh("z", "I"))
            s.goal("%s: each row's time is a start or an end (path %d)" % (label, i), rg, want(lab(k)))
            k2 = var("k2", "I")
            s.goal("%s: rows in strictly increasing time order (path %d)" % (label, i), rg + [lt(k, k2), lt(k2, r.hi)], lt(lab(k), lab(k2)))
            for nm, tt, g in (("start", T, TRUE), ("end", EN, not_(NOEND(K)))):
                pos = ss_pos(ix, tt(K))
                s.goal("%s: every %s time has a row (path %d)" % (label, nm, i), list(o.pc) + [le(ZERO, K), lt(K, n), g], and_(le(r.lo, pos), lt(pos, r.hi), eq(lab(pos), tt(K))))
            act = lambda u: lambda q: and_(le(T(q), u), or_(NOEND(q), lt(u, EN(q))))
            u = lab(k)
            cnt = ssum(n, lambda q: ONE, act(u))
            s.equal("%s: value (path %d)" % (label, i), rg, r.e(k), Sc(ite(exists(n, act(u)), div(ssum(n, lambda q: SIG(q).v, act(u)), cnt), ZERO)))
            s.frame(label, o)


def ss_pos(ix, t):
    """position of a time in a result index built by sorting a set"""
    nm = ix.space.name
    return mk("app", (nm + "_pos", t), "I")


# ---------------------------------------------------------------- K01
@contract("K01", "ChuStinchcombeWhiteStatTest.run")
def csw(s):
    s.current = "mizarlabs.structural_breaks.cusum_chu_stinchcome_white.ChuStinchcombeWhiteStatTest.run"
    s.assume("K01 is proved where the mean squared increment so far is positive (otherwise the statistic divides by zero)")
    C = cs.ChuStinchcombeWhiteStatTest
    for side in ("one_sided_positive", "one_sided_negative", "two_sided", "other"):
        def run(it):
            return it.call(it.getattr(it.call(C, [side], {}), "run"), [series(s, X)], {})
        label = "run(%s)" % side
        for i, o in enumerate(s.paths(label + ", no values", run, [eq(n, ZERO)], rejects=TRUE if side == "other" else FALSE)):
            r = o.value
            s.goal("%s, no values: no rows (path %d)" % (label, i), o.pc, le(r._index.hi, r._index.lo))
            s.frame(label, o)
        for i, o in enumerate(s.paths(label, run, [le(ONE, n)], rejects=TRUE if side == "other" else FALSE)):
            r = o.value
            rg = list(o.pc) + [le(ONE, K), lt(K, n)]
            # row K (K >= 1) is the time t = K + 1 in one-based counting
            t = add(K, ONE)
            sq = ssum(K, lambda j: powi(sub(X(add(j, ONE)).v, X(j).v), 2))
            s2 = div(sq, K)
            D = lambda j: {"one_sided_positive": sub(X(K).v, X(j).v), "one_sided_negative": sub(X(j).v, X(K).v), "two_sided": abs_(sub(X(K).v, X(j).v))}[side]
            S = lambda j: div(D(j), sqrt_(mul(s2, sub(K, j))))
            rg2 = rg + [gt(sq, ZERO)]
            s.goal("%s: one row per time from the second on, in order (path %d)" % (label, i), list(o.pc) + [le(ZERO, K), lt(K, n)],
                   iff(and_(le(r._index.lo, K), lt(K, r._index.hi), r._index.g(K)), le(ONE, K)))
            s.goal("%s: indexed by the series' times (path %d)" % (label, i), rg, eq(r._index.f(K).v if hasattr(r._index, "f") else r._index.space.lab(K), T(K)))
            st, cv = r["statistic"].e(K), r["critical_value"].e(K)
            s.equal("%s: statistic (path %d)" % (label, i), rg2, st, Sc(smax(K, S)))
            x = fresh("x", "I")
            first = ho("argmax", K, TRUE, S(x), x)
            s.equal("%s: critical value of the first attaining distance (path %d)" % (label, i), rg2, cv, Sc(sqrt_(add(N(Fraction(23, 5)), log_(sub(K, first))))))
            s.frame(label, o)


# ---------------------------------------------------------------- regressions
def ols(s, X, y, m, p):
    """(coefficient j, its variance) of regressing y(r) on X(r, 0..p-1) over m rows, by the textbook formulas"""
    a = [[ssum(m, lambda r: mul(X(r, i), X(r, j))) for j in range(p)] for i in range(p)]
    b = [ssum(m, lambda r: mul(X(r, i), y(r))) for i in range(p)]
    if p == 1:
        iv = [[inv(a[0][0])]]
    else:
        flat = tuple(x for r in a for x in r)
        iv = [[mk("app", ("inv%d" % p, N(i), N(j)) + flat, "R") for j in range(p)] for i in range(p)]
    beta = [add(*[mul(iv[i][j], b[j]) for j in range(p)]) for i in range(p)]
    res = lambda r: sub(y(r), add(*[mul(X(r, j), beta[j]) for j in range(p)]))
    s2 = div(ssum(m, lambda r: mul(res(r), res(r))), sub(N(m), N(p)))
    return lambda j: (beta[j], mul(s2, iv[j][j]))


def t_value(beta, v):
    return Sc(beta) / dom.pow_(Sc(v), Sc(N(Fraction(1, 2))))


def regression(s, widths):
    s.current = "mizarlabs.structural_breaks.sdfc.get_beta_and_beta_var"
    s.assume("regressions: np.linalg.inv of a square matrix is a function of its entries (1x1: the reciprocal); no regression is singular")
    XE = lambda r, j: mk("app", ("xx_%d" % j, N(r)), "R")
    YE = lambda r: mk("app", ("yy", N(r)), "R")
    for p in widths:
        label = "get_beta_and_beta_var, %d columns" % p

        def run(it):
            X = Mat(m, N(p), lambda i, j: dom.pick_list([Sc(XE(i, q)) for q in range(p)], j), "f", "the regressors")
            y = Mat(m, ONE, lambda i, j: Sc(YE(i)), "f", "the dependent")
            return it.call(sdfc.get_beta_and_beta_var, [X, y], {})
        for i, o in enumerate(s.paths(label, run, [le(N(p + 1), m)])):
            at = " (path %d)" % i
            b, v = o.value
            co = ols(s, XE, YE, m, p)
            s.goal(label + ": shapes" + at, o.pc, and_(eq(b.nr, N(p)), eq(b.nc, ONE), eq(v.nr, N(p)), eq(v.nc, N(p))))
            sing = ols_singular(XE, m, p)
            for j in range(p):
                wb, wv = co(j)
                s.equal(label + ": coefficient %d" % j + at, o.pc, b.e(N(j), ZERO), Sc(wb, sing))
                s.equal(label + ": variance of coefficient %d" % j + at, o.pc, v.e(N(j), N(j)), Sc(wv, sing))
            s.frame(label, o)


def ols_singular(XE, m, p):
    return eq(ssum(m, lambda r: mul(XE(r, 0), XE(r, 0))), ZERO) if p == 1 else FALSE


contract("K02", "get_beta_and_beta_var")(lambda s: regression(s, (1,)))
contract("L04", "get_beta_and_beta_var")(lambda s: regression(s, (2,)))
for p in range(2, 8):
    contract("K03", "get_beta_and_beta_var, %d columns" % p)(lambda s, p=p: regression(s, (p,)))


# ---------------------------------------------------------------- K02
@contract("K02", "SupremumDickeyFullerChowStatTest.run")
def chow(s):
    s.current = "mizarlabs.structural_breaks.sdfc.SupremumDickeyFullerChowStatTest"
    q = var("min_samples", "I")
    x = column("level", False)
    label = "SupremumDickeyFullerChowStatTest.run"

    def run(it):
        setup(s)
        return it.call(it.getattr(it.call(sdfc.SupremumDickeyFullerChowStatTest, [Sc(q)], {}), "run"), [series(s, x, own="the series")], {})
    for i, o in enumerate(s.paths(label, run, [le(ONE, q), le(mul(N(2), q), n), le(N(2), n)])):
        r = o.value
        at = " (path %d)" % i
        rg = list(o.pc) + [le(ZERO, K), lt(K, n)]
        s.goal(label + ": as many statistics as candidate breaks" + at, o.pc, eq(r._index.length(), sub(n, mul(N(2), q))))
        lo = r._index.lo
        ok = rg + [le(q, K), lt(K, sub(n, q))]
        pos = add(lo, sub(K, q))
        s.goal(label + ": indexed by the candidate breaks" + at, ok, and_(r._index.inr(pos), eq(r._index.e(pos).v, mul(MSNS, ms(K)))))
        XE = lambda r, j: ite(ge(r, K), x(r).v, ZERO)
        YE = lambda r: sub(x(add(r, ONE)).v, x(r).v)
        rows_ = sub(n, ONE)
        beta, v = ols(s, XE, YE, rows_, 1)(0)
        sing = ols_singular(XE, rows_, 1)
        w = t_value(beta, v)
        s.equal(label + ": the t-value of that break's regression" + at, ok + [not_(sing)], r.e(pos), w)
        s.frame(label, o)


# ---------------------------------------------------------------- K03
ML, PHI, TT = var("min_length", "I"), var("phi", "R"), var("rows", "I")
BB, VV = lambda a, b: mk("app", ("beta", N(a), N(b)), "R"), lambda a, b: mk("app", ("beta_var", N(a), N(b)), "R")


def window_stat(start, rows_, sm):
    """the statistic of the window of rows start..rows_-1"""
    r = t_value(BB(start, rows_), VV(start, rows_))
    if sm:
        r = abs(r) / dom.pow_(Sc(sub(rows_, add(start, ONE))), Sc(PHI))
    return r


@contract("K03", "_get_sadf_at_t")
def window_sup(s):
    s.current = "mizarlabs.structural_breaks.sadf._get_sadf_at_t"
    s.assume("K03: get_beta_and_beta_var meets the contract proved here; estimated variances are positive (no perfect fit)")
    R, J = var("r", "I"), var("j", "I")
    tm._pos.add("beta_var")
    XE = lambda r, j: mk("app", ("regressor", N(r), N(j)), "R")
    YE = lambda r: mk("app", ("dependent", N(r)), "R")
    P = var("columns", "I")

    def beta(it, args, kw):
        X, y = args
        h, ob = list(dom.ctx().hyps), dom.ctx().obls
        st = sub(TT, X.nr)          # the window's first row
        ob.append(("as many rows of both", h, and_(eq(X.nr, y.nr), eq(X.nc, P), eq(y.nc, ONE)), None))
        hr = h + [le(ZERO, R), lt(R, X.nr), le(ZERO, J), lt(J, P)]
        ob.append(("rows of the window", hr, and_(not_(X.e(R, J).nan), eq(X.e(R, J).v, XE(add(st, R), J)), not_(y.e(R, ZERO).nan), eq(y.e(R, ZERO).v, YE(add(st, R)))), None))
        return (Mat(P, ONE, lambda i, j: Sc(mk("app", ("beta_other", st, N(i)), "R")) if i is not ZERO else Sc(BB(st, TT)), "f"),
                Mat(P, P, lambda i, j: Sc(mk("app", ("var_other", st, N(i), N(j)), "R")) if not (i is ZERO and j is ZERO) else Sc(VV(st, TT)), "f"))
    s.over[sdfc.get_beta_and_beta_var] = beta
    for model, sm in [(x, x.startswith("sm")) for x in ("no_trend", "linear", "quadratic", "sm_poly_1", "sm_poly_2", "sm_exp", "sm_power")]:
        label = "_get_sadf_at_t (%s)" % model

        def run(it):
            setup(s)
            return it.call(sadf._get_sadf_at_t, [Mat(TT, P, lambda i, j: Sc(XE(i, j)), "f", "the regressors"), Mat(TT, ONE, lambda i, j: Sc(YE(i)), "f", "the dependent"), Sc(ML), model, Sc(PHI)], {})
        for i, o in enumerate(s.paths(label, run, [le(N(2), ML), le(ML, TT), le(ZERO, PHI), le(PHI, ONE), le(N(1), P)])):
            at = " (path %d)" % i
            x = fresh("w", "I")
            w = window_stat(x, TT, sm)
            best = ho("max", add(sub(TT, ML), ONE), TRUE, w.v, x)
            s.goal(label + ": the largest over the windows of at least the minimum length" + at, o.pc, and_(not_(o.value.nan), eq(o.value.v, best)))
            s.frame(label, o)


level = column("tested_level")


def design(model, lags, const):
    """(first row's position in the series, regressors of design row r, dependent of row r), the tested coefficient's regressor first"""
    x = lambda q: level(q).v
    d = lambda q: sub(x(q), x(sub(q, ONE)))
    tr = lambda r: add(r, ONE)
    if model in ("no_trend", "linear", "quadratic"):
        ls = list(range(1, lags + 1)) if isinstance(lags, int) else lags
        first = 1 + max(ls)
        at = lambda r: add(N(first), r)
        cols = [lambda r: x(sub(at(r), ONE))] + [lambda r, l=l: d(sub(at(r), N(l))) for l in ls]
        cols += [tr] if model != "no_trend" else []
        cols += [lambda r: mul(tr(r), tr(r))] if model == "quadratic" else []
        cols += [lambda r: ONE] if const else []
        return first, cols, lambda r: d(at(r))
    lg = lambda t: dom.log_sc(Sc(t)).v
    quad = [lambda r: mul(tr(r), tr(r)), lambda r: ONE, tr]
    cols = {"sm_poly_1": quad, "sm_poly_2": quad, "sm_exp": [tr, lambda r: ONE], "sm_power": [lambda r: lg(tr(r)), lambda r: ONE]}[model]
    return 0, cols, x if model == "sm_poly_1" else lambda r: lg(x(r))


def sadf_run(s, model, lags):
    cls = sadf.SupremumAugmentedDickeyFullerStatTest
    s.current = "mizarlabs.structural_breaks.sadf.SupremumAugmentedDickeyFullerStatTest"
    s.assume("K03: lags from 1, 2, 3, [2], [1, 3] (the number of regressors is fixed by the configuration); positive series for the models of the logarithm")
    x = level
    R = var("r", "I")
    for const in (True, False):
        label = "SupremumAugmentedDickeyFullerStatTest.run (%s, lags %s%s)" % (model, lags, ", constant" if const else "")
        first, cols, dep = design(model, lags, const)

        def inner(it, args, kw):
            X, y, ml, md, phi = args
            h, ob = list(dom.ctx().hyps), dom.ctx().obls
            ob.append(("as many rows of both, the model's regressors", h, and_(eq(X.nr, y.nr), eq(X.nc, N(len(cols))), eq(y.nc, ONE), eq(sc(ml).v, ML), eq(sc(phi).v, PHI), TRUE if md == model else FALSE), None))
            hr = h + [le(ZERO, R), lt(R, X.nr)]
            ob.append(("the dependent variable", hr, and_(not_(y.e(R, ZERO).nan), eq(y.e(R, ZERO).v, dep(R))), None))
            for j, c in enumerate(cols):
                e = X.e(R, N(j))
                ob.append(("regressor %d" % j, hr, and_(not_(e.nan), eq(num(e.v), c(R))), None))
            return Sc(mk("app", ("sup", X.nr), "R"))
        s.over[sadf._get_sadf_at_t] = inner

        def run(it):
            setup(s)
            return it.call(it.getattr(it.call(cls, [model, lags, Sc(ML), const, Sc(PHI)], {}), "run"), [series(s, x, own="the series")], {})
        mx = lags if isinstance(lags, int) else max(lags)
        ok = and_(le(ZERO, PHI), le(PHI, ONE), lt(N(mx), ML))
        hy = [le(ONE, ML), le(add(ML, N(first)), n)]
        for i, o in enumerate(s.paths(label, run, hy, rejects=not_(ok))):
            at = " (path %d)" % i
            r = o.value
            s.goal(label + ": returns only for a valid configuration" + at, o.pc, ok)
            rows_ = sub(n, N(first))
            s.goal(label + ": one statistic per row from the minimum length on" + at, o.pc, eq(r._index.length(), sub(rows_, ML)))
            rg = list(o.pc) + [le(ML, K), lt(K, rows_)]
            pos = add(r._index.lo, sub(K, ML))
            s.goal(label + ": indexed by the times of those rows" + at, rg, and_(r._index.inr(pos), eq(r._index.e(pos).v, mul(MSNS, ms(add(K, N(first)))))))
            s.equal(label + ": the supremum over the windows that end there" + at, rg, r.e(pos), Sc(mk("app", ("sup", add(K, ONE)), "R")))
            s.frame(label, o)


for _m in ("no_trend", "linear", "quadratic"):
    for _l in (1, 2, 3, [2], [1, 3]):
        contract("K03", "run (%s, lags %s)" % (_m, _l))(lambda s, a=_m, b=_l: sadf_run(s, a, b))
for _m in ("sm_poly_1", "sm_poly_2", "sm_exp", "sm_power"):
    contract("K03", "run (%s)" % _m)(lambda s, a=_m: sadf_run(s, a, 1))


# ---------------------------------------------------------------- L04
WIN, MIN, STEP = var("look_forward", "I"), var("min_sample", "I"), var("step", "I")
price = column("trend_close")


@contract("L04", "_get_t_val_and_event_end_time_index_at_index")
def scan(s):
    s.current = "mizarlabs.transformers.targets.trend_scanning._get_t_val_and_event_end_time_index_at_index"
    s.assume("L04: get_beta_and_beta_var meets the contract proved here; estimated variances are positive (no perfect fit)")
    tm._pos.add("trend_var")
    R, q = var("r", "I"), var("other", "I")
    fb, fv_ = lambda w: mk("app", ("trend_beta", N(w)), "R"), lambda w: mk("app", ("trend_var", N(w)), "R")

    def beta(it, args, kw):
        X, y = args
        h, ob = list(dom.ctx().hyps), dom.ctx().obls
        ob.append(("as many rows of both", h, and_(eq(X.nr, y.nr), eq(X.nc, N(2)), eq(y.nc, ONE)), None))
        hr = h + [le(ZERO, R), lt(R, X.nr)]
        e = X.e(R, ZERO), X.e(R, ONE), y.e(R, ZERO)
        ob.append(("a constant, the position and the values from the event on", hr, and_(*[and_(not_(a.nan), eq(num(a.v), b)) for a, b in zip(e, (ONE, R, price(R).v))]), None))
        w = X.nr
        other = lambda i, j: Sc(mk("app", ("other", w, N(i), N(j)), "R"))
        return (Mat(N(2), ONE, lambda i, j: Sc(fb(w)) if i is ONE else other(i, j), "f"),
                Mat(N(2), N(2), lambda i, j: Sc(fv_(w)) if i is ONE and j is ONE else other(i, j), "f"))
    s.over[sdfc.get_beta_and_beta_var] = beta
    label = "_get_t_val_and_event_end_time_index_at_index"

    def run(it):
        setup(s)
        return it.call(ts._get_t_val_and_event_end_time_index_at_index, [arr(lambda k: price(k), WIN, "the window's values"), Sc(MIN), Sc(STEP)], {})
    div_ = lambda k: eq((Sc(k) % Sc(STEP)).v, ZERO)
    tv = lambda w: t_value(fb(w), fv_(w))
    for i, o in enumerate(s.paths(label, run, [le(N(3), MIN), lt(MIN, WIN), le(ONE, STEP)])):
        at = " (path %d)" % i
        t, a = o.value
        a = sc(a).v
        s.goal(label + ": a position of the scan" + at, o.pc, and_(le(ZERO, a), lt(a, sub(WIN, MIN))))
        s.goal(label + ": only a scanned window length" + at, o.pc, div_(a))
        s.equal(label + ": the trend's t-value in that window" + at, o.pc, t, tv(add(MIN, a)))
        s.goal(label + ": no scanned window has a larger absolute t-value" + at, list(o.pc) + [le(ZERO, q), lt(q, sub(WIN, MIN)), div_(q)], le(abs(tv(add(MIN, q))).v, abs(t).v))
        s.frame(label, o)


@contract("L04", "_trend_scan_each_index")
def scan_each(s):
    s.current = "mizarlabs.transformers.targets.trend_scanning._trend_scan_each_index"
    E = var("events", "I")
    ix = lambda k: mk("app", ("event_position", N(k)), "I")
    R, q = var("r", "I"), var("event", "I")
    T, A = lambda st: mk("app", ("scan_t", N(st)), "R"), lambda st: mk("app", ("scan_at", N(st)), "I")
    label = "_trend_scan_each_index"

    def kernel(it, args, kw):
        y, m_, st = args
        h, ob = list(dom.ctx().hyps), dom.ctx().obls
        y = y.need_dense()
        ob.append(("a whole window is scanned with the scan's settings", h, and_(eq(sc(m_).v, MIN), eq(sc(st).v, STEP), eq(y.length(), WIN)), None))
        # the position the window starts at
        first = y.e(y.lo).v
        if first.op != "poly" and first.op != "app" or len(dom.apps_of(first)) != 1:
            raise Unsupported("window of unknown start")
        e = dom.apps_of(first)[0].args[1]
        v = y.e(add(y.lo, R))
        ob.append(("the values from there on", h + [le(ZERO, R), lt(R, WIN)], and_(not_(v.nan), eq(num(v.v), price(add(e, R)).v)), None))
        return Sc(T(e)), Sc(A(e))
    s.over[ts._get_t_val_and_event_end_time_index_at_index] = kernel

    def run(it):
        setup(s)
        ev = Seq(ZERO, E, TR, lambda k: Sc(ix(k)), "i", "the events' positions")
        return it.call(ts._trend_scan_each_index, [arr(lambda k: price(k), n, "the closes"), ev, Sc(MIN), Sc(WIN), Sc(STEP)], {})
    k = fresh("k", "I")
    within = not_(ho("ex", E, not_(and_(le(ZERO, ix(k)), lt(ix(k), n))), TRUE, k))
    for i, o in enumerate(s.paths(label, run, [le(ZERO, n), le(ZERO, E), le(N(3), MIN), lt(MIN, WIN), le(ONE, STEP), within])):
        at = " (path %d)" % i
        tv, en = o.value
        s.goal(label + ": one result per event" + at, o.pc, and_(eq(tv.length(), E), eq(en.length(), E)))
        rg = list(o.pc) + [le(ZERO, q), lt(q, E), le(ZERO, ix(q)), lt(ix(q), n)]
        p = ix(q)
        lacks = lt(n, add(p, WIN))
        s.equal(label + ": the scan's t-value, none without enough data" + at, rg, tv.e(q), Sc(T(p), lacks))
        s.equal(label + ": the position of the chosen window's last bar" + at, rg, en.e(q), Sc(sub(add(p, A(p), MIN), ONE), lacks))
        s.frame(label, o)


def trend_labels(s, subset):
    s.current = "mizarlabs.transformers.targets.trend_scanning.TrendScannerLabeling"
    R = var("r", "I")
    T, A = lambda st: mk("app", ("scan_t", N(st)), "R"), lambda st: mk("app", ("scan_last", N(st)), "I")
    lacks = lambda p: lt(n, add(p, WIN))
    label = "TrendScannerLabeling.transform (%s)" % ("a subset of the bars" if subset else "every bar an event")
    chosen = (lambda k: mk("app", ("chosen", N(k)), "B")) if subset else (lambda k: TRUE)

    def each(it, args, kw):
        a = dict(zip(("y_array", "indices", "min_sample_length", "look_forward_window", "step"), args), **kw)
        y, ix = a["y_array"].need_dense(), a["indices"]
        h, ob = list(dom.ctx().hyps), dom.ctx().obls
        ob.append(("the labeller's settings, the series' closes", h, and_(eq(sc(a["min_sample_length"]).v, MIN), eq(sc(a["look_forward_window"]).v, WIN), eq(sc(a["step"]).v, STEP), eq(y.length(), n)), None))
        v = y.e(add(y.lo, R))
        ob.append(("the series' closes at their positions", h + [le(ZERO, R), lt(R, n)], and_(not_(v.nan), eq(num(v.v), price(R).v)), None))
        p = lambda k: ix.e(k).v
        ob.append(("positions of the series", h + [ix.inr(R)], and_(le(ZERO, p(R)), lt(p(R), n)), None))
        # one result per event, in the events' order
        return (Seq(ix.lo, ix.hi, ix.g, lambda k: Sc(T(p(k)), lacks(p(k))), "f"), Seq(ix.lo, ix.hi, ix.g, lambda k: Sc(A(p(k)), lacks(p(k))), "f"))
    s.over[ts._trend_scan_each_index] = each

    def run(it):
        setup(s)
        sp = time_space()
        ev = it.getattr(Index(sp, ZERO, n, chosen, own="the events"), "values") if subset else None
        l = it.call(ts.TrendScannerLabeling, [ev], {"look_forward_window": Sc(WIN), "min_sample_length": Sc(MIN), "step": Sc(STEP)})
        return it.call(it.getattr(l, "transform"), [series(s, price, own="the closes", space=sp)], {}), l, ev
    q = var("bar", "I")
    hy = [le(ZERO, n), le(N(3), MIN), le(ONE, STEP)]
    # the scan's contract: the chosen window's last bar
    r = fresh("k", "I")
    hy.append(not_(ho("ex", n, not_(or_(lacks(r), and_(le(sub(add(r, MIN), ONE), A(r)), lt(A(r), sub(add(r, WIN), ONE))))), TRUE, r)))
    for i, o in enumerate(s.paths(label, run, hy, rejects=le(WIN, MIN))):
        at = " (path %d)" % i
        f, l, ev = o.value
        s.goal(label + ": columns" + at, o.pc, TRUE if set(f.cols) == {"event_end_time", "t_value", "return", "label"} else FALSE)
        s.goal(label + ": the labeller's own settings stay" + at, o.pc, TRUE if l.__dict__["t_events"] is ev else FALSE)
        rg = list(o.pc) + [le(ZERO, q), lt(q, n), chosen(q)]
        s.goal(label + ": one row per event" + at, rg, and_(f._index.inr(q), eq(f._index.e(q).v, mul(MSNS, ms(q)))))
        s.goal(label + ": no other rows" + at, list(o.pc) + [f._index.inr(q)], and_(le(ZERO, q), lt(q, n), chosen(q)))
        got = lambda c: f.cols[c][0](q)
        lk = lacks(q)
        s.equal(label + ": t-value" + at, rg, got("t_value"), Sc(T(q), lk))
        s.equal(label + ": end time" + at, rg, got("event_end_time"), Sc(mul(MSNS, ms(A(q))), lk))
        s.equal(label + ": return from the event to the end" + at, rg, got("return"), Sc(sub(div(price(A(q)).v, price(q).v), ONE), lk))
        s.equal(label + ": label is the t-value's sign" + at, rg, got("label"), Sc(dom.sign_sc(Sc(T(q))).v, lk))
        s.frame(label, o)


contract("L04", "TrendScannerLabeling.transform, every bar")(lambda s: trend_labels(s, False))
contract("L04", "TrendScannerLabeling.transform, subset")(lambda s: trend_labels(s, True))
