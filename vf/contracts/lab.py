"""Contracts of bet sizing, labelling, structural-break statistics and strategy bars."""
from .base import *
from ..eng.lib import *
from ..eng import loops
from mizarlabs.transformers.trading import bet_sizing as bs
from mizarlabs.transformers.targets import labeling as lb

POSN = [le(ONE, n)]
UNIT = [le(ZERO, K), lt(K, n)]


def ncdf(x): return mk("app", ("ncdf", N(x)), "R")


# ---------------------------------------------------------------- Z01
PR = lambda q: mk("app", ("prob", N(q)), "R")
PD = lambda q: mk("app", ("pred", N(q)), "R")
SD = lambda q: mk("app", ("side", N(q)), "R")


def every(f):
    """a fact about every bar"""
    return forall(n, f)


@contract("Z01", "BetSizingFromProbabilities.transform")
def bet_size(s):
    s.current = "mizarlabs.transformers.trading.bet_sizing.BetSizingFromProbabilities"
    nc = var("n_classes", "I")
    tm._axiom["prob"] = lambda q: [and_(lt(ZERO, PR(q)), lt(PR(q), ONE))]
    tm._axiom["pred"] = lambda q: [and_(le(N(-1), PD(q)), le(PD(q), ONE))]
    tm._axiom["side"] = lambda q: [or_(eq(SD(q), N(-1)), eq(SD(q), ZERO), eq(SD(q), ONE))]
    s.assume("Z01: probabilities strictly between 0 and 1, predictions in [-1, 1], sides in {-1, 0, 1}, at least one class")
    for meta in (False, True):
        for names in ({}, dict(probability_column_name="my_prob", prediction_column_name="my_pred", side_column_name="my_side")):
            label = "bet size%s%s" % (" (meta-labelling)" if meta else "", " (renamed columns)" if names else "")

            def run(it):
                p, d, si = [names.get(k + "_column_name", k) for k in ("probability", "prediction", "side")] if names else ("prob", "pred", "side")
                setup(s)
                cols = {p: (lambda k: Sc(PR(k)), "f"), d: (lambda k: Sc(PD(k)), "f"), si: (lambda k: Sc(SD(k)), "f")}
                if names:
                    cols.update({c: (column("decoy_" + c, False), "f") for c in ("prob", "pred", "side")})
                X = Frame(Index(time_space(), ZERO, n, own="index"), cols, "the frame")
                return it.call(it.getattr(it.call(bs.BetSizingFromProbabilities, [Sc(nc)], dict(names, meta_labeling=meta)), "transform"), [X], {})

            def spec(k):
                p = PR(k)
                z = div(sub(p, inv(nc)), sqrt_(mul(p, sub(ONE, p))))
                v = mul(PD(k), sub(mul(N(2), ncdf(z)), ONE))
                return abs_(mul(v, SD(k)) if meta else v)
            for i, o in enumerate(s.paths(label, run, POSN + [le(ONE, nc)])):
                r = o.value
                rg = list(o.pc) + UNIT
                at = " (path %d)" % i
                s.goal(label + ": indexed like the input" + at, rg, and_(eq(r._index.lo, ZERO), eq(r._index.hi, n), r.g(K), eq(r._index.space.lab(K), mul(MSNS, ms(K)))))
                s.equal(label + ": value" + at, rg, r.e(K), Sc(spec(K)))
                s.goal(label + ": between zero and one" + at, rg, and_(ge(r.e(K).v, ZERO), le(r.e(K).v, ONE)))
                s.frame(label, o)


# ---------------------------------------------------------------- Z03
@contract("Z03", "discretise_signal")
def discretised(s):
    s.current = "mizarlabs.transformers.trading.bet_sizing.discretise_signal"
    st = var("step", "R")
    sig = lambda q: mk("app", ("sig", N(q)), "R")
    miss = lambda q: mk("app", ("no_sig", N(q)), "B")
    rnd = lambda x, d: mk("app", ("round", N(x), N(d)), "R")
    label = "discretise_signal"

    def run(it):
        setup(s)
        X = Series(Index(time_space(), ZERO, n, own="index"), lambda k: Sc(sig(k), miss(k)), "f", "the signal")
        return it.call(bs.discretise_signal, [X, Sc(st)], {})
    for i, o in enumerate(s.paths(label, run, [le(ZERO, n)], rejects=or_(le(st, ZERO), ge(st, ONE)))):
        r = o.value
        rg = list(o.pc) + UNIT
        at = " (path %d)" % i
        near = rnd(div(sig(K), st), ZERO)
        v = rnd(mul(near, st), N(3))
        s.goal(label + ": index kept" + at, rg, and_(eq(r._index.lo, ZERO), eq(r._index.hi, n), r.g(K), eq(r._index.space.lab(K), mul(MSNS, ms(K)))))
        s.equal(label + ": value" + at, rg, r.e(K), Sc(ite(gt(v, ONE), ONE, ite(lt(v, N(-1)), N(-1), v)), miss(K)))
        s.goal(label + ": between minus one and one" + at, rg + [not_(miss(K))], and_(le(N(-1), r.e(K).v), le(r.e(K).v, ONE)))
        s.frame(label, o)


# ---------------------------------------------------------------- Z02: sizing with averaging
@contract("Z02", "BetSizingFromProbabilities.transform, averaged")
def averaged_size(s):
    s.current = "mizarlabs.transformers.trading.bet_sizing.BetSizingFromProbabilities"
    nc, st = var("n_classes", "I"), var("step", "R")
    tm._axiom["prob"] = lambda q: [and_(lt(ZERO, PR(q)), lt(PR(q), ONE))]
    tm._axiom["pred"] = lambda q: [and_(le(N(-1), PD(q)), le(PD(q), ONE))]
    tm._axiom["avg_size"] = lambda q: [and_(le(N(-1), AV(q)), le(AV(q), ONE))]
    tm._pos.add("en")
    AV = lambda q: mk("app", ("avg_size", N(q)), "R")
    END, NOE = lambda q: mul(MSNS, mk("app", ("en", N(q)), "I")), lambda q: mk("app", ("no_end", N(q)), "B")
    rnd = lambda x, d: mk("app", ("round", N(x), N(d)), "R")
    m = var("m", "I")
    tsp = Space("times", lambda q: mul(MSNS, mk("app", ("at", N(q)), "I")), "M", True)
    tm._incr.add("at")
    s.assume("avg_active_signals meets the contract proved under Z02, and a mean of sizes in [-1, 1] is in [-1, 1]")
    size = lambda k: mul(PD(k), sub(mul(N(2), ncdf(div(sub(PR(k), inv(nc)), sqrt_(mul(PR(k), sub(ONE, PR(k))))))), ONE))
    for disc in (False, True):
        for e, b in (("event_end_time", "bet_size"), ("my_end", "my_size")):
            label = "averaged bet size%s (%s, %s)" % (" (discretised)" if disc else "", e, b)
            seen = {}

            def callee(it, args, kw):
                names = ["signals", "event_end_time_column_name", "bet_size_column_name"]
                a = dict(zip(names, args)); a.update(kw)
                X = a["signals"]
                ec, bc = a.get("event_end_time_column_name", "event_end_time"), a.get("bet_size_column_name", "bet_size")
                for c in (ec, bc):
                    if c not in X.cols:
                        raise PyRaise(KeyError, c)
                h = list(dom.ctx().hyps) + [le(ZERO, K), lt(K, n)]
                ob = dom.ctx().obls
                sz, en = X.cols[bc][0](K), X.cols[ec][0](K)
                ob.append(("signals indexed like the input", h, and_(X._index.inr(K), eq(X._index.space.lab(K), mul(MSNS, ms(K))), eq(X._index.lo, ZERO), eq(X._index.hi, n)), None))
                ob.append(("signals: no size is missing", h, not_(sz.nan), None))
                ob.append(("signals: the size of each bet", h, eq(sz.v, size(K)), None))
                ob.append(("signals: the end of each bet", h, and_(iff(en.nan, NOE(K)), or_(en.nan, eq(en.v, END(K)))), None))
                return Series(Index(tsp, ZERO, m), lambda q: Sc(AV(q)), "f")
            s.over[bs.avg_active_signals] = callee

            def run(it):
                setup(s)
                cols = {"prob": (lambda k: Sc(PR(k)), "f"), "pred": (lambda k: Sc(PD(k)), "f"), e: (lambda k: Sc(END(k), NOE(k)), "M")}
                X = Frame(Index(time_space(), ZERO, n, own="index"), cols, "the frame")
                kw = dict(average_active=True, event_end_time_column_name=e, bet_size_column_name=b)
                if disc:
                    kw.update(discretise=True, step_size=Sc(st))
                return it.call(it.getattr(it.call(bs.BetSizingFromProbabilities, [Sc(nc)], kw), "transform"), [X], {})
            for i, o in enumerate(s.paths(label, run, POSN + [le(ONE, nc), le(ZERO, m)], rejects=or_(le(st, ZERO), ge(st, ONE)) if disc else None)):
                r = o.value
                rg = list(o.pc) + [le(ZERO, K), lt(K, m)]
                at = " (path %d)" % i
                v = AV(K)
                if disc:
                    v = rnd(mul(rnd(div(v, st), ZERO), st), N(3))
                    v = ite(gt(v, ONE), ONE, ite(lt(v, N(-1)), N(-1), v))
                s.goal(label + ": indexed by the averaged times" + at, rg, and_(eq(r._index.lo, ZERO), eq(r._index.hi, m), r.g(K), eq(r._index.space.lab(K), tsp.lab(K))))
                s.equal(label + ": value" + at, rg, r.e(K), Sc(abs_(v)))
                s.frame(label, o)


# ---------------------------------------------------------------- L03 (and the daily volatility part of F07)
DAY = 86400 * 10 ** 9


def more_than_a_day(x, k):
    return lt(mul(MSNS, ms(x)), sub(mul(MSNS, ms(k)), N(DAY)))


def partner(k):
    """the last bar, of the bars before bar k, strictly more than one day before it (minus one: none)"""
    x = fresh("p", "I")
    return ho("last", k, more_than_a_day(x, k), TRUE, x)


def has_partner(k):
    return exists(k, lambda x: more_than_a_day(x, k))


def vol_spec(c, lo, k, span):
    """the volatility of bar k when lo is the first bar with a return"""
    ret = lambda k: Sc(sub(div(c(k).v, c(partner(k)).v), ONE))
    return Sc(sqrt_(dom.ewm_var(ret, lo, k, dom.ewm_decay(span))), eq(k, lo))


def daily_vol(s):
    s.current = "mizarlabs.transformers.targets.labeling.get_daily_vol"
    span = var("span", "I")
    c = column("close")
    label = "get_daily_vol"

    def run(it):
        setup(s)
        X = Series(Index(time_space(), ZERO, n, own="index"), c, "f", "the closes")
        return it.call(lb.get_daily_vol, [X, Sc(span)], {})
    for i, o in enumerate(s.paths(label, run, POSN + [le(ONE, span)])):
        r = o.value
        at = " (path %d)" % i
        rg = list(o.pc) + UNIT
        lo = r._index.lo
        s.goal(label + ": volatility exactly for the bars with an earlier bar more than a day old" + at, rg, iff(r._index.inr(K), has_partner(K)))
        s.goal(label + ": at the bar's time" + at, rg, eq(r._index.space.lab(K), mul(MSNS, ms(K))))
        have = rg + [le(lo, K)]
        s.equal(label + ": value" + at, have, r.e(K), vol_spec(c, lo, K, span))
        s.goal(label + ": the partner is at most the bar" + at, have, and_(le(ZERO, partner(K)), lt(partner(K), K)))
        s.frame(label, o)


for p in ("L03", "F07"):
    contract(p, "get_daily_vol")(daily_vol)


def daily_vol_causal(s):
    """lemma over the contract: what it says about bar K is the same on other closes and times that agree up to bar K"""
    from .feat import other_data, n2
    s.current = "mizarlabs.transformers.targets.labeling.get_daily_vol"
    setup(s)
    span, f, J = var("span", "I"), var("first_vol", "I"), var("j", "I")
    c = column("close")
    label = "get_daily_vol on another continuation"
    other = lambda t: other_data(t, K, n2)
    hy = UNIT + [le(ZERO, f), le(f, K), le(ONE, span), lt(K, n2)]
    s.goal(label + ": volatility at the same bars", hy, iff(has_partner(K), other(has_partner(K))))
    s.goal(label + ": the same partners", hy + [le(ZERO, J), le(J, K), has_partner(J), other(has_partner(J))], eq(partner(J), other(partner(J))))
    v = vol_spec(c, f, K, span)
    s.equal(label + ": the same value", hy, Sc(other(v.v), other(v.nan)), v)


for p in ("L03", "F07"):
    contract(p, "get_daily_vol, causality")(daily_vol_causal)


# ---------------------------------------------------------------- L01: triple barrier
c_ = column("close")
side_ = column("side", False)
EN = lambda k: mk("app", ("end", N(k)), "I")            # expiration time, in milliseconds
SLB = lambda k: Sc(mk("app", ("sl", N(k)), "R"), mk("app", ("no_sl", N(k)), "B"))
PTB = lambda k: Sc(mk("app", ("pt", N(k)), "R"), mk("app", ("no_pt", N(k)), "B"))


def move(k, x):
    """side-adjusted return of bar x against bar k"""
    return mul(sub(div(c_(x).v, c_(k).v), ONE), side_(k).v)


def touch(k, end, hit):
    """position of the first bar from bar k on, strictly before the end, at which hit holds; and whether there is one"""
    x, y = fresh("t", "I"), fresh("t", "I")
    g = lambda q: and_(le(k, q), lt(ms(q), end), hit(q))
    return ho("first", n, g(x), TRUE, x), ho("ex", n, g(y), TRUE, y)


@contract("L01", "get_horizontal_barriers_hit")
def kernel(s):
    s.current = "mizarlabs.transformers.targets.labeling.get_horizontal_barriers_hit"
    label = "get_horizontal_barriers_hit"

    def run(it):
        setup(s)
        sq = lambda e, dt, own: Seq(ZERO, n, None, e, dt, own)
        return it.call(lb.get_horizontal_barriers_hit, [sq(lambda k: Sc(EN(k)), "i", "expirations"), sq(lambda k: Sc(ms(k)), "i", "times"), sq(c_, "f", "closes"), sq(side_, "f", "sides"),
                                                        sq(SLB, "f", "stop losses"), sq(PTB, "f", "profit takings")], {})
    for i, o in enumerate(s.paths(label, run, POSN)):
        at = " (path %d)" % i
        rg = list(o.pc) + UNIT
        pt, sl = o.value
        for nm, got, b, rel in (("stop loss", sl, SLB, lt), ("profit taking", pt, PTB, gt)):
            f, some = touch(K, EN(K), lambda q: and_(not_(b(K).nan), rel(move(K, q), b(K).v)))
            s.goal("%s: %s, one per bar" % (label, nm) + at, o.pc, and_(eq(sub(got.hi, got.lo), n)))
            v = got.at(K)
            s.goal("%s: %s touched first" % (label, nm) + at, rg + [some], and_(not_(v.nan), eq(v.v, ms(f))))
            s.goal("%s: %s not touched" % (label, nm) + at, rg + [not_(some)], and_(not_(v.nan), eq(v.v, ZERO)))
        s.frame(label, o)


PT, SL = var("profit_taking", "R"), var("stop_loss", "R")
ENT = lambda k: Sc(mul(MSNS, EN(k)), mk("app", ("no_expiration", N(k)), "B"))
VOL = lambda k: Sc(mk("app", ("vol", N(k)), "R"), mk("app", ("no_vol", N(k)), "B"))


def touches(k, end):
    """(first stop loss, some), (first profit taking, some) of bar k before the time end in ms"""
    v = VOL(k)
    sl = touch(k, end, lambda q: and_(gt(SL, ZERO), not_(v.nan), lt(move(k, q), neg(mul(SL, v.v)))))
    pt = touch(k, end, lambda q: and_(gt(PT, ZERO), not_(v.nan), gt(move(k, q), mul(PT, v.v))))
    return sl, pt


@contract("L01", "triple_barrier_labeling")
def barriers(s):
    s.current = "mizarlabs.transformers.targets.labeling.triple_barrier_labeling"
    label = "triple_barrier_labeling"

    def run(it):
        setup(s)
        ix = Index(time_space(), ZERO, n, own="index")
        close = Series(ix, c_, "f", "the closes")
        info = Frame(ix, {lb.EVENT_END_TIME: (ENT, "M"), lb.DAILY_VOL: (VOL, "f"), lb.SIDE: (side_, "f")}, "the barrier frame")
        return it.call(lb.triple_barrier_labeling, [close, info, Sc(PT), Sc(SL)], {})
    for i, o in enumerate(s.paths(label, run, POSN, rejects=and_(lt(PT, ZERO), lt(SL, ZERO)))):
        at = " (path %d)" % i
        rg = list(o.pc) + UNIT
        r = o.value
        sl, pt = touches(K, ite(ENT(K).nan, ms(sub(n, ONE)), EN(K)))
        s.record(label + ": columns" + at, "discharged" if set(r.cols) == {"event_end_time", "stop_loss", "profit_taking"} else "refuted", "executor", str(list(r.cols)))
        s.goal(label + ": indexed like the input" + at, rg, and_(r._index.inr(K), eq(r._index.lo, ZERO), eq(r._index.hi, n), eq(r._index.space.lab(K), mul(MSNS, ms(K)))))
        s.equal(label + ": expiration" + at, rg, r.cols["event_end_time"][0](K), ENT(K))
        for nm, (f, some) in (("stop_loss", sl), ("profit_taking", pt)):
            s.equal("%s: %s" % (label, nm) + at, rg, r.cols[nm][0](K), Sc(mul(MSNS, ms(f)), not_(some)))
        s.frame(label, o)


# ---------------------------------------------------------------- L02: labels
LAST = lambda k: mk("app", ("last_bar", N(k)), "I")      # position of the event's end
NOEV = lambda k: mk("app", ("no_event", N(k)), "B")
SLT = lambda k: Sc(mul(MSNS, mk("app", ("slt", N(k)), "I")), mk("app", ("no_slt", N(k)), "B"))
PTT = lambda k: Sc(mul(MSNS, mk("app", ("ptt", N(k)), "I")), mk("app", ("no_ptt", N(k)), "B"))


def event_return(k, last, meta, side=side_):
    r = sub(div(c_(last).v, c_(k).v), ONE)
    return mul(r, side(k).v) if meta else r


def event_label(r, meta, expire, untouched):
    """the label of a return, given whether no horizontal barrier was touched"""
    v = Sc(ite(gt(r, ZERO), ONE, ZERO), eq(r, ZERO)) if meta else Sc(ite(gt(r, ZERO), ONE, ite(lt(r, ZERO), N(-1), ZERO)))
    return ite_sc(untouched, Sc(ZERO), v) if expire else v


@contract("L02", "get_labels")
def labels(s):
    s.current = "mizarlabs.transformers.targets.labeling.get_labels"
    tm._axiom["last_bar"] = lambda q: [le(ZERO, LAST(q)), lt(LAST(q), n)]
    s.assume("get_labels: every event ends at a bar of the close series")
    for meta in (False, True):
        for expire in (False, True):
            label = "get_labels%s%s" % (" (meta-labelling)" if meta else "", " (expiration label)" if expire else "")

            def run(it):
                setup(s)
                ix = Index(time_space(), ZERO, n, own="index")
                close = Series(ix, c_, "f", "the closes")
                info = Frame(ix, {lb.EVENT_END_TIME: (lambda k: Sc(mul(MSNS, ms(LAST(k))), NOEV(k)), "M"), lb.DAILY_VOL: (VOL, "f"), lb.SIDE: (side_, "f")}, "the barrier frame")
                bars = Frame(ix, {lb.EVENT_END_TIME: (ENT, "M"), lb.STOP_LOSS: (SLT, "M"), lb.PROFIT_TAKING: (PTT, "M")}, "the barriers")
                return it.call(lb.get_labels, [bars, info, close, meta, expire], {})
            for i, o in enumerate(s.paths(label, run, POSN)):
                at = " (path %d)" % i
                rg = list(o.pc) + UNIT
                r = o.value
                s.record(label + ": columns" + at, "discharged" if set(r.cols) == {"return", "label"} else "refuted", "executor", str(list(r.cols)))
                s.goal(label + ": one row per event" + at, rg, and_(iff(r._index.inr(K), not_(NOEV(K))), eq(r._index.space.lab(K), mul(MSNS, ms(K)))))
                ev = rg + [not_(NOEV(K))]
                v = event_return(K, LAST(K), meta)
                s.equal(label + ": return" + at, ev, r.cols["return"][0](K), Sc(v))
                s.equal(label + ": label" + at, ev, r.cols["label"][0](K), event_label(v, meta, expire, and_(SLT(K).nan, PTT(K).nan)))
                s.frame(label, o)


CONFIGS = ((True, False, False, False, False), (True, True, False, True, False), (False, False, True, True, False), (False, True, True, True, True),
           (True, False, False, False, True), (False, False, False, False, False))


def transform_events(s, config):
    """TripleBarrierMethodLabeling.transform against get_daily_vol's and get_labels' contracts"""
    s.current = "mizarlabs.transformers.targets.labeling.TripleBarrierMethodLabeling"
    s.assume("get_daily_vol and get_labels meet their contracts (properties L03 and L02): volatilities from some bar on; returns and labels of the events, one row per event")
    f0, win, nexp = var("first_vol", "I"), var("window", "I"), var("n_exp", "I")
    NOV = lambda k: mk("app", ("no_vol", N(k)), "B")
    for adjusted, meta, expire, sided, renamed in (config,):
        label = "transform (%s)" % ", ".join([x for x, y in (("volatility", adjusted), ("meta-labelling", meta), ("expiration label", expire), ("side given", sided), ("renamed", renamed)) if y] or ["plain"])
        cc, sc_ = ("my_close", "my_side") if renamed else ("close", "side")
        sp = time_space()
        one = Sc(ONE)
        side = side_ if sided else (lambda k: one)
        vol = (lambda k: Sc(VOL(k).v, or_(VOL(k).nan, lt(k, f0)))) if adjusted else (lambda k: one)

        def spec(k):
            """has an expiration; first stop loss, some; first profit taking, some; position of the event's end; no end"""
            has = lt(add(k, nexp), n)
            end = ite(has, ms(add(k, nexp)), ms(sub(n, ONE)))
            v = vol(k)
            mv = lambda q: mul(sub(div(c_(q).v, c_(k).v), ONE), side(k).v)
            sl, e1 = touch(k, end, lambda q: and_(gt(SL, ZERO), not_(v.nan), lt(mv(q), neg(mul(SL, v.v)))))
            pt, e2 = touch(k, end, lambda q: and_(gt(PT, ZERO), not_(v.nan), gt(mv(q), mul(PT, v.v))))
            z = N(10 ** 12)
            both = ite(e1, ite(e2, ite(lt(sl, pt), sl, pt), sl), pt)
            pos = ite(or_(e1, e2), both, add(k, nexp))      # a barrier is touched strictly before the expiration
            return dict(has=has, sl=sl, e1=e1, pt=pt, e2=e2, pos=pos, none=not_(or_(has, e1, e2)))

        def get_vol(it, args, kw):
            a = dict(zip(["close", "ewm_span"], args)); a.update(kw)
            x, h, ob = a["close"], list(dom.ctx().hyps) + UNIT, dom.ctx().obls
            ob.append(("volatility of the closes", h, and_(x.inr(K), not_(x.e(K).nan), eq(x.e(K).v, c_(K).v), eq(x._index.space.lab(K), sp.lab(K)), eq(x.lo, ZERO), eq(x.hi, n)), None))
            ob.append(("volatility with the configured window", list(dom.ctx().hyps), eq(sc(a.get("ewm_span", 100)).v, win), None))
            return Series(Index(x._index.space, f0, n), VOL, "f")

        def get_labels(it, args, kw):
            a = dict(zip(["barriers_df", "barriers_info_df", "close", "metalabeling", "expiration_label"], args)); a.update(kw)
            bars, info, x = a["barriers_df"], a["barriers_info_df"], a["close"]
            h, ob = list(dom.ctx().hyps) + UNIT, dom.ctx().obls
            p = spec(K)
            full = lambda ix: and_(eq(ix.lo, ZERO), eq(ix.hi, n), ix.inr(K), eq(ix.space.lab(K), sp.lab(K)))
            ob.append(("labels: the closes", h, and_(full(x._index), not_(x.e(K).nan), eq(x.e(K).v, c_(K).v)), None))
            ob.append(("labels: frames of the bars", h, and_(full(bars._index), full(info._index)), None))
            en, sd = info.cols[lb.EVENT_END_TIME][0](K), info.cols[lb.SIDE][0](K)
            ob.append(("labels: no event exactly where no barrier ends it", h, iff(en.nan, p["none"]), None))
            ob.append(("labels: events end at a bar", h + [not_(p["none"])], and_(le(ZERO, p["pos"]), lt(p["pos"], n)), None))
            ob.append(("labels: events end at the first barrier", h + [not_(p["none"])], eq(en.v, sp.lab(p["pos"])), None))
            ob.append(("labels: the sides", h, and_(iff(sd.nan, side(K).nan), eq(num(sd.v), num(side(K).v))), None))
            for nm, e in ((lb.STOP_LOSS, "e1"), (lb.PROFIT_TAKING, "e2")):
                ob.append(("labels: %s known" % nm, h, iff(bars.cols[nm][0](K).nan, not_(p[e])), None))
            ob.append(("labels: options", list(dom.ctx().hyps), N(bool(a["metalabeling"]) == meta and bool(a.get("expiration_label", False)) == expire), None))

            def rl(k):
                p = spec(k)
                return event_return(k, p["pos"], meta, side), and_(not_(p["e1"]), not_(p["e2"]))
            return Frame(Index(info._index.space, ZERO, n, lambda k: not_(spec(k)["none"])),
                         {"return": (lambda k: Sc(rl(k)[0]), "f"), "label": (lambda k: event_label(rl(k)[0], meta, expire, rl(k)[1]), "f")})
        s.over[lb.get_daily_vol] = get_vol
        s.over[lb.get_labels] = get_labels

        def run(it):
            setup(s)
            ix = Index(sp, ZERO, n, own="index")
            cols = {cc: (c_, "f")}
            if sided:
                cols[sc_] = (side_, "f")
            cols["decoy"] = (column("decoy", False), "f")
            if renamed:
                cols["close"] = (column("decoy_close"), "f")
                if sided:
                    cols["side"] = (column("decoy_side", False), "f")
            t = it.call(lb.TripleBarrierMethodLabeling, [Sc(nexp), Sc(PT), Sc(SL)], dict(metalabeling=meta, close_column_name=cc, side_column_name=sc_, volatility_window=Sc(win),
                                                                                        volatility_adjusted_horizontal_barriers=adjusted, expiration_label=expire))
            return it.call(it.getattr(t, "transform"), [Frame(ix, cols, "the frame")], {})
        hyp = POSN + [le(ZERO, f0), le(f0, n), le(ZERO, nexp)]
        for i, o in enumerate(s.paths(label, run, hyp, rejects=and_(lt(PT, ZERO), lt(SL, ZERO)))):
            at = " (path %d)" % i
            rg = list(o.pc) + UNIT
            r = o.value
            p = spec(K)
            v = vol(K)
            s.record(label + ": columns" + at, "discharged" if set(r.cols) == {"event_end_time", "daily_vol", "return", "label"} else "refuted", "executor", str(list(r.cols)))
            s.goal(label + ": one row per bar" + at, rg, and_(r._index.inr(K), eq(r._index.lo, ZERO), eq(r._index.hi, n), eq(r._index.space.lab(K), sp.lab(K))))
            none = or_(v.nan, p["none"])
            if s.prop == "L01":
                s.equal(label + ": event end time" + at, rg, r.cols["event_end_time"][0](K), Sc(sp.lab(p["pos"]), none))
                s.equal(label + ": volatility" + at, rg, r.cols["daily_vol"][0](K), v)
            else:
                ret = event_return(K, p["pos"], meta, side)
                s.equal(label + ": return" + at, rg, r.cols["return"][0](K), Sc(ret, none))
                w = event_label(ret, meta, expire, and_(not_(p["e1"]), not_(p["e2"])))
                s.equal(label + ": label" + at, rg, r.cols["label"][0](K), Sc(w.v, or_(none, w.nan)))
            s.frame(label, o)


for p in ("L01", "L02"):
    for j, config in enumerate(CONFIGS):
        contract(p, "TripleBarrierMethodLabeling.transform %d" % j)(lambda s, config=config: transform_events(s, config))
