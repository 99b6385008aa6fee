"""Z01-Z03: bet sizing."""
from .core import *
from scipy.special import ndtr
from mizarlabs.transformers.trading import bet_sizing as bz

EV = "event_end_time"


def gen_z01(rng, k):
    n = int(rng.integers(1, 12))
    pr = [float(x) for x in rng.uniform(0, 1, n)]
    pr = [min(max(p, 1e-9), 1 - 1e-9) if rng.random() < .8 else float(pick(rng, [1e-12, .5, 1 - 1e-12, 1 / 3, .25, 1e-300, 1 - 1e-16])) for p in pr]
    return dict(t=incr(rng, n), p=pr, pred=[float(pick(rng, [1, -1, 0, 1, -1, .5])) for _ in range(n)], n=int(pick(rng, [2, 2, 3, 4, 10])),
                side=[int(pick(rng, [1, -1, 0])) for _ in range(n)] if rng.random() < .5 else None, cols=pick(rng, [["prob", "pred", "side"], ["a", "b", "c"]]))


@check("Z01", "formula", gen_z01)
def chk_z01(c):
    P, D, S = c["cols"]
    X = pd.DataFrame({P: c["p"], D: c["pred"]}, index=times(c["t"]))
    if c["side"] is not None:
        X[S] = c["side"]
    out = bz.BetSizingFromProbabilities(c["n"], meta_labeling=c["side"] is not None, probability_column_name=P, prediction_column_name=D, side_column_name=S).transform(X)
    want = []
    for i, p in enumerate(c["p"]):
        z = (p - 1.0 / c["n"]) / math.sqrt(p * (1 - p))
        b = c["pred"][i] * (2 * ndtr(z) - 1) * (1 if c["side"] is None else c["side"][i])
        want.append(abs(b))
    need(out.index.equals(X.index), "index changed")
    same(out.values, want, "bet sizes", 1e-9, 1e-12)
    need(((out >= 0) & (out <= 1)).all(), "bet size outside [0, 1]")


def gen_z01_bad(rng, k):
    c = gen_z01(rng, k)
    c["side"] = [int(pick(rng, [1, -1, 0])) for _ in c["p"]]
    c["side"][int(rng.integers(len(c["p"])))] = int(pick(rng, [2, -2, 5]))
    return c


@check("Z01", "bad_side", gen_z01_bad)
def chk_z01_bad(c):
    try:
        chk_z01(c)
    except (AssertionError, ValueError):
        return
    except Violation:
        raise
    fail("a side outside -1, 0, 1 was accepted")


def gen_z02(rng, k):
    n = int(rng.integers(1, 10))
    st = incr(rng, n, 1, 4)
    en = [None if rng.random() < .2 else int(s + d) for s, d in zip(st, rng.integers(0, pick(rng, [2, 6, 20]), n))]
    return dict(t=st, e=en, b=[float(x) for x in rng.integers(-8, 9, n) / 8.0], cols=pick(rng, [["bet_size", EV], ["bs", "end"]]), p=[float(x) for x in rng.uniform(.05, .95, n).round(3)])


def active(c, b):
    tt = sorted(set(c["t"]) | {e for e in c["e"] if e is not None})
    out = []
    for t in tt:
        a = [b[i] for i in range(len(b)) if c["t"][i] <= t and (c["e"][i] is None or t < c["e"][i])]
        out.append(sum(a) / len(a) if a else 0.0)
    return tt, out


@check("Z02", "mean", gen_z02, 2)
def chk_z02(c):
    B, E = c["cols"]
    df = pd.DataFrame({B: c["b"], E: pd.Series([pd.NaT if e is None else ts(e) for e in c["e"]], dtype="datetime64[ns]").values}, index=times(c["t"]))
    got = bz.avg_active_signals(df, E, B)
    tt, want = active(c, c["b"])
    need([mins(t) for t in got.index] == tt, "times %s, expected %s", [mins(t) for t in got.index], tt)
    same(got.values, want, "averaged signal", 1e-9, 1e-12)


@check("Z02", "bet_sizer", gen_z02)
def chk_z02_b(c):
    B, E = c["cols"]
    X = pd.DataFrame({"prob": c["p"], "pred": [float((v > 0) - (v < 0)) for v in c["b"]], E: pd.Series([pd.NaT if e is None else ts(e) for e in c["e"]], dtype="datetime64[ns]").values}, index=times(c["t"]))
    got = bz.BetSizingFromProbabilities(3, average_active=True, event_end_time_column_name=E, bet_size_column_name=B).transform(X)
    b = [p * (2 * ndtr((q - 1 / 3) / math.sqrt(q * (1 - q))) - 1) for p, q in zip(X["pred"], c["p"])]
    tt, want = active(c, b)
    need([mins(t) for t in got.index] == tt, "times differ")
    same(got.values, np.abs(want), "averaged bet size", 1e-9, 1e-12)


def gen_z03(rng, k):
    n = int(rng.integers(1, 12))
    st = float(pick(rng, [.1, .25, .5, .2, .01, .05, .3, .7, .99, .333, float(rng.uniform(.001, .999))]))
    s = [float(pick(rng, [float(rng.uniform(-1, 1)), st * float(rng.integers(-3, 4)), st * (.5 + float(rng.integers(-3, 3))), 1.0, -1.0, 0.0, float(rng.uniform(-1.6, 1.6)), 1.4, -1.4])) for _ in range(n)]
    return dict(s=s, step=st, t=incr(rng, n))


def disc_ok(s, step, out):
    k0 = math.floor(s / step)
    for k in (k0 - 1, k0, k0 + 1, k0 + 2):
        m = k * step
        if abs(m - s) <= step / 2 + 1e-9:
            for r in (math.floor(m * 1000) / 1000, math.ceil(m * 1000) / 1000, round(m, 3)):
                if abs(r - m) <= .0005 + 1e-9 and abs(min(1, max(-1, r)) - out) < 1e-9:
                    return True
    return False


@check("Z03", "signal", gen_z03, 2)
def chk_z03(c):
    s = pd.Series(c["s"], index=times(c["t"]))
    out = bz.discretise_signal(s, c["step"])
    need(out.index.equals(s.index), "index changed")
    for v, o in zip(c["s"], out.values):
        need(disc_ok(v, c["step"], o), "signal %r with step %r became %r", v, c["step"], o)
        need(-1 <= o <= 1, "%r is outside [-1, 1]", o)


@check("Z03", "bet_sizer", gen_z01)
def chk_z03_b(c):
    st = [.1, .25, .5, .3, .05][len(c["p"]) % 5]
    X = pd.DataFrame({"prob": c["p"], "pred": c["pred"]}, index=times(c["t"]))
    a = bz.BetSizingFromProbabilities(c["n"]).transform(X)
    d = bz.BetSizingFromProbabilities(c["n"], discretise=True, step_size=st).transform(X)
    for v, o in zip(a.values, d.values):
        need(disc_ok(v, st, o), "bet size %r with step %r became %r", v, st, o)


def gen_z03_bad(rng, k):
    c = gen_z03(rng, k); c["step"] = float(pick(rng, [0, 1, 1.5, -.2, -1])); return c


@check("Z03", "rejects", gen_z03_bad)
def chk_z03_bad(c):
    for f in (lambda: bz.discretise_signal(pd.Series(c["s"]), c["step"]), lambda: bz.BetSizingFromProbabilities(2, discretise=True, step_size=c["step"])):
        try:
            f()
        except AssertionError:
            continue
        fail("step size %s was accepted", c["step"])
