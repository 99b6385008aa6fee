"""Contracts of the strategy pipeline and trader, and of the indicator factory."""
from .base import *
from ..eng.lib import *
from ..eng.select import LoopContract
import pandas as pd_
from mizarlabs.model import pipeline as pl
from mizarlabs.transformers.targets import labeling as lb

POSN = [le(ONE, n)]
UNIT = [le(ZERO, K), lt(K, n)]


# ---------------------------------------------------------------- P05
class Answer:
    """a closing model: records the data it is given and gives a fixed answer"""

    def __init__(self, a): self.a, self.seen = a, []

    def close_positions(self, X_dict):
        self.seen.append(X_dict)
        return self.a


class Other:
    """any value that equals none of the allowed answers"""


@contract("P05", "determine_positions_to_close")
def closing(s):
    s.current = "mizarlabs.model.pipeline.StrategySignalPipeline.determine_positions_to_close"
    allowed = ("all", "long", "short", None)
    answers = list(allowed) + ["ALL", "long ", "close", "", "none", False, 0, 1, Other()]
    for trader in (False, True):
        for a in answers + ["no model"]:
            label = "%s, answer %s" % ("trader" if trader else "pipeline", "of another kind" if isinstance(a, Other) else repr(a))
            model = None if a == "no model" else Answer(a)

            def run(it):
                setup(s)
                X = {"bars": frame(s, {"close": None}), "more": frame(s, {"x": None})}
                p = it.call(pl.StrategySignalPipeline, [{"bars": None}, "bars", {}], dict(closing_positions_model=model))
                if trader:
                    p = it.call(pl.StrategyTrader, [p, 5, 3], {})
                if model is not None:
                    del model.seen[:]
                run.X = X
                return it.call(it.getattr(p, "determine_positions_to_close"), [X], {})
            want = None if model is None else a
            ok = model is None or a is None or (isinstance(a, str) and a in allowed)
            for i, o in enumerate(s.paths(label, run, POSN, rejects=FALSE if ok else TRUE)):
                at = " (path %d)" % i
                s.goal(label + ": answer returned unchanged" + at, list(o.pc), N(o.value is want or o.value == want))
                if model is not None:
                    s.goal(label + ": the model is asked once, about the given data" + at, list(o.pc), N(len(model.seen) == 1 and model.seen[0] is run.X))
                s.frame(label, o)


# ---------------------------------------------------------------- P04
VOL = lambda q: mk("app", ("vol", N(q)), "R")
NOVOL = lambda q: mk("app", ("no_vol", N(q)), "B")
SIDE_ = lambda q: mk("app", ("sig_side", N(q)), "R")
SIZE_ = lambda q: mk("app", ("sig_size", N(q)), "R")
NOSIDE = lambda q: mk("app", ("no_side", N(q)), "B")
NOSIZE = lambda q: mk("app", ("no_size", N(q)), "B")
HAS = lambda q: mk("app", ("has_signal", N(q)), "B")
CL = column("close")


class Signals:
    """a strategy pipeline: gives some signals for some of the leading frame's times"""
    align_on_ = "bars"

    def __init__(self, sp): self.sp, self.seen = sp, []

    def get_side_and_size(self, X_dict):
        self.seen.append(X_dict)
        ix = Index(self.sp, ZERO, n, lambda k: HAS(k))
        return Frame(ix, {"side": (lambda k: Sc(SIDE_(k), NOSIDE(k)), "f"), "size": (lambda k: Sc(SIZE_(k), NOSIZE(k)), "f")})


@contract("P04", "StrategyTrader")
def trader(s):
    s.current = "mizarlabs.model.pipeline.StrategyTrader"
    s.assume("get_daily_vol meets its contract (the property L03): one volatility per bar from some bar on, possibly missing")
    f0, win, sl, pt, ne, m = var("first_vol", "I"), var("window", "I"), var("stop_loss", "R"), var("profit_taking", "R"), var("n_bars", "I"), var("m", "I")
    u1, u2 = var("unique_bars", "B"), var("unique_more", "B")
    for adjusted in (True, False):
        for what in ("create_strategy_bars", "create_signal", "create_position"):
            label = "%s (%svolatility adjusted)" % (what, "" if adjusted else "not ")
            sp = time_space()
            sp.unique = u1
            sp2 = Space("more", lambda q: mul(MSNS, mk("app", ("ms2", N(q)), "I")), "M", True)
            sp2.unique = u2
            pipe = Signals(sp)

            def vol(it, args, kw):
                a = dict(zip(["close", "ewm_span"], args)); a.update(kw)
                x, h, ob = a["close"], list(dom.ctx().hyps) + UNIT, dom.ctx().obls
                ob.append(("volatility of the leading frame's closes", h, and_(x.inr(K), not_(x.e(K).nan), eq(x.e(K).v, CL(K).v), eq(x._index.space.lab(K), sp.lab(K)), eq(x.lo, ZERO), eq(x.hi, n)), None))
                ob.append(("volatility with the configured window", list(dom.ctx().hyps), eq(sc(a.get("ewm_span", 100)).v, win), None))
                return Series(Index(sp, f0, n), lambda k: Sc(VOL(k), NOVOL(k)), "f")
            s.over[lb.get_daily_vol] = vol
            s.over[pl.get_daily_vol] = vol

            def run(it):
                setup(s)
                del pipe.seen[:]
                bars = Frame(Index(sp, ZERO, n, own="bars' index"), {"close": (CL, "f"), "stop_loss": (column("decoy", False), "f")}, "the leading frame")
                more = Frame(Index(sp2, ZERO, m, own="more's index"), {"x": (column("x", False), "f")}, "the other frame")
                run.X = {"more": more, "bars": bars}
                t = it.call(pl.StrategyTrader, [pipe, 5, Sc(ne)], dict(stop_loss_factor=Sc(sl), profit_taking_factor=Sc(pt), volatility_window=Sc(win), volatility_adjusted_stop_loss=adjusted))
                run.t = t
                r = it.call(it.getattr(t, what), [run.X], {})
                return r, it.getattr(t, "strategy_valid")
            hyp = POSN + [le(ZERO, f0), le(f0, n), le(ZERO, m)]
            for i, o in enumerate(s.paths(label, run, hyp, rejects=or_(not_(u1), not_(u2)))):
                r, valid = o.value
                rg = list(o.pc) + UNIT
                at = " (path %d)" % i
                if what != "create_signal":
                    v = Sc(VOL(K), or_(NOVOL(K), lt(K, f0))) if adjusted else Sc(ONE)
                    s.goal(label + ": every bar of the leading frame" + at, rg, and_(r._index.inr(K), eq(r._index.space.lab(K), sp.lab(K)), eq(r._index.lo, ZERO), eq(r._index.hi, n)))
                    s.equal(label + ": stop loss" + at, rg, r["stop_loss"].e(K), v * Sc(sl))
                    s.equal(label + ": profit taking" + at, rg, r["profit_taking"].e(K), v * Sc(pt))
                    nb = [c for c in r.cols if "expiration" in c]
                    s.goal(label + ": the expiration bars' column" + at, list(o.pc), N(nb == [pl.NUMBER_EXPIRATION_BARS_COLUMN]))
                    s.equal(label + ": expiration bars" + at, rg, r[pl.NUMBER_EXPIRATION_BARS_COLUMN].e(K), Sc(ne))
                if what == "create_position":
                    s.equal(label + ": side of the same time" + at, rg, r["side"].e(K), Sc(SIDE_(K), or_(not_(HAS(K)), NOSIDE(K))))
                    s.equal(label + ": size of the same time" + at, rg, r["size"].e(K), Sc(SIZE_(K), or_(not_(HAS(K)), NOSIZE(K))))
                    s.goal(label + ": columns" + at, list(o.pc), N(sorted(r.cols) == sorted(["side", "size", "stop_loss", "profit_taking", pl.NUMBER_EXPIRATION_BARS_COLUMN])))
                if what == "create_signal":
                    s.goal(label + ": the pipeline's signals" + at, rg, and_(iff(r._index.inr(K), HAS(K)), eq(r._index.space.lab(K), sp.lab(K))))
                    rs = rg + [HAS(K)]
                    s.equal(label + ": side" + at, rs, r["side"].e(K), Sc(SIDE_(K), NOSIDE(K)))
                    s.equal(label + ": size" + at, rs, r["size"].e(K), Sc(SIZE_(K), NOSIZE(K)))
                if what != "create_strategy_bars":
                    good = forall(n, lambda k: imp(HAS(k), and_(not_(NOSIDE(k)), not_(NOSIZE(k)), le(N(-1), SIDE_(k)), le(SIDE_(k), ONE), le(ZERO, SIZE_(k)), le(SIZE_(k), ONE))))
                    s.goal(label + ": the signals are those of the given data" + at, list(o.pc), N(len(pipe.seen) == 1 and pipe.seen[0] is run.X))
                    s.goal(label + ": valid exactly when every size and side is in range" + at, list(o.pc), iff(boolt(sc(valid)), good))
                s.frame(label, o)


# ---------------------------------------------------------------- T01
import talib
import talib.abstract
import re as _re
from sklearn.preprocessing import FunctionTransformer
from mizarlabs.transformers.technical.factory import TAFactory

TA_COLS = ["open", "high", "low", "close", "volume", "zig", "zag"]


def ta_inputs(f):
    """declared arguments and options, read from the function's documentation in another way than the code does"""
    doc = getattr(talib, f).__doc__
    line = [x.strip() for x in doc.splitlines() if x.startswith(f + "(") and "ndarray" not in x][0]
    head, _, rest = line[len(f) + 1:-1].partition("[")
    req = [x.strip(" ,") for x in head.split(",") if x.strip(" ,")]
    opts = [_re.sub(r"[^a-z_0-9]", "", x.split("=")[0]) for x in rest.split(",") if x.strip()]
    return req, [o for o in opts if o]


class Applies:
    """sklearn's FunctionTransformer: transform applies the function"""

    def __init__(self, it, f): self.it, self.f = it, f

    def fit(self, X, y=None): return self
    def transform(self, X): return self.it.call(self.f, [X], {})
    def fit_transform(self, X, y=None): return self.transform(X)


def function_transformer(it, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("options of FunctionTransformer")
    return Applies(it, args[0])


class Called:
    """what the indicator was given, and its opaque outputs"""

    def __init__(self, name, outputs):
        self.name, self.outputs, self.calls = name, outputs, []

    def __call__(self, it, args, kw):
        self.calls.append((list(args), dict(kw)))
        ix = args[0].index
        outs = [Series(ix, lambda q, j=j: Sc(mk("app", ("%s_out%d" % (self.name, j), N(q)), "R"), mk("app", ("%s_out%d_missing" % (self.name, j), N(q)), "B")), "f") for j in range(self.outputs)]
        return outs[0] if self.outputs == 1 else tuple(outs)


def routing(s, names):
    setup(s)
    s.current = "mizarlabs.transformers.technical.factory.TAFactory.create_transformer"
    s.assume("sklearn's FunctionTransformer.transform applies the function it was given; the number of outputs of an indicator is the one TA-Lib declares")
    import talib.abstract as ta
    s.over[FunctionTransformer] = function_transformer
    for f in names:
        req, opts = ta_inputs(f)
        nout = len(ta.Function(f).output_names)
        reals = [a for a in req if a.startswith("real")]
        two = "real0" in req and "real1" in req
        choices = [["close", "volume"], ["zig", "zig"], ["zag", "open"]] if two else ["close", "zig"] if "real" in req else [None]
        others = [a for a in req if not a.startswith("real")]
        for ci, col in enumerate(choices):
            ren = [None, {}] + [{a: "zag"} for a in others] + ([{a: b for a, b in zip(others, ["zag", "zig", "open", "high", "low"])}] if len(others) > 1 else [])
            # a renaming that names an argument as target of another one
            ren += [dict(zip(others, others[1:] + others[:1]))] if len(others) > 1 else []
            kws = [None] + ([{}] if opts else []) + ([{o: Sc(var("opt_" + o, "R")) for o in opts}] + [{o: Sc(var("opt_" + o, "R"))} for o in opts] if opts else [])
            for ri, r in enumerate(ren):
                for ki, kw in enumerate(kws if ri == 0 else kws[:1] + kws[2:3]):
                    want = []
                    left = list(col) if isinstance(col, list) else [col]
                    for a in req:
                        want.append(left[int(a[4:])] if two and a in ("real0", "real1") else col if a == "real" else (r or {}).get(a, a))
                    label = "%s(%s, %s, %s)" % (f, col, r, sorted(kw) if kw is not None else None)
                    rec = Called(f, nout)
                    s.over[getattr(talib, f)] = rec

                    def run(it):
                        rec.calls.clear()
                        X = frame(s, {c: dict(positive=False) for c in TA_COLS + ["periods"]}, "the frame")
                        t = it.call(it.getattr(it.call(TAFactory, [], {}), "create_transformer"), [f, col, r, kw], {})
                        return it.call(it.getattr(t, "transform"), [X], {})
                    for i, o in enumerate(s.paths(label, run, [le(ONE, n)])):
                        ok = len(rec.calls) == 1 and len(rec.calls[0][0]) == len(want)
                        s.record("%s: called once with as many inputs as declared" % label, "discharged" if ok else "refuted", "executor")
                        if not ok:
                            continue
                        for j, (x, c) in enumerate(zip(rec.calls[0][0], want)):
                            s.goal("%s: input %d is column %s" % (label, j, c), list(o.pc) + RNG, eq(x.e(K).v, column(c)(K).v))
                        got = rec.calls[0][1]
                        s.record("%s: exactly the given options" % label, "discharged" if set(got) == set(kw or {}) and all(sc(got[q]).v is sc(kw[q]).v for q in got) else "refuted", "executor")
                        m = o.value
                        for j in range(nout):
                            s.equal("%s: output %d unchanged" % (label, j), list(o.pc) + RNG, m.e(K, N(j)), Sc(mk("app", ("%s_out%d" % (f, j), K), "R"), mk("app", ("%s_out%d_missing" % (f, j), K), "B")))
                        s.goal("%s: one column per output, one row per bar" % label, o.pc, and_(eq(m.nr, n), eq(m.nc, N(nout))))
                        s.frame(label, o)


def rejected(s, names):
    """calls that must be refused"""
    setup(s)
    s.current = "mizarlabs.transformers.technical.factory.TAFactory"

    s.over[FunctionTransformer] = function_transformer

    def attempt(label, f, col, ren, kw, cols=TA_COLS + ["periods"], arg=None):
        if hasattr(talib, str(f)):
            s.over[getattr(talib, f)] = Called(f, 1)

        def run(it):
            X = frame(s, {c: dict(positive=False) for c in cols}, "the frame") if arg is None else arg()
            t = it.call(it.getattr(it.call(TAFactory, [], {}), "create_transformer"), [f, col, ren, kw], {})
            return it.call(it.getattr(t, "transform"), [X], {})
        list(s.paths(label, run, [le(ONE, n)], rejects=TRUE))
    for f in ("", "sma", "SMA_", "NOPE", "rsi"):
        attempt("unknown function %r" % f, f, "close", None, None)
    for f in names:
        req, opts = ta_inputs(f)
        two = "real0" in req and "real1" in req
        col = ["close", "open"] if two else "close" if "real" in req else None
        others = [a for a in req if not a.startswith("real")]
        attempt("%s: unknown option" % f, f, col, None, {"no_such_option": 3})
        if opts:
            attempt("%s: unknown option beside a known one" % f, f, col, None, {opts[0]: 3, "x" + opts[0]: 3})
        attempt("%s: renaming of an unknown argument" % f, f, col, {"no_such_argument": "close"}, None)
        if others:
            attempt("%s: renaming of an unknown argument beside a known one" % f, f, col, {others[0]: "zag", "no_such_argument": "close"}, None)
            attempt("%s: input missing from the frame" % f, f, col, None, None, [c for c in TA_COLS + ["periods"] if c != others[0]])
            attempt("%s: renamed input missing from the frame" % f, f, col, {others[0]: "nowhere"}, None)
        if "real" in req or two:
            attempt("%s: no column given" % f, f, None, None, None)
            attempt("%s: given column missing from the frame" % f, f, ["close", "nowhere"] if two else "nowhere", None, None)
        attempt("%s: not a frame" % f, f, col, None, None, arg=lambda: Seq(ZERO, n, None, lambda k: Sc(ONE), "f"))


NAMES = sorted(talib.get_functions())
PART = 10
for _i in range(0, len(NAMES), PART):
    contract("T01", "routing of %s to %s" % (NAMES[_i], NAMES[min(_i + PART, len(NAMES)) - 1]))(lambda s, a=NAMES[_i:_i + PART]: routing(s, a))
    contract("T01", "rejections of %s to %s" % (NAMES[_i], NAMES[min(_i + PART, len(NAMES)) - 1]))(lambda s, a=NAMES[_i:_i + PART]: rejected(s, a))


# ---------------------------------------------------------------- P02, P03
from sklearn.utils.validation import check_is_fitted, check_X_y
from ..eng.select import SelMat


def cell(nm, q, *more):
    """an opaque value, possibly missing"""
    return Sc(mk("app", (nm, N(q)) + more, "R"), mk("app", (nm + "_missing", N(q)) + more, "B"))


class Prepared:
    """a feature transformer: opaque features, one row per row of its input"""

    def __init__(self, nm, cols): self.nm, self.cols, self.seen = nm, cols, []

    def transform(self, X):
        self.seen.append(X)
        return Frame(X._index, {c: (lambda q, c=c: cell(self.nm + "_" + c, q), "f") for c in self.cols})


class Model:
    """a fitted classifier: its outputs for a row depend on that row's features alone"""

    def __init__(self, nm, classes):
        self.nm, self.classes_, self.n_classes_, self.seen = nm, [Sc(c) for c in classes], len(classes), []

    def _rows(self, X):
        self.seen.append(X)
        return lambda q: [e(q) for e, d in X.cols.values()]

    @staticmethod
    def out(nm, row):
        return Sc(mk("app", (nm,) + tuple(num(x.v) for x in row), "R"))

    def predict(self, X):
        f, ix = self._rows(X), X._index
        return Seq(ix.lo, ix.hi, ix.g, lambda q: self.out(self.nm + "_pred", f(q)), "f")

    def probs(self, row):
        return [self.out("%s_proba%d" % (self.nm, j), row) for j in range(self.n_classes_)]

    def predict_proba(self, X):
        f, ix = self._rows(X), X._index
        return SelMat(ix.hi, N(self.n_classes_), lambda q, j: dom.pick_list(self.probs(f(q)), j), ix.inr, lambda j: TRUE, "f")


class Sizer:
    """a bet sizer: opaque sizes, one per row"""

    def __init__(self): self.seen = []

    def transform(self, X):
        self.seen.append(X)
        return Series(X._index, lambda q: cell("bet", q), "f")


def aligned(s, label):
    """_align_on by its contract (the property P01): features of other grids become opaque features on the leading grid"""
    def f(it, args, kw):
        self, d = args
        lead = d[self._primary_model_features][self.align_on_]
        for mk_ in (self._primary_model_features, self._metalabeling_model_features):
            for k, fr in d[mk_].items():
                if k != self.align_on_:
                    d[mk_][k] = Frame(lead._index, {c: (lambda q, nm="aligned_%s_%s_%s" % (mk_, k, c): cell(nm, q), "f") for c in fr.cols})
        return d
    return f


KINDS = [(False, False, False), (True, True, True), (True, True, False), (True, False, True), (True, False, False)]


class Plan_:
    """a pipeline over two grids with opaque models, and the features expected at each time of the leading grid"""

    def __init__(self, s, meta, use_pred, use_proba, classes, sizer, prepared, order, metakeys):
        s.over[pl.StrategySignalPipeline._align_on] = aligned(s, "")
        s.over[check_is_fitted] = lambda it, args, kw: None
        self.meta, self.use_pred, self.use_proba = meta, use_pred, use_proba
        self.sp = time_space()
        self.sp2 = Space("other", lambda q: mul(MSNS, mk("app", ("ms2", N(q)), "I")), "M", True)
        self.m = var("m", "I")
        self.order = order
        self.T = {k: Prepared("T_" + k, ["f_" + k]) if prepared else None for k in order}
        self.MT = {k: Prepared("MT_" + k, ["m_" + k]) if prepared else None for k in metakeys} if meta else None
        self.prim = Model("primary", classes)
        self.model = Model("meta", [0.0, 1.0]) if meta else None
        self.sizer = Sizer() if sizer else None

    def data(self, s):
        setup(s)
        s.funcs["ms2"] = incr_fn
        tm._incr.add("ms2"); tm._pos.add("ms2")
        self.bars = Frame(Index(self.sp, ZERO, n, own="the leading frame's index"), {"close": (lambda q: cell("close", q), "f"), "x": (lambda q: cell("x", q), "f")}, "the leading frame")
        self.more = Frame(Index(self.sp2, ZERO, self.m, own="the other frame's index"), {"z": (lambda q: cell("z", q), "f")}, "the other frame")
        return {"more": self.more, "bars": self.bars}

    def pipe(self, it):
        for t in [self.prim, self.model, self.sizer] + list(self.T.values()) + list((self.MT or {}).values()):
            if t is not None:
                del t.seen[:]
        p = it.call(pl.StrategySignalPipeline, [self.T, "bars", {"more": "mean"}], dict(feature_transformers_metalabeling_model=self.MT, metalabeling_use_proba_primary_model=self.use_proba, metalabeling_use_predictions_primary_model=self.use_pred, bet_sizer=self.sizer))
        p = it.call(it.getattr(p, "set_primary_model"), [self.prim], {})
        return it.call(it.getattr(p, "set_metalabeling_model"), [self.model], {}) if self.meta else p

    def feats(self, T, key, q):
        out = []
        for k, t in (T or {}).items():
            cols = t.cols if t else ["close", "x"] if k == "bars" else ["z"]
            for c in cols:
                nm = "aligned_%s_%s_%s" % (key, k, c) if k != "bars" else ("%s_%s" % (t.nm, c) if t else c)
                out.append((c, cell(nm, q)))
        return out

    def prim_row(self, q): return [x for c, x in self.feats(self.T, "primary_model_features", q)]
    def prim_ok(self, q): return and_(le(ZERO, q), lt(q, n), *[not_(x.nan) for x in self.prim_row(q)])

    def meta_row(self, q):
        r = [x for c, x in self.feats(self.MT, "metalabeling_model_features", q)]
        if self.use_pred:
            r.append(self.side(q))
        return r + (self.prim.probs(self.prim_row(q)) if self.use_proba else [])

    def meta_ok(self, q):
        r = [x for c, x in self.feats(self.MT, "metalabeling_model_features", q)]
        return and_(le(ZERO, q), lt(q, n), *([not_(x.nan) for x in r] + ([self.prim_ok(q)] if self.use_pred or self.use_proba else [])))

    def clash(self):
        """a time with meta-labelling features but without the primary prediction they are to be joined with"""
        if not (self.meta and self.use_pred and not self.use_proba):
            return FALSE
        return exists(n, lambda q: and_(*([not_(x.nan) for c, x in self.feats(self.MT, "metalabeling_model_features", q)] + [not_(self.prim_ok(q))])))

    def side(self, q): return Model.out("primary_pred", self.prim_row(q))


def plans(s):
    for meta, up, upr in KINDS:
        for prepared in (False, True):
            for classes, order, mk_ in (([-1.0, 0.0, 1.0], ["bars", "more"], ["more", "bars"]), ([-1.0, 1.0], ["more", "bars"], ["more"])):
                yield meta, up, upr, prepared, classes, order, mk_ if not prepared else ["more", "bars"]


HYP2 = lambda p: [le(ONE, n), le(ONE, p.m)]


@contract("P02", "get_side_and_size")
def sides(s):
    s.current = "mizarlabs.model.pipeline.StrategySignalPipeline.get_side_and_size"
    s.assume("models, transformers and bet sizers are opaque: a model's outputs for a row depend on that row's features alone, a transformer gives one row per row; _align_on meets its contract (the property P01)")
    for meta, up, upr, prepared, classes, order, mkeys in plans(s):
        for sizer in (False, True):
            p = Plan_(s, meta, up, upr, classes, sizer, prepared, order, mkeys)
            label = "%s%s%s%s, %d classes" % ("meta-labelling" + (", with predictions" if up else "") + (", with probabilities" if upr else "") if meta else "primary alone", ", bet sizer" if sizer else "", ", transformers" if prepared else "", ", leading frame second" if order[0] != "bars" else "", len(classes))

            def run(it):
                X = p.data(s)
                r = it.call(it.getattr(p.pipe(it), "get_side_and_size"), [X], {})
                return r
            first = p.sp.lab(ZERO)
            apart = or_(gt(first, p.sp2.lab(sub(p.m, ONE))))
            for i, o in enumerate(s.paths(label, run, HYP2(p), rejects=or_(apart, p.clash()))):
                r = o.value
                at = " (path %d)" % i
                rg = list(o.pc) + RNG
                src = p.model.probs(p.meta_row(K)) if meta else p.prim.probs(p.prim_row(K))
                names_ = [0.0, 1.0] if meta else classes
                top = src[0]
                cl = Sc(names_[0])
                for v, c in zip(src[1:], names_[1:]):
                    cl, top = dom.ite_sc(gt(v.v, top.v), Sc(c), cl), dom.ite_sc(gt(v.v, top.v), v, top)
                ok = p.meta_ok(K) if meta else p.prim_ok(K)
                if sizer:
                    size = cell("bet", K)
                    s.goal(label + ": the bet sizer is asked once" + at, list(o.pc), N(len(p.sizer.seen) == 1))
                    if len(p.sizer.seen) != 1:
                        continue
                    b = p.sizer.seen[0]
                    s.goal(label + ": bet sizer's times" + at, rg, iff(b._index.inr(K), ok))
                    s.goal(label + ": bet sizer's columns" + at, list(o.pc), N(sorted(b.cols) == sorted(["prob", "pred"] + (["side"] if meta else []))))
                    h = rg + [ok]
                    s.equal(label + ": bet sizer's probability" + at, h, b["prob"].e(K), top)
                    s.equal(label + ": bet sizer's class" + at, h, b["pred"].e(K), cl)
                    if meta:
                        s.equal(label + ": bet sizer's side" + at, h, b["side"].e(K), Sc(p.side(K).v, not_(p.prim_ok(K))))
                else:
                    size = src[1] if meta else top
                s.goal(label + ": times" + at, rg, and_(eq(r._index.space.lab(K), p.sp.lab(K)), iff(r._index.inr(K), and_(p.prim_ok(K), ok, not_(size.nan)))))
                h = rg + [r._index.inr(K)]
                s.equal(label + ": side" + at, h, r["side"].e(K), p.side(K))
                s.equal(label + ": size" + at, h, r["size"].e(K), size)
                s.goal(label + ": columns" + at, list(o.pc), N(sorted(r.cols) == ["side", "size"]))
                s.frame(label, o)


def checked(it, args, kw):
    """sklearn's check_X_y: refuses no rows, missing or different numbers of values; here it has nothing else to refuse"""
    X, y = args
    k = fresh("k", "I")
    it.ctx.require_or_raise(exists(sub(X._index.hi, X._index.lo), lambda q: X._index.inr(add(X._index.lo, q))), ValueError, "rows given")
    it.ctx.require(imp(X._index.inr(k), and_(y.inr(k), not_(y.e(k).nan), *[not_(e(k).nan) for e, d in X.cols.values()])), "nothing missing")
    return X, y


YV = lambda q: Sc(mk("app", ("label", N(q)), "R"), mk("app", ("label_missing", N(q)), "B"))
HASY = lambda q: mk("app", ("labelled", N(q)), "B")


@contract("P03", "training sets")
def training(s):
    s.assume("models and transformers are opaque: a model's outputs for a row depend on that row's features alone, a transformer gives one row per row; _align_on meets its contract (the property P01); sklearn's check_X_y refuses an empty set")
    s.over[check_X_y] = checked
    for meta, up, upr, prepared, classes, order, mkeys in plans(s):
        for drop in ((True, False) if not meta else (None,)):
            what = "create_dataset_metalabeling" if meta else "create_dataset_primary"
            s.current = "mizarlabs.model.pipeline.StrategySignalPipeline." + what
            p = Plan_(s, meta, up, upr, classes, False, prepared, order, mkeys)
            label = what + "%s%s%s%s, %d classes" % (", with predictions" if up else "", ", with probabilities" if upr else "", ", transformers" if prepared else "", ", leading frame second" if order[0] != "bars" else "", len(classes)) + ("" if drop is not False else ", nothing dropped")
            one, zero, minus = ONE, ZERO, N(-1)
            legal = forall(n, lambda q: imp(and_(HASY(q), not_(YV(q).nan)), or_(eq(YV(q).v, one), eq(YV(q).v, zero), eq(YV(q).v, minus))))

            def run(it):
                X = p.data(s)
                y = Series(Index(p.sp, ZERO, n, HASY, own="the labels' index"), YV, "f", "the labels", "y")
                return it.call(it.getattr(p.pipe(it), what), [X, y] + ([] if drop is None else [drop]), {})
            pk = lambda q: and_(p.prim_ok(q), HASY(q), not_(YV(q).nan))
            nothing = not_(exists(n, pk))
            # meta-labelling features at a time without the primary prediction to be joined with them
            bad = FALSE
            if meta and up and not upr:
                bad = exists(n, lambda q: and_(*([not_(x.nan) for c, x in p.feats(p.MT, "metalabeling_model_features", q)] + [not_(pk(q))])))
            for i, o in enumerate(s.paths(label, run, HYP2(p), rejects=or_(not_(legal), *([] if drop is False else [nothing, bad])))):
                X, y = o.value
                at = " (path %d)" % i
                rg = list(o.pc) + RNG
                if drop is False:
                    inx = iny = None
                    s.goal(label + ": every time" + at, rg, and_(X._index.inr(K), iff(y._index.inr(K), HASY(K))))
                    s.equal(label + ": labels" + at, rg, y.e(K), YV(K))
                    row = p.prim_row(K)
                else:
                    ok = pk(K) if not meta else and_(pk(K), p.meta_ok(K)) if up or upr else and_(pk(K), p.meta_ok(K))
                    s.goal(label + ": times of the features" + at, rg, iff(X._index.inr(K), ok))
                    s.goal(label + ": times of the labels" + at, rg, iff(y._index.inr(K), ok))
                    h = rg + [ok]
                    s.equal(label + ": label" + at, h, y.e(K), Sc(ite(eq(p.side(K).v, YV(K).v), ONE, ZERO)) if meta else YV(K))
                    row = p.meta_row(K) if meta else p.prim_row(K)
                s.goal(label + ": same times" + at, rg, and_(eq(X._index.space.lab(K), p.sp.lab(K)), eq(y._index.space.lab(K), p.sp.lab(K))))
                got = [e for e, d in X.cols.values()]
                s.goal(label + ": number of features" + at, list(o.pc), N(len(got) == len(row)))
                for j, (e, w) in enumerate(zip(got, row)):
                    s.equal(label + ": feature %d" % j + at, rg if drop is False else h, e(K), w)
                if meta:
                    names_ = [c for c, x in p.feats(p.MT, "metalabeling_model_features", K)] + (["primary_side_pred"] if up else []) + (["primary_side_pred_proba_%d" % j for j in range(len(classes))] if upr else [])
                else:
                    names_ = [c for c, x in p.feats(p.T, "primary_model_features", K)]
                s.goal(label + ": names of the features" + at, list(o.pc), N(list(X.cols) == names_))
                s.frame(label, o)


# ---------------------------------------------------------------- P01
def alignment(s, how, primary, meta, width):
    s.current = "mizarlabs.model.pipeline.StrategySignalPipeline._align_on"
    s.assume("the features of other grids have no missing values, every grid's times are distinct, increasing and of one time zone")
    fn = pl.StrategySignalPipeline._align_on
    order = primary
    if True:
        keys = {"primary_model_features": primary, "metalabeling_model_features": meta}
        label = "%s, %s%s" % (how, " and ".join(order), "; " + " and ".join(meta) if meta else "")
        sp = time_space()
        cut = N(pd_.Timestamp("1-1-1700").value)

        class Grid:
            """one feature frame and what its rows contribute to each time of the leading grid"""

            def __init__(self, key, nm):
                self.id = "%s_%s" % (key[:4], nm)
                self.m = var("rows_" + self.id, "I")
                self.nm, self.key = nm, key
                lab_ = "ms_" + self.id
                self.space = Space(self.id, lambda q: mul(MSNS, mk("app", (lab_, N(q)), "I")), "M", True)
                tm._incr.add(lab_); tm._pos.add(lab_)
                s.funcs[lab_] = incr_fn
                self.cols = ["c%d_%s" % (j, self.id) for j in range(width)]
                self.how = how if nm == "more" else "mean"
                # the last grid time before q that received rows, by its defining recursion
                tm._axiom["prev_" + self.id] = lambda q: [imp(eq(q, ZERO), eq(self.prev(q), cut))] + ([imp(le(ONE, q), eq(self.prev(q), ite(self.got(sub(q, ONE)), sp.lab(sub(q, ONE)), self.prev(sub(q, ONE)))))] if is_one_more(q) else [])

            def prev(self, q): return mk("app", ("prev_" + self.id, N(q)), "I")
            def within(self, q, r): return and_(gt(self.space.lab(r), self.prev(q)), le(self.space.lab(r), sp.lab(q)))
            def got(self, q): return exists(self.m, lambda r: self.within(q, r))
            def val(self, c, r): return mk("app", (c, r), "R")

            def agg(self, c, q):
                if self.how == "mean":
                    return mul(ssum(self.m, lambda r: self.val(c, r), lambda r: self.within(q, r)), inv(ssum(self.m, lambda r: ONE, lambda r: self.within(q, r))))
                return smax(self.m, lambda r: self.val(c, r), lambda r: self.within(q, r), self.how)

            def frame(self):
                return Frame(Index(self.space, ZERO, self.m, own=self.id + "'s index"), {c: (lambda r, c=c: Sc(self.val(c, r)), "f") for c in self.cols}, self.id)
        grids = {(k, nm): Grid(k, nm) for k, ns in keys.items() for nm in ns if nm != "bars"}

        def state(it, fr, i):
            g = grids[(fr.env["model_features_key"], fr.env["feature_key"])]
            return {"previous_index": Sc(g.prev(i)),
                    "aligned_feature_df": Frame(Index(sp, ZERO, n), {c: (lambda q, c=c: Sc(g.agg(c, q), not_(and_(lt(q, i), g.got(q)))), "f") for c in g.cols})}
        s.loops[fn] = {2: LoopContract(state)}

        def run(it):
            setup(s)
            bars = Frame(Index(sp, ZERO, n, own="the leading frame's index"), {"close": (lambda q: cell("close", q), "f")}, "the leading frame")
            d = {k: {nm: bars if nm == "bars" else grids[(k, nm)].frame() for nm in ns} for k, ns in keys.items()}
            p = it.call(pl.StrategySignalPipeline, [{k: None for k in order}, "bars", {"more": how, "third": "mean"}], dict(feature_transformers_metalabeling_model={k: None for k in meta}))
            return it.call(it.getattr(p, "_align_on"), [d], {}), bars
        hyp = [le(ONE, n)] + [le(ONE, g.m) for g in grids.values()]
        for i, o in enumerate(s.paths(label, run, hyp)):
            r, bars = o.value
            at = " (path %d)" % i
            rg = list(o.pc) + RNG
            s.goal(label + ": the leading features are kept" + at, list(o.pc), N(r["primary_model_features"]["bars"] is bars))
            s.goal(label + ": the features" + at, list(o.pc), N({k: list(v) for k, v in r.items()} == keys))
            for (k, nm), g in grids.items():
                f = r[k][nm]
                s.goal(label + ": %s on the leading grid" % g.id + at, rg, and_(f._index.inr(K), eq(f._index.space.lab(K), sp.lab(K)), eq(f._index.lo, ZERO), eq(f._index.hi, n)))
                x = fresh("q", "I")
                last = ho("last", add(K, ONE), g.got(x), TRUE, x)
                for c in g.cols:
                    s.equal(label + ": %s, %s" % (g.id, c) + at, rg, f[c].e(K), Sc(g.agg(c, last), not_(exists(add(K, ONE), g.got))))
            s.frame(label, o)


for _h, _p, _m, _w in (("mean", ["bars", "more"], [], 1), ("min", ["more", "bars"], [], 2), ("max", ["more", "bars"], [], 2), ("mean", ["bars"], ["more"], 2), ("max", ["bars", "more", "third"], [], 1)):
    contract("P01", "_align_on, %s, %s, %s" % (_h, " ".join(_p), " ".join(_m)))(lambda s, a=(_h, _p, _m, _w): alignment(s, *a))
