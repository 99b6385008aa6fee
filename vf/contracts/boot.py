"""Contracts of the bootstrapping functions: indicator matrix, average uniqueness, sequential bootstrap, bagging."""
from .base import *
from ..eng.lib import *
from ..eng.sparse import Sparse
from mizarlabs.model import bootstrapping as bo
from mizarlabs.transformers import sample_weights as sw
from mizarlabs.transformers.sampling.average_uniqueness import AverageUniqueness

m = var("m", "I")
# labels in any order, none ending before it starts; bars in time order
ST = lambda q: mul(MSNS, mk("app", ("ls", N(q)), "I"))
EN = lambda q: add(ST(q), mul(MSNS, mk("app", ("dur", N(q)), "I")))
NOEND = lambda q: mk("app", ("no_end", N(q)), "B")
BAR = lambda q: mul(MSNS, ms(q))
tm._pos.add("ls")
tm._nonneg.add("dur")
POSN = [le(ONE, n), le(ZERO, m)]
J = var("j", "I")


def labels(s, missing=False):
    setup(s)
    return Series(Index(Space("labels", ST, "M", False), ZERO, n, own="the labels' index"), lambda k: Sc(EN(k), NOEND(k) if missing else FALSE), "M", "the labels", "event_end_time")


def bars(s, cols=()):
    ix = Index(Space("bars", BAR, "M", True), ZERO, m, own="the bars' index")
    return Frame(ix, dict({"close": (column("close"), "f")}, **dict(cols)), "the bars")


def row_times(s, lab, price):
    """the row times: the distinct starts, ends and price bars from the first start to the last end, in order"""
    first, last = smax(n, ST, kind="min"), smax(n, EN)
    e = price._index.space.lab
    inside = Seq(price._index.lo, price._index.hi, lambda q: and_(le(first, e(q)), le(e(q), last)), lambda q: Sc(e(q)), "M")
    starts, ends = Seq(ZERO, n, None, lambda q: Sc(ST(q)), "M"), Seq(ZERO, n, None, lambda q: Sc(EN(q)), "M")
    return sorted_set(SymSet([starts, ends, inside]))


def indicator(R, k, j):
    t = R.space.lab(k)
    return and_(le(ST(j), t), le(t, EN(j)))


@contract("B01", "get_ind_matrix")
def ind_matrix(s):
    s.current = "mizarlabs.model.bootstrapping.get_ind_matrix"
    for ret in (False, True):
        label = "get_ind_matrix(return_indices=%s)" % ret
        R = row_times(s, labels(s, True), bars(s))

        def run(it):
            return it.call(bo.get_ind_matrix, [labels(s, True), bars(s), "event_end_time"] + ([True] if ret else []), {})
        for i, o in enumerate(s.paths(label, run, POSN, rejects=exists(n, NOEND))):
            M = o.value[0] if ret else o.value
            rg = list(o.pc) + [le(ZERO, K), lt(K, R.hi), le(ZERO, J), lt(J, n)]
            s.goal("%s: one column per label (path %d)" % (label, i), list(o.pc), eq(M.nc, n))
            s.goal("%s: one row per distinct time (path %d)" % (label, i), list(o.pc), eq(M.nr, R.hi))
            s.equal("%s: entry (path %d)" % (label, i), rg, M.e(K, J), Sc(ite(indicator(R, K, J), ONE, ZERO)))
            if ret:
                ix = o.value[1]
                s.goal("%s: as many times returned as rows (path %d)" % (label, i), list(o.pc), eq(ix.length(), R.hi))
                s.equal("%s: returned times in time order (path %d)" % (label, i), rg[:-2], ix.e(add(ix.lo, K)), Sc(R.space.lab(K)))
            s.frame(label, o)


def events(s, cols=(), missing=False, name="event_end_time"):
    """a frame of labels: index the starts, a column with the ends"""
    setup(s)
    ix = Index(Space("labels", ST, "M", False), ZERO, n, own="the frame's index")
    d = {name: (lambda k: Sc(EN(k), NOEND(k) if missing else FALSE), "M")}
    d.update(cols)
    return Frame(ix, d, "the frame")


def conc_at(R, k):
    """the number of labels active at row k"""
    return ssum(n, lambda j: ONE, lambda j: indicator(R, k, j))


def avg_uniq(R, j):
    """the mean over the label's rows of one over the number of active labels"""
    return div(ssum(R.hi, lambda k: inv(conc_at(R, k)), lambda k: indicator(R, k, j)), ssum(R.hi, lambda k: ONE, lambda k: indicator(R, k, j)))


def uniqueness_bounds(s, label, i, R, rg):
    """0 < u <= 1, with equality exactly when the label is alone on its rows"""
    tot = ssum(R.hi, lambda k: inv(conc_at(R, k)), lambda k: indicator(R, k, J))
    cnt = ssum(R.hi, lambda k: ONE, lambda k: indicator(R, k, J))
    u = div(tot, cnt)
    row0 = mk("app", (R.space.name + "_pos", ST(J)), "I")
    other = exists(R.hi, lambda k: and_(indicator(R, k, J), gt(conc_at(R, k), ONE)))
    w = var("w", "I")
    some = [le(ZERO, w), lt(w, R.hi), indicator(R, w, J), gt(conc_at(R, w), ONE)]
    nm = "%s: " % label
    at = " (path %d)" % i
    some_row = sums(s, nm + "a label is active on a row" + at, rg, ZERO, cnt, row0)
    s.goal(nm + "a label is active on at least one row" + at, rg + [some_row], ge(cnt, ONE))
    rg = rg + [ge(cnt, ONE)]
    pos = sums(s, nm + "uniqueness is positive" + at, rg, ZERO, tot, row0)
    one = sums(s, nm + "uniqueness is at most one" + at, rg, tot, cnt)
    same = sums(s, nm + "uniqueness is one when no other label is active" + at, rg + [not_(other)], cnt, tot)
    less = sums(s, nm + "uniqueness is below one when another label is active" + at, rg + some, tot, cnt, w)
    s.goal(nm + "greater than zero" + at, rg + [pos], gt(u, ZERO))
    s.goal(nm + "at most one" + at, rg + [pos, one], le(u, ONE))
    s.goal(nm + "one when no other label is active on its rows" + at, rg + [pos, one, same], eq(u, ONE))
    s.goal(nm + "below one when another label is active on one of its rows" + at, rg + [pos, less], lt(u, ONE))


@contract("B02", "AverageUniqueness.transform")
def average(s):
    s.current = "mizarlabs.transformers.sampling.average_uniqueness.AverageUniqueness.transform"
    for name in ("event_end_time", "my_end"):
        label = "AverageUniqueness(%s).transform" % name
        X = events(s, name=name)
        R = row_times(s, None, X)

        def run(it):
            return it.call(it.getattr(it.call(AverageUniqueness, [name], {}), "transform"), [events(s, {"decoy": (column("decoy"), "M")}, True, name)], {})
        for i, o in enumerate(s.paths(label, run, POSN, rejects=exists(n, NOEND))):
            r = o.value
            rg = list(o.pc) + [le(ZERO, J), lt(J, n)]
            s.equal("%s: value (path %d)" % (label, i), rg, r.e(J), Sc(avg_uniq(R, J)))
            s.goal("%s: one value per label, in order (path %d)" % (label, i), list(o.pc), and_(eq(r.lo, ZERO), eq(r.hi, n)))
            s.equal("%s: indexed like the input (path %d)" % (label, i), rg, r.index.e(J), Sc(ST(J)))
            uniqueness_bounds(s, label, i, R, rg)
            s.frame(label, o)


NOCLOSE = lambda q: mk("app", ("no_close", N(q)), "B")
CLOSE_ = lambda q: mk("app", ("c_close", N(q)), "R")


def log_return(q):
    """the log return of bar q; missing on the first bar and next to a bar without a close"""
    p = sub(q, ONE)
    return Sc(sub(log_(CLOSE_(q)), log_(CLOSE_(p))), or_(lt(p, ZERO), NOCLOSE(q), NOCLOSE(p)))


@contract("W01", "SampleWeightsByReturns.transform")
def by_returns(s):
    s.current = "mizarlabs.transformers.sample_weights.SampleWeightsByReturns.transform"
    for end, close in (("event_end_time", "close"), ("my_end", "my_close")):
        label = "SampleWeightsByReturns(%s, %s).transform" % (end, close)

        def data():
            column("close")
            X = events(s, {close: (lambda k: Sc(CLOSE_(k), NOCLOSE(k)), "f")}, True, end)
            return X
        X = events(s, {}, False, end)
        R = row_times(s, None, X)

        def run(it):
            return it.call(it.getattr(it.call(sw.SampleWeightsByReturns, [end, close], {}), "transform"), [data()], {})

        def spec(j):
            bar = lambda q: and_(le(ST(j), ST(q)), le(ST(q), EN(j)), not_(log_return(q).nan))
            active = lambda q: ssum(n, lambda l: ONE, lambda l: and_(le(ST(l), ST(q)), le(ST(q), EN(l))))
            return abs_(ssum(n, lambda q: div(log_return(q).v, active(q)), bar))
        for i, o in enumerate(s.paths(label, run, POSN, rejects=exists(n, NOEND))):
            r = o.value
            rg = list(o.pc) + [le(ZERO, J), lt(J, n)]
            s.equal("%s: weight (path %d)" % (label, i), rg, r.e(J), Sc(spec(J)))
            s.goal("%s: never negative or missing (path %d)" % (label, i), rg, and_(not_(r.e(J).nan), ge(r.e(J).v, ZERO)))
            s.goal("%s: one weight per label, in order (path %d)" % (label, i), list(o.pc), and_(eq(r.lo, ZERO), eq(r.hi, n)))
            s.equal("%s: indexed like the input (path %d)" % (label, i), rg, r.index.e(J), Sc(ST(J)))
            s.frame(label, o)


U = lambda q: mk("app", ("avg_unique", N(q)), "R")


def average_contract(s):
    """the callee contract proved under B02: one average uniqueness in (0, 1] per label, indexed like the input"""
    tm._pos.add("avg_unique")

    def transform(it, args, kw):
        X = args[1] if len(args) > 1 else kw["X"]
        return Series(X._index, lambda q: Sc(U(q)), "f")
    s.over[AverageUniqueness.transform] = transform
    s.assume("AverageUniqueness.transform meets the contract proved under B02")


@contract("W02", "SampleWeightsByTimeDecay.transform")
def by_decay(s):
    s.current = "mizarlabs.transformers.sample_weights.SampleWeightsByTimeDecay.transform"
    label = "SampleWeightsByTimeDecay.transform"
    average_contract(s)
    d = var("decay", "R")
    X = events(s)
    perm, sp = dom.sorting(X._index)
    cum = lambda k: ssum(add(k, ONE), lambda j: U(perm(j)))
    tot = cum(sub(n, ONE))

    def run(it):
        return it.call(it.getattr(it.call(sw.SampleWeightsByTimeDecay, [Sc(d)], {}), "transform"), [events(s)], {})
    for i, o in enumerate(s.paths(label, run, POSN + [gt(d, N(-1))], rejects=gt(d, ONE))):
        r = o.value
        rg = list(o.pc) + [le(ZERO, K), lt(K, n)]
        at = " (path %d)" % i
        some = sums(s, label + ": total uniqueness is positive" + at, list(o.pc), ZERO, tot, ZERO)
        rg.append(some)
        line = add(d, mul(sub(ONE, d), div(cum(K), tot)))
        drop = div(sub(cum(K), mul(neg(d), tot)), mul(add(ONE, d), tot))
        spec = ite(ge(d, ZERO), line, ite(le(cum(K), mul(neg(d), tot)), ZERO, drop))
        s.equal(label + ": weight in time order" + at, rg, r.e(K), Sc(spec))
        s.goal(label + ": newest label has weight one" + at, rg, eq(r.e(sub(n, ONE)).v, ONE))
        s.goal(label + ": never negative" + at, rg, ge(r.e(K).v, ZERO))
        rg2 = rg + [lt(add(K, ONE), n), unroll(cum(add(K, ONE)))]
        step = div(sub(cum(add(K, ONE)), cum(K)), tot)
        lem = [ge(step, ZERO)]
        s.goal(label + ": cumulative uniqueness grows" + at, rg2, lem[0])
        lem.append(and_(ge(mul(sub(ONE, d), step), ZERO), ge(mul(inv(add(ONE, d)), step), ZERO)))
        s.goal(label + ": the slope is not negative" + at, list(o.pc) + [some] + lem[:1], lem[1])
        s.goal(label + ": non-decreasing" + at, list(o.pc) + [some] + lem, le(r.e(K).v, r.e(add(K, ONE)).v))
        s.goal(label + ": one weight per label" + at, list(o.pc), and_(eq(r.lo, ZERO), eq(r.hi, n)))
        s.equal(label + ": labels in time order" + at, rg, r.index.e(K), Sc(sp.lab(K)))
        s.frame(label, o)


# ------------------------------------------------------------ sequential bootstrap
import numpy as np
from ..eng.prove import atoms_of
from ..eng.select import Positions, Bag, LoopContract

MR = var("rows", "I")
IND = lambda t, q: mk("app", ("ind", N(t), N(q)), "B")
DRAW = lambda d: mk("app", ("draw", N(d)), "I")
tm._axiom["draw"] = lambda d: [and_(le(ZERO, DRAW(d)), lt(DRAW(d), n))]


def drawn(t, L):
    """how many of the first L draws are active on row t"""
    return ssum(L, lambda d: ONE, lambda d: IND(t, DRAW(d)))


def uniq_given(L, q):
    """the mean over the sample's rows of one over one plus the number of the first L draws active on the row"""
    return div(ssum(MR, lambda t: inv(add(ONE, drawn(t, L))), lambda t: IND(t, q)), ssum(MR, lambda t: ONE, lambda t: IND(t, q)))


class Rng:
    """random generator: records the probabilities it is given and returns arbitrary valid positions"""

    def __init__(self): self.at = None

    def choice(self, a, size=None, replace=True, p=None):
        c = dom.ctx()
        if self.at is None or replace is not True or p is None:
            raise Unsupported("another use of the random generator")
        L, self.at = self.at, None
        a, p = dom.Seq.need_dense(a), p.need_dense()
        h = list(c.hyps) + [le(ZERO, K), lt(K, n)]
        c.obls.append(("draws are among all the samples", list(c.hyps), and_(eq(sub(a.hi, a.lo), n), eq(sub(p.hi, p.lo), n)), None))
        c.obls.append(("each sample can be drawn", h, eq(a.e(add(a.lo, K)).v, K), None))
        x = p.e(add(p.lo, K))
        c.obls.append(("probability: missing never", h, not_(x.nan), None))
        c.obls.append(("probability of a sample given the draws so far", h, eq(x.v, self.prob(L, K)), None))
        c.require_or_raise(ge(sc(size).v, ZERO), ValueError, "size of the draw")
        return Seq(ZERO, sc(size).v, None, lambda k: Sc(DRAW(add(L, k))), "i")


def split_lemma(pr, fs, nodes, cands):
    """a sample is active on at least one row; sums of zeros and ones over fewer draws are not larger, and equal when no later draw counts"""
    out = []
    for t in nodes:
        if t.args[0] != "sum":
            continue
        b = var("#%d" % bdepth(t), "I")
        if t.args[3] is ONE and t.args[2].op == "app" and t.args[2].args[0] == "ind" and t.args[2].args[1] is b and b not in fv(t.args[2].args[2]):
            out.append(imp(and_(le(ZERO, t.args[2].args[2]), lt(t.args[2].args[2], n), eq(t.args[1], MR)), ge(t, ONE)))
    return out


# the uniqueness of a sample given the first draws, by name: what is used of it is proved in "uniqueness given draws"
UG = lambda L, q: ONE if N(L) is ZERO else mk("app", ("uniqueness_given", N(L), N(q)), "R")
WROW = lambda P, L, q: mk("app", ("drawn_row", N(P), N(L), N(q)), "I")
WDRAW = lambda P, L, q: mk("app", ("later_draw", N(P), N(L), N(q)), "I")
tm._pos.add("uniqueness_given")
tm._def["uniqueness_given"] = (lambda ev, a: ev(uniq_given(N(int(a[0])), N(int(a[1])))), [MR, IND(ZERO, ZERO), DRAW(ZERO)])
HOME = lambda q: mk("app", ("a_row", N(q)), "I")
VALIDROWS = "every sample of the indicator matrix is active on at least one bar; the updated uniqueness, held in single precision, is treated as exact"


def unchanged(P, L, q):
    """the uniqueness changes only if a draw from P to L is active on a row of the sample"""
    w, d = WROW(P, L, q), WDRAW(P, L, q)
    return or_(eq(UG(P, q), UG(L, q)), and_(le(ZERO, w), lt(w, MR), IND(w, q), le(ZERO, d), lt(d, sub(L, P)), IND(w, DRAW(add(P, d)))))


def same_uniqueness(pr, fs, nodes, cands):
    us, exs, memo, memo2 = {}, {}, set(), set()
    free = lambda t: not any(v.args[0].startswith("#") for v in fv(t))
    for f in fs:
        atoms_of(f, lambda t: t.op == "app" and t.args[0] == "uniqueness_given" and free(t), us, memo)
        atoms_of(f, lambda t: t.op == "ho" and t.args[0] == "ex" and t.args[1] is MR and free(t), exs, memo2)
    out = []
    us = list(us)
    at = lambda t, c: imp(and_(le(ZERO, c), lt(c, t.args[1]), open_(t, c)[0]), t)
    for a in us:
        out.append(imp(eq(a.args[1], ZERO), eq(a, ONE)))
        for b in us:
            if a is not b and a.args[2] is b.args[2] and a.args[1] is not b.args[1]:
                P, L, q = a.args[1], b.args[1], a.args[2]
                out.append(imp(and_(le(ZERO, P), le(P, L), le(ZERO, q), lt(q, n)), unchanged(P, L, q)))
                # the row and the draw are instances of what is known of all rows and draws
                w, d = WROW(P, L, q), WDRAW(P, L, q)
                for t in exs:
                    f = at(t, w)
                    out.append(f)
                    inner = {}
                    atoms_of(open_(t, w)[0], lambda t: t.op == "ho" and t.args[0] == "ex" and free(t), inner, set())
                    out += [at(i, d) for i in inner]
    return out


@contract("B03", "uniqueness given draws")
def uniqueness_facts(s):
    """the facts that the contract of seq_bootstrap uses of the uniqueness given draws"""
    s.current = "mizarlabs.model.bootstrapping._calc_update_avg_unique"
    s.assume(VALIDROWS)
    s.prover.lemmas.append(split_lemma)
    P, L, q, t, d = var("P", "I"), var("L", "I"), var("q", "I"), var("t", "I"), var("d", "I")
    rg = [le(ONE, n), le(ONE, MR), le(ZERO, P), le(P, L), le(ZERO, q), lt(q, n)]
    tot = lambda a: ssum(MR, lambda t: inv(add(ONE, drawn(t, a))), lambda t: IND(t, q))
    cnt = ssum(MR, lambda t: ONE, lambda t: IND(t, q))
    s.goal("a sample is active on at least one row", rg, ge(cnt, ONE))
    s.goal("before any draw every sample has uniqueness one", rg, eq(uniq_given(ZERO, q), ONE))
    active = and_(le(ZERO, HOME(q)), lt(HOME(q), MR), IND(HOME(q), q))
    pos = sums(s, "sum of a sample's reciprocals", rg + [active], ZERO, tot(P), HOME(q))
    s.goal("uniqueness is positive", rg + [pos, ge(cnt, ONE)], gt(uniq_given(P, q), ZERO))
    # a row that no later draw is active on has the same count: induction over the later draws
    e = var("e", "I")
    x = fresh("d", "I")
    later = lambda t, e: ho("ex", e, IND(t, DRAW(add(P, x))), TRUE, x)
    same = lambda t, e: or_(later(t, e), eq(drawn(t, add(P, e)), drawn(t, P)))
    row = rg + [le(ZERO, t), lt(t, MR), le(ZERO, e)]
    s.goal("no later draw, the same number of draws on a row: none", row, same(t, ZERO))
    s.goal("no later draw, the same number of draws on a row: one more", row + [same(t, e), unroll(drawn(t, add(P, e, ONE)))], same(t, add(e, ONE)))
    y = fresh("t", "I")
    none = not_(ho("ex", MR, and_(IND(y, q), later(y, sub(L, P))), TRUE, y))
    z = fresh("t", "I")
    every = not_(ho("ex", MR, not_(same(z, sub(L, P))), TRUE, z))
    s.goal("the same uniqueness when no later draw is active on a row of the sample", rg + [none, every], eq(uniq_given(P, q), uniq_given(L, q)))


@contract("B03", "_calc_update_avg_unique")
def updated(s):
    s.current = "mizarlabs.model.bootstrapping._calc_update_avg_unique"
    s.assume(VALIDROWS)
    s.prover.lemmas.append(split_lemma)
    L, q = var("L", "I"), var("q", "I")
    label = "_calc_update_avg_unique"
    upd = lambda k: mk("app", ("to_update", N(k)), "B")

    def run(it):
        return it.call(bo._calc_update_avg_unique, [matrix(), Positions(n, upd), Seq(ZERO, L, None, lambda d: Sc(DRAW(d)), "i", "the draws so far")], {})
    for i, o in enumerate(s.paths(label, run, [le(ONE, n), le(ONE, MR), le(ZERO, L)])):
        r = lib_seq(o.value, False)
        rg = list(o.pc) + [le(ZERO, q), lt(q, n)]
        s.goal("%s: one value per sample to update (path %d)" % (label, i), rg, and_(eq(r.lo, ZERO), eq(r.hi, n), iff(r.g(q), upd(q))))
        s.equal("%s: uniqueness given the draws so far (path %d)" % (label, i), rg + [upd(q)], r.e(q), Sc(uniq_given(L, q)))
        s.frame("%s (path %d)" % (label, i), o)


def matrix():
    return Sparse(MR, n, lambda t, q: Sc(ite(IND(t, q), ONE, ZERO)), "f", "the indicator matrix", None, "csc")


@contract("B03", "seq_bootstrap")
def sequential(s):
    s.current = "mizarlabs.model.bootstrapping.seq_bootstrap"
    s.assume(VALIDROWS)
    s.prover.lemmas.append(same_uniqueness)
    s.prover.cross = True
    u, sl = var("every", "I"), var("draws", "I")
    rng = Rng()
    prob_of = lambda L, q: div(UG(L, q), ssum(n, lambda x: UG(L, x)))
    rng.prob = prob_of

    def update(it, args, kw):
        m, samples, boots = args
        h, ob = list(dom.ctx().hyps), dom.ctx().obls
        if not isinstance(samples, Positions) or samples.hi is not n or not isinstance(m, Sparse):
            raise Unsupported("update of something else than distinct samples")
        boots = lib_seq(boots)
        t, d = fresh("t", "I"), fresh("d", "I")
        ob.append(("the update uses the indicator matrix", h + [le(ZERO, t), lt(t, MR), le(ZERO, d), lt(d, n)], and_(eq(m.nr, MR), eq(m.nc, n), eq(num(m.e(t, d).v), ite(IND(t, d), ONE, ZERO))), None))
        L = boots.length()
        ob.append(("the update uses every draw so far", h + [le(ZERO, d), lt(d, L)], eq(boots.e(add(boots.lo, d)).v, DRAW(d)), None))
        return Seq(ZERO, n, samples.g, lambda q: Sc(UG(L, q)), "f")
    s.over[bo._calc_update_avg_unique] = update
    for default in (False, True):
        total = n if default else sl
        label = "seq_bootstrap(%s)" % ("all defaults" if default else "sample_length, update_probs_every")
        step = ONE if default else u
        batches = ceil_(div(total, step))
        i0 = var("b", "I")
        hyps = [le(ONE, n), le(ONE, MR), le(ONE, u), le(ZERO, sl)]
        facts = lambda i: [or_(le(i, ZERO), lt(mul(sub(i, ONE), step), total)), imp(lt(i, batches), lt(mul(i, step), total)), imp(ge(i, batches), ge(mul(i, step), total)), imp(ge(i, ONE), ge(mul(sub(i, ONE), step), ZERO)), ge(mul(i, step), mul(sub(i, ONE), step))]
        for k, f in enumerate(facts(i0)):
            s.goal("%s: number of batches (%d)" % (label, k), hyps + [le(ZERO, i0), le(i0, batches)], f)
        L = lambda i: min2(mul(i, step), total)
        P = lambda i: ite(le(i, ZERO), ZERO, mul(sub(i, ONE), step))

        def state(it, fr, i):
            return {"avg_unique": Seq(ZERO, n, None, lambda q: Sc(UG(P(i), q)), "f"),
                    "prob": Seq(ZERO, n, None, lambda q: Sc(prob_of(P(i), q)), "f"),
                    "bootstrapped_samples": Seq(ZERO, L(i), None, lambda d: Sc(DRAW(d)), "i"),
                    "rows_impacted": Bag(MR, lambda t: exists(sub(L(i), P(i)), lambda d: IND(t, DRAW(add(P(i), d)))))}

        def before(i):
            rng.at = mul(i, step)
        s.loops[bo.seq_bootstrap] = {0: LoopContract(state, batches, facts, before)}

        def run(it):
            rng.at = None
            if default:
                return it.call(bo.seq_bootstrap, [matrix()], {"random_state": rng})
            return it.call(bo.seq_bootstrap, [matrix(), Sc(sl), rng, Sc(u)], {})
        for i, o in enumerate(s.paths(label, run, hyps)):
            r = lib_seq(o.value)
            s.goal("%s: exactly the requested number of draws (path %d)" % (label, i), list(o.pc), eq(sub(r.hi, r.lo), total))
            s.goal("%s: every draw is a sample (path %d)" % (label, i), list(o.pc) + [le(r.lo, K), lt(K, r.hi)], and_(le(ZERO, r.e(K).v), lt(r.e(K).v, n)))
            s.frame(label, o)


def lib_seq(x, dense=True):
    from ..eng import lib
    x = lib.to_seq(x)
    return x.need_dense() if dense else x
