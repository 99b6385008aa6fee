"""Contract of the combinatorial back-test paths."""
from .base import *
from ..eng import lib
from ..eng.lib import LIB
from ..eng.dom import *
from ..eng.prove import atoms_of
from ..eng.interp import SymEnum
from ..eng.select import LoopContract, SymList, is_sel, binomial
from . import cv as cvc
from .cv import N_, G, T, PRE, in_groups, validator
import random as random_module
import numpy as np, pandas as pd
from mizarlabs.model import model_selection as md

TRAINS = lambda c, t: mk("app", ("trains", N(c), N(t)), "B")            # sample t trains split c
HELD = lambda i, j, v: mk("app", ("held", N(i), N(j), N(v)), "B")       # the dictionary has the key after j blocks of split i
ORDER = lambda m: mk("app", ("key_order", N(m)), "I")                   # the group of the m-th key
PLACE = lambda g: mk("app", ("key_place", N(g)), "I")
USED = lambda g, p: mk("app", ("used_by", N(g), N(p)), "I")             # the split whose result of the group is removed for path p
PREDICTED, TARGETS = ("predictions", "max_proba"), ("label", "size")
tm._axiom["key_order"] = lambda m: [imp(and_(le(ZERO, m), lt(m, G)), and_(le(ZERO, ORDER(m)), lt(ORDER(m), G), eq(PLACE(ORDER(m)), m)))]
tm._axiom["key_place"] = lambda g: [imp(and_(le(ZERO, g), lt(g, G)), and_(le(ZERO, PLACE(g)), lt(PLACE(g), G), eq(ORDER(PLACE(g)), g)))]


class Case:
    """what the objects below share in one exploration"""


def ob(what, g, more=()):
    c = dom.ctx()
    c.obls.append((what, list(c.hyps) + list(more), g, None))


def within(t): return [le(ZERO, t), lt(t, N_)]


def positions(x):
    if isinstance(x, Seq) and is_sel(x):
        return x.inr
    raise Unsupported("samples taken by something else than positions")


class Tested(Seq):
    """the positions of the test samples of a split"""

    def __init__(self, g): super().__init__(ZERO, N_, g, lambda t: Sc(t), "i")

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        m = i.mask if isinstance(i, Where) else i
        if not isinstance(m, Seq) or m.dt != "b" or m.lo is not self.lo or m.hi is not self.hi:
            raise Unsupported("part of a test set")
        t = fresh("t", "I")
        ob("a mask of the test samples", iff(m.g(t), self.g(t)), within(t))
        g = self.g
        return Tested(lambda t: and_(g(t), boolt(m.e(t))))


class Where:
    """where a mask holds"""

    def __init__(self, mask): self.mask = mask


def where(it, args, kw):
    if len(args) == 1 and not kw and isinstance(args[0], Seq) and args[0].dt == "b" and not args[0].dense():
        return (Where(args[0]),)
    return LIB[np.where](it, args, kw)


# ---------------------------------------------------------------- the samples and the model
class Table:
    """the samples' features or targets, or those at selected positions"""

    def __init__(self, kind, g=None): self.kind, self.g = kind, g

    @property
    def iloc(self): return At(self)

    @property
    def index(self):
        if self.g is not None:
            return Times(self.g)
        return Times()

    @property
    def values(self): return Rows(self.kind, self.g)

    def to_numpy(self): return self.values

    @property
    def columns(self): return list(TARGETS) if self.kind == "targets" else ["x"]

    @property
    def shape(self):
        if self.g is not None:
            raise Unsupported("number of selected samples")
        return (Sc(N_), len(self.columns))

    def sym_len(self, it): return self.shape[0]

    def __getitem__(self, c):
        if self.kind != "targets" or c not in TARGETS:
            raise Unsupported("a part of the samples")
        return Table(c, self.g)


class At:
    def __init__(self, t): self.t = t

    def __getitem__(self, i):
        if self.t.g is not None:
            raise Unsupported("positions within selected samples")
        return Table(self.t.kind, positions(i))


class Times:
    def __init__(self, g=None): self.g = g

    def __getitem__(self, i):
        if self.g is not None:
            raise Unsupported("positions within selected times")
        return Times(positions(i))


class Rows:
    """the values of selected samples"""

    def __init__(self, kind, g): self.kind, self.g = kind, g


class Fit:
    def __init__(self, split): self.split = split


class Model:
    """a model whose predictions are row-wise: the prediction of a sample is a function of the fit and the sample"""

    def __init__(self, case, fit=None): self.case, self.made = case, fit

    def fit(self, X, y, **params):
        if not isinstance(X, Rows) or not isinstance(y, Rows):
            raise Unsupported("what the model is fitted on")
        i, t = self.case.split, fresh("t", "I")
        ob("fitted on features and labels", N(X.kind == "features" and y.kind == "label"))
        for what, x in (("features", X), ("labels", y)):
            ob("fitted on the %s of exactly the split's training samples" % what, iff(x.g(t), TRAINS(i, t)) if x.g is not None else FALSE, within(t))
        ob("fitted with the given parameters", N(params == self.case.params))
        self.made = Fit(i)
        return self

    def ask(self, what, X):
        if not isinstance(X, Rows) or X.kind != "features" or X.g is None:
            raise Unsupported("what the model predicts")
        return Given(what, self.made, X.g)

    def predict(self, X): return self.ask("predictions", X)

    def predict_proba(self, X): return self.ask("probabilities", X)


class Given:
    """predictions of the selected samples by a fit"""

    def __init__(self, what, fit, g): self.what, self.fit, self.g = what, fit, g

    def max(self, axis=None):
        if self.what != "probabilities" or conc(axis) not in (1, -1):
            raise Unsupported("maximum of predictions")
        return Given("max_proba", self.fit, self.g)


def amax(it, args, kw):
    a = dict(zip(["a", "axis"], args)); a.update(kw)
    if isinstance(a["a"], Given) and set(a) == {"a", "axis"}:
        return a["a"].max(a["axis"])
    return LIB[np.max](it, args, kw)


class Piece:
    """a frame over the times of selected samples"""

    def __init__(self, g, cols=None): self.g, self.cols = g, dict(cols or {})

    def __setitem__(self, c, v):
        if not isinstance(v, Given) or not isinstance(c, str):
            raise Unsupported("another column of a result")
        t = fresh("t", "I")
        ob("one prediction per time of the result", iff(v.g(t), self.g(t)), within(t))
        self.cols[c] = v

    def join(self, o, how="left"):
        if not isinstance(o, Table) or o.kind != "targets" or o.g is not None or how != "left" or set(self.cols) & set(TARGETS):
            raise Unsupported("join of a result")
        return Piece(self.g, dict(self.cols, **{c: "own" for c in TARGETS}))

    def copy(self, deep=True): return Piece(self.g, self.cols)


def frame_of(it, args, kw):
    a = dict(zip(["data", "index", "columns"], args)); a.update(kw)
    if not a:
        return Path(None, ZERO)
    if isinstance(a.get("index"), Times) and set(a) <= {"data", "index"} and a["index"].g is not None:
        r = Piece(a["index"].g)
        d = a.get("data")
        if d is not None and not isinstance(d, dict):
            raise Unsupported("data of a result")
        for c, v in (d or {}).items():
            r[c] = v
        return r
    return LIB[pd.DataFrame](it, args, kw)


def merge(it, args, kw):
    a = dict(zip(["left", "right", "how"], args)); a.update(kw)
    if isinstance(a.get("left"), Piece) and set(a) <= {"left", "right", "how", "left_index", "right_index"} and a.get("left_index") is True and a.get("right_index") is True:
        # every time of the result is one of the targets': left and inner joins have the rows of the result
        return a["left"].join(a["right"], "left" if a.get("how", "inner") in ("left", "inner") else a["how"])
    raise Unsupported("merge")


# ---------------------------------------------------------------- the results per group
class Store:
    """the dictionary: group start -> results of the group

    filling: after j blocks of split i, it holds for each group the results of the splits before i that test it and, if it
    is one of the first j groups of split i, that of split i.  taking: after p paths and the first m keys of the next one,
    p (for the first m keys p + 1) results of each group have been removed, no two the same
    """

    def __init__(self, case, phase, a, b): self.case, self.phase, self.a, self.b, self.events, self.dead = case, phase, N(a), N(b), [], False

    def live(self, phase=None):
        if self.dead or phase and self.phase != phase:
            raise Unsupported("another use of the results")
        return self

    def sym_contains(self, it, v):
        self.live("filling")
        if self.events:
            raise Unsupported("a key looked up after a change")
        return Sc(HELD(self.a, self.b, sc(v).v))

    def keys(self): return Keys(self.live(), lambda k: k)

    def items(self): return Keys(self.live(), lambda k: (k, Results(self, k)))

    def values(self): return Keys(self.live(), lambda k: Results(self, k))

    def sym_enum(self): return self.keys().sym_enum()
    def sym_iter(self, it): return None

    def __setitem__(self, k, v):
        self.live("filling")
        if not (isinstance(v, list) and not v) or self.events:
            raise Unsupported("another value of the dictionary")
        ob("a group's results are not thrown away", not_(HELD(self.a, self.b, sc(k).v)))
        self.events.append(("new", sc(k).v))

    def setdefault(self, k, v):
        self.live("filling")
        if not (isinstance(v, list) and not v) or self.events:
            raise Unsupported("another value of the dictionary")
        return Results(self, k)

    def __getitem__(self, k):
        self.live()
        k = sc(k)
        if self.phase == "filling":
            made = [e[1] for e in self.events if e[0] == "new"]
            dom.ctx().require_or_raise(or_(HELD(self.a, self.b, k.v), *[eq(k.v, x) for x in made]), KeyError, "the group has results")
        return Results(self, k)


class Keys:
    def __init__(self, store, f): self.store, self.f = store, f

    def sym_contains(self, it, v): return self.store.sym_contains(it, v)
    def sym_iter(self, it): return None

    def sym_enum(self):
        s, g = self.store.live(), fresh("g", "I")
        if s.phase == "filling":
            raise Unsupported("the keys while the dictionary is filled")
        B = s.case.plan.B
        ob("groups have different keys", lt(B(g), B(add(g, ONE))), [le(ZERO, g), lt(g, G)])
        return SymEnum(ZERO, G, None, lambda m: self.f(Sc(B(ORDER(m)))))

    def sym_len(self, it): return Sc(G)


class Results:
    """the results of one group"""

    def __init__(self, store, key): self.store, self.key = store, sc(key)

    def append(self, v):
        self.store.live("filling").events.append(("append", self.key.v, v))

    def left(self):
        """how many are left before this path's is removed"""
        s = self.store.live("taking")
        return sub(entries(s.case, self.key.v), s.a)

    def sym_len(self, it): return Sc(self.left()) if not self.store.events else unsupported()

    def pop(self, i=-1):
        s = self.store.live("taking")
        if not isinstance(i, int) or i not in (0, -1):
            raise Unsupported("another position of a group's results")
        ob("a result of the group is left", and_(lt(ZERO, self.left()), N(not s.events)))
        s.events.append(("pop", self.key.v))
        return Result(self.key.v, s.a)

    def __getitem__(self, i):
        s = self.store.live("taking")
        if not isinstance(i, int) or i not in (0, -1):
            raise Unsupported("another position of a group's results")
        ob("a result of the group is left", lt(ZERO, self.left()))
        return Result(self.key.v, s.a)

    def shuffled(self): self.store.live("taking")


def unsupported(): raise Unsupported("the number of results after a removal")


class Result:
    """the result of the group with the given key that is removed for path p"""

    def __init__(self, key, p): self.key, self.p = key, p

    def copy(self, deep=True): return self


def entries(case, key):
    """how many splits test the group: the contract of combinations counts them"""
    k = mk("app", ("results_of", key), "I")
    dom.ctx().hyps.append(counted(key))
    return k


def counted(key): return eq(mk("app", ("results_of", key), "I"), binomial(sub(G, ONE), sub(T, ONE)))


def shuffle(it, args, kw):
    if len(args) != 1 or kw or not isinstance(args[0], Results):
        raise Unsupported("shuffle")
    args[0].shuffled()


class Path:
    """the frame of path p with the results of the first m keys, in some order"""

    def __init__(self, p, m): self.p, self.m, self.new = p, N(m), []

    def append(self, o):
        if self.new:
            raise Unsupported("several results added at once")
        r = Path(self.p, self.m)
        r.new = [o]
        return r

    def copy(self, deep=True):
        r = Path(self.p, self.m)
        r.new = list(self.new)
        return r

    def sym_len(self, it): raise Unsupported("length of a path")


def concat(it, args, kw):
    xs = args[0] if args else kw.get("objs")
    if isinstance(xs, (list, tuple)) and len(xs) == 2 and isinstance(xs[0], Path) and not set(kw) - {"objs", "axis"} and conc(kw.get("axis", 0)) == 0 and len(args) <= 1:
        return xs[0].append(xs[1])
    return LIB[pd.concat](it, args, kw)


class Log:
    """the list of paths at the head of iteration p"""

    def __init__(self, k): self.k, self.new = N(k), []

    def append(self, v): self.new.append(v)

    def sym_len(self, it): return Sc(add(self.k, N(len(self.new))))


@contract("C04", "combinatorial_cross_validation_paths")
def back_test(s):
    setup(s)
    fn = md.combinatorial_cross_validation_paths
    s.current = "mizarlabs.model.model_selection.combinatorial_cross_validation_paths"
    case = Case()
    p = case.plan = cvc.Plan(s)
    s.loops.clear()
    case.params = {"given": "parameter"}
    s.assume("split, _test_fold_bounds and compute_back_test_paths meet their contracts (C01-C03); every group is in binomial(groups - 1, test groups - 1) of the choices; "
             "the model's predictions are row-wise; sample times are distinct and the targets have the samples' times; a dictionary keeps each key once; "
             "shuffling a list and popping removes one of its elements")
    choice = lambda i: sub(sub(p.total, ONE), i)
    group = lambda i, j: p.at(choice(i), j)                        # the j-th group of split i

    def split(it, args, kw):
        a = dict(zip(["self", "X", "y", "groups"], args)); a.update(kw)
        X = a["X"]
        if not isinstance(X, Table) or X.g is not None:
            raise Unsupported("other samples are split")
        return Splits(p.total, lambda i: (Seq(ZERO, N_, lambda t: TRAINS(i, t), lambda t: Sc(t), "i"), Tested(lambda t: in_groups(p, choice(i), T, t))))

    class Splits(SymList):
        def sym_enum(self):
            def f(i):
                case.split = i
                return self.f(i)
            return SymEnum(ZERO, self.n, None, f)

    def announced(it, args, kw):
        a = dict(zip(["n_splits", "n_test_splits"], args)); a.update(kw)
        ob("the number of paths of this many groups and test groups", and_(eq(sc(a["n_splits"]).v, G), eq(sc(a["n_test_splits"]).v, T)))
        return Sc(binomial(sub(G, ONE), sub(T, ONE)))
    s.over[md.CombPurgedKFoldCV.split] = split
    s.over[md.compute_back_test_paths] = announced
    s.over[np.where] = where
    s.over[np.max] = s.over[np.amax] = amax
    s.over[pd.DataFrame] = frame_of
    s.over[pd.merge] = merge
    s.over[pd.concat] = concat
    s.over[random_module.shuffle] = shuffle

    def fill(i, j):
        def state(it, fr, k):
            old = fr.env.get("bound_pred_dict")
            if isinstance(old, Store):
                old.dead = True
            return Store(case, "filling", i if i is not None else k, j if j is not None else k)
        return state

    def outer(it, fr, i): return {"bound_pred_dict": fill(i, ZERO)(it, fr, i), "signal_pipeline": Model(case)}

    def outer_inv(i, x):
        if isinstance(x, dict):
            return [("starts empty", [], and_(N(not x), eq(N(i), ZERO)))]
        if not isinstance(x, Store):
            raise Unsupported("the dictionary was replaced")
        return [("all blocks of the split are stored", [], and_(N(x.phase == "filling" and not x.events), or_(and_(eq(add(x.a, ONE), N(i)), eq(x.b, T)), and_(eq(x.a, N(i)), eq(x.b, ZERO)))))]

    def inner(it, fr, j):
        if j is ZERO:
            case.entry = fr.env["signal_pipeline"].made
        return {"bound_pred_dict": fill(case.split, None)(it, fr, j), "signal_pipeline": Model(case, case.entry)}

    def same_fit(j, x):
        if not isinstance(x, Model) or x.made is not case.entry:
            raise Unsupported("the model is fitted while its blocks are predicted")
        return []

    def inner_inv(j, x):
        if isinstance(x, dict) and not x:
            yield "starts empty", [], and_(eq(case.split, ZERO), eq(N(j), ZERO))
            return
        if not isinstance(x, Store) or x.phase != "filling":
            raise Unsupported("the dictionary was replaced")
        i = case.split
        if not x.events:
            yield "no block stored yet", [], and_(eq(x.a, i), eq(x.b, N(j)))
            return
        added = [e for e in x.events if e[0] == "append"]
        yield "one result is stored per block", [], and_(N(len(added) == 1 and x.events[-1][0] == "append"), eq(x.a, i), eq(add(x.b, ONE), N(j)))
        g, t = group(i, x.b), fresh("t", "I")
        for e in x.events:
            yield "stored with its group", [], eq(e[1], p.B(g))
        v = added[0][2]
        if not isinstance(v, Piece):
            raise Unsupported("another result")
        h = within(t)
        yield "the result is of exactly the samples of the group", h, iff(v.g(t), and_(le(p.B(g), t), lt(t, p.B(add(g, ONE)))))
        yield "the samples are tested by the split", h + [v.g(t)], in_groups(p, choice(i), T, t)
        yield "columns of the result", [], N(set(v.cols) == {*PREDICTED, *TARGETS})
        for c in PREDICTED:
            d = v.cols.get(c)
            ok = isinstance(d, Given) and d.what == c
            yield "the %s of each sample by the model fitted on the split" % c, [], and_(N(ok), eq(d.fit.split, i) if ok and d.fit is not None else FALSE)
        for c in TARGETS:
            yield "each sample's own %s" % c, [], N(v.cols.get(c) == "own")

    def take(it, fr, a, b):
        old = fr.env.get("bound_pred_dict")
        if isinstance(old, Store):
            old.dead = True
        return Store(case, "taking", a, b)

    def paths(it, fr, q):
        case.path = q
        return {"bound_pred_dict": take(it, fr, q, ZERO), "paths": Log(q)}

    def paths_inv(q, x):
        if not isinstance(x, Store):
            raise Unsupported("the dictionary was replaced")
        if x.phase == "filling":
            return [("all splits are stored", [], and_(eq(x.a, p.total), eq(x.b, ZERO), eq(N(q), ZERO), N(not x.events)))]
        return [("one result of every group is removed", [], and_(eq(add(x.a, ONE), N(q)), eq(x.b, G), N(not x.events)))]

    def log_inv(q, x):
        if isinstance(x, list):
            return [("starts empty", [], and_(N(not x), eq(N(q), ZERO)))]
        if not isinstance(x, Log):
            raise Unsupported("the list of paths was replaced")
        if len(x.new) == 1 and not isinstance(x.new[0], Path):
            raise Unsupported("another path")
        return [("one path is added", [], and_(N(len(x.new) == 1), eq(add(x.k, ONE), N(q)))),
                ("the path has one result of every group", [], and_(eq(x.new[0].p, x.k), eq(x.new[0].m, G), N(not x.new[0].new)) if len(x.new) == 1 and x.new[0].p is not None else FALSE)]

    def keys(it, fr, m): return {"bound_pred_dict": take(it, fr, case.now, m), "path_df": Path(case.now, m)}

    def keys_state(it, fr, m):
        b = fr.env["bound_pred_dict"]
        if m is ZERO and isinstance(b, Store):
            case.now = b.a
        return keys(it, fr, m)

    def taken_inv(m, x):
        if not isinstance(x, Store) or x.phase != "taking":
            raise Unsupported("the dictionary was replaced")
        if not x.events:
            return [("nothing removed yet", [], and_(eq(x.a, case.now), eq(x.b, N(m))))]
        return [("one result of the group is removed", [], and_(N(len(x.events) == 1), eq(x.a, case.now), eq(add(x.b, ONE), N(m)), eq(x.events[0][1], p.B(ORDER(x.b)))))]

    def path_inv(m, x):
        if not isinstance(x, Path):
            raise Unsupported("the path was replaced")
        if not x.new:
            return [("starts empty", [], and_(eq(x.m, N(m)), eq(N(m), ZERO)) if x.p is None else and_(eq(x.m, N(m)), eq(x.p, case.now)))]
        v = x.new[0]
        if not isinstance(v, Result):
            raise Unsupported("another part of a path")
        return [("the removed result is added", [], and_(eq(add(x.m, ONE), N(m)), eq(x.p, case.now) if x.p is not None else FALSE, eq(v.p, case.now), eq(v.key, p.B(ORDER(x.m)))))]

    s.loops[fn] = {0: LoopContract(outer, facts=lambda i: [le(ZERO, i), le(i, p.total)], inv={"bound_pred_dict": outer_inv, "signal_pipeline": lambda i, x: []}),
                   1: LoopContract(inner, facts=lambda j: [le(ZERO, j), le(j, T)], inv={"bound_pred_dict": inner_inv, "signal_pipeline": same_fit}),
                   2: LoopContract(paths, facts=lambda q: [le(ZERO, q), le(q, binomial(sub(G, ONE), sub(T, ONE)))], inv={"bound_pred_dict": paths_inv, "paths": log_inv}),
                   3: LoopContract(keys_state, facts=lambda m: [le(ZERO, m), le(m, G)], inv={"bound_pred_dict": taken_inv, "path_df": path_inv})}

    def run(it):
        cv = validator(s, it)
        X, y = Table("features"), Table("targets")
        return it.call(fn, [X, y, cv, Model(case), dict(case.params), "label"], {})

    want = binomial(sub(G, ONE), sub(T, ONE))
    for k, o in enumerate(s.paths("back-test paths", run, PRE)):
        v, at = o.value, " (path %d)" % k
        if not (isinstance(v, list) and len(v) == 1 and isinstance(v[0], Log)):
            raise Unsupported("what is handed out")
        base = list(o.pc)
        s.goal("as many paths as the number of test groups allows" + at, base, and_(eq(v[0].k, want), N(not v[0].new)))
        t, g, h = fresh("t", "I"), fresh("g", "I"), fresh("h", "I")
        B = p.B
        s.goal("no result of a group is left over" + at, base + [le(ZERO, g), lt(g, G), counted(B(g))], eq(sub(mk("app", ("results_of", B(g)), "I"), v[0].k), ZERO))
        ing = lambda g: and_(le(B(g), t), lt(t, B(add(g, ONE))))
        # every sample is in one group: induction over the groups
        cover = lambda g: imp(lt(t, B(g)), exists(g, lambda q: ing(q)))
        s.goal("a sample before no group" + at, base + within(t), cover(ZERO))
        s.goal("a sample before one more group" + at, base + within(t) + [le(ZERO, g), lt(g, G), cover(g)], cover(add(g, ONE)))
        s.goal("every sample is in a group" + at, base + within(t) + [cover(G)], exists(G, lambda q: ing(q)))
        s.goal("no sample is in two groups" + at, base + within(t) + [le(ZERO, g), lt(g, h), lt(h, G), ing(g)], not_(ing(h)))
        s.goal("a path has a result of every group, each once" + at, base + [le(ZERO, g), lt(g, G), le(ZERO, h), lt(h, G)], and_(eq(ORDER(PLACE(g)), g), le(ZERO, PLACE(g)), lt(PLACE(g), G), imp(eq(ORDER(g), ORDER(h)), eq(g, h))))
        s.frame("back-test paths", o)
