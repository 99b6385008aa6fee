"""Common parts of the contracts: symbolic frames and specification sums."""
import itertools, random
from fractions import Fraction
from ..eng import term as tm
from ..eng.term import *
from ..eng.dom import *
from ..eng import dom
from ..eng.session import Session
from ..verify import contract

n = var("n", "I")
K = var("k", "I")


def ms(q):
    return mk("app", ("ms", N(q)), "I")


tm._incr.add("ms")
tm._pos.add("ms")
MSNS = N(10 ** 6)


def time_space(name="time"):
    """distinct increasing times with millisecond resolution after 1970"""
    return Space(name, lambda q: mul(MSNS, ms(q)), "M", True)


def incr_fn(rng):
    step = [rng.randint(1, 3) for _ in range(60)]
    base = rng.randint(1, 5)
    def f(k):
        k = int(k)
        return base + 100 + sum(step[:k]) if k >= 0 else base + 100 + k
    return f


def column(name, positive=True, nonneg=False):
    f = "c_" + name
    if positive:
        tm._pos.add(f)
    elif nonneg:
        tm._nonneg.add(f)
    return lambda k: Sc(mk("app", (f, N(k)), "R"))


def setup(s):
    s.funcs["ms"] = incr_fn


def frame(s, cols, own="the frame", space=None, length=n):
    """cols: {column name: (positive?)}; the caller's frame of symbolic length"""
    setup(s)
    sp = space or time_space()
    ix = Index(sp, ZERO, length, own=own + " index")
    return Frame(ix, {c: (column(c, **(o or {})), "f") for c, o in cols.items()}, own)


def ssum(m, f, g=None):
    """sum over j in 0..m-1 of f(j), guarded"""
    x = fresh("q", "I")
    return ho("sum", N(m), TRUE if g is None else g(x), f(x), x)


def smax(m, f, g=None, kind="max"):
    x = fresh("q", "I")
    return ho(kind, N(m), TRUE if g is None else g(x), f(x), x)


def exists(m, g):
    x = fresh("q", "I")
    return ho("ex", N(m), g(x), TRUE, x)


def forall(m, g):
    return not_(exists(m, lambda x: not_(g(x))))


def sums(s, label, hyps, a, b, witness=None):
    """the rule comparing two finite sums over one range term by term: its premises become obligations, its conclusion
    (a <= b, or a < b when the terms differ at the witness) is returned"""
    x = fresh("x", "I")
    len_ = [t.args[1] for t in (a, b) if t.op == "ho"][0]
    assert all(t is ZERO or (t.op == "ho" and t.args[0] == "sum" and t.args[1] is len_) for t in (a, b))

    def term(t, q):
        if t is ZERO:
            return ZERO
        g, bd = open_(t, q)
        return ite(g, bd, ZERO)
    s.goal(label + ": term by term", list(hyps) + [le(ZERO, x), lt(x, len_)], le(term(a, x), term(b, x)))
    if witness is None:
        return le(a, b)
    s.goal(label + ": witness", list(hyps), and_(le(ZERO, witness), lt(witness, len_), lt(term(a, witness), term(b, witness))))
    return lt(a, b)


def unroll(t):
    """the definition of a non-empty finite sum by its last term"""
    m1 = sub(t.args[1], ONE)
    g, bd = open_(t, m1)
    x = fresh("q", "I")
    g0, b0 = open_(t, x)
    return imp(ge(m1, ZERO), eq(t, add(ho("sum", m1, g0, b0, x), ite(g, bd, ZERO))))


RNG = [le(ZERO, K), lt(K, n)]


def obj(s, it, cls, *args, **kw):
    """an instance built by the real constructor"""
    return it.call(cls, list(args), kw)


def is_one_more(i):
    """i is written as something plus one"""
    return i.op == "poly" and dict(i.args).get((), 0) >= 1


# ------------------------------------------------------------ technical indicators
from mizarlabs.transformers.technical.factory import TAFactory
MULTI = {"MACD": 3}


class Indicator:
    """a transformer created by TAFactory: opaque outputs, one row per bar (contract proved under T01)"""

    def __init__(self, func, col, kw):
        self.func, self.col, self.kw = func, col, kw

    def transform(self, X):
        cols = [self.col] if isinstance(self.col, str) else list(self.col or [])
        for c in cols:
            if c not in X.cols:
                raise PyRaise(ValueError, "missing column")
        ix = X._index.need_dense()
        nm = "ta_%s_%s" % (self.func, "_".join(cols))
        nc = MULTI.get(self.func, 1)
        opt = [sc(v).v for k, v in sorted((self.kw or {}).items())]
        def e(i, j):
            vs = [Sc(mk("app", ("%s_%d" % (nm, q), add(ix.lo, i)) + tuple(opt), "R"), mk("app", ("%s_%d_missing" % (nm, q), add(ix.lo, i)) + tuple(opt), "B")) for q in range(nc)]
            return dom.pick_list(vs, j)
        return Mat(sub(ix.hi, ix.lo), N(nc), e, "f")


def create_transformer(it, args, kw):
    names_ = ["self", "func_name", "col_to_transform", "col_to_transform_mapping", "kw_args"]
    a = dict(zip(names_, args))
    a.update(kw)
    if a.get("col_to_transform_mapping"):
        raise Unsupported("renamed indicator arguments")
    return Indicator(a["func_name"], a.get("col_to_transform"), a.get("kw_args"))


def with_indicators(s):
    s.over[TAFactory.create_transformer] = create_transformer
    s.assume("technical indicators (TA-Lib) are opaque functions of the bars up to the output's bar, one row per bar; the routing of columns and options to them is the property T01")
