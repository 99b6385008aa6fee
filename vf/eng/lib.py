"""Contracts of library functions (numpy, pandas, Python), keyed by the real function object.

Each handler states what the library function returns on symbolic arguments.
These are assumed, not proved; the run-time contract checks exercise the real
functions on every run.
"""
import builtins, math, types, warnings, copy as copymod, operator, itertools
import numpy as np
import pandas as pd
from .term import *
from . import term as tm
from . import dom
from .dom import *

LIB = {}


def lib(*fns):
    def deco(h):
        for f in fns:
            LIB[f] = h
        return h
    return deco


def elementwise(x, f, dt="f"):
    if isinstance(x, Frame):
        return Frame(x._index, {c: ((lambda k, e=e: f(e(k))), dt or d) for c, (e, d) in x.cols.items()})
    if isinstance(x, Mat):
        return Mat(x.nr, x.nc, lambda i, j: f(x.e(i, j)), dt or x.dt)
    if isinstance(x, Seq):
        return Seq.map(x, f, dt) if not isinstance(x, Series) else x.map(f, dt)
    if isinstance(x, (list, tuple)):
        return elementwise(to_seq(x), f, dt)
    return f(sc(x))


def to_seq(x, dt=None):
    """a concrete list of scalars as a sequence"""
    if isinstance(x, Seq):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 1:
        x = [y.item() for y in x]
    if isinstance(x, (list, tuple, range)):
        if any(isinstance(v, (list, tuple, Seq, Mat)) for v in x):
            raise Unsupported("nested array")
        vs = [sc(v) for v in x]
        if not vs:
            return Seq(ZERO, ZERO, None, lambda k: NANS, dt or "f")
        return Seq(ZERO, N(len(vs)), None, lambda k: pick_list(vs, k), dt or joint(*[kind_of(v) for v in vs]))
    if type(x).__name__ == "SymRange":
        return Seq(x.lo, x.hi, None, lambda k: Sc(k), "i") if dt is None else unsup_range()
    raise Unsupported("array of %s" % type(x).__name__)


def unsup_range(): raise Unsupported("array of a range with another type")


def un(f, dt="f"):
    def h(it, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("keyword arguments of a numpy function")
        return elementwise(args[0], f, dt)
    return h


def abs_keep(s):
    return abs(s)


LIB[np.log] = un(log_sc)
LIB[np.sqrt] = un(sqrt_sc)
LIB[np.square] = un(lambda s: s * s, None)
LIB[np.abs] = un(lambda s: abs(s), None)
LIB[np.absolute] = un(lambda s: abs(s), None)
LIB[np.fabs] = un(lambda s: abs(s))
LIB[np.exp] = un(lambda s: Sc(app("exp", (num(s.v),), "R"), s.nan))
LIB[np.sign] = un(sign_sc, None)
LIB[np.isnan] = un(lambda s: Sc(s.nan), "b")
LIB[np.floor] = un(lambda s: Sc(floor_(num(s.v)), s.nan))
LIB[np.ceil] = un(lambda s: Sc(ceil_(num(s.v)), s.nan))
LIB[np.logical_not] = un(lambda s: Sc(not_(boolt(s))), "b")
LIB[np.negative] = un(lambda s: -s, None)
LIB[np.log2] = un(lambda s: log_sc(s) / log_sc(sc(2)))
LIB[math.log] = un(log_sc)
LIB[math.sqrt] = un(sqrt_sc)
LIB[math.exp] = LIB[np.exp]
LIB[math.floor] = un(lambda s: Sc(floor_(num(s.v)), s.nan), "i")
LIB[math.ceil] = un(lambda s: Sc(ceil_(num(s.v)), s.nan), "i")
LIB[math.fabs] = un(lambda s: abs(s))


def bin_(f):
    def h(it, args, kw):
        if kw or len(args) != 2:
            raise Unsupported("arguments")
        return f(sc(args[0]) if not it.is_dom(args[0]) else args[0], args[1])
    return h


LIB[np.add] = bin_(operator.add)
LIB[np.subtract] = bin_(operator.sub)
LIB[np.multiply] = bin_(operator.mul)
LIB[np.divide] = bin_(operator.truediv)
LIB[np.power] = bin_(operator.pow)
LIB[np.logical_and] = bin_(operator.and_)
LIB[np.logical_or] = bin_(operator.or_)
LIB[np.greater] = bin_(operator.gt)
LIB[np.less] = bin_(operator.lt)
LIB[np.greater_equal] = bin_(operator.ge)
LIB[np.less_equal] = bin_(operator.le)
LIB[np.equal] = bin_(operator.eq)
LIB[math.pow] = bin_(operator.pow)


def two(f):
    """elementwise function of two arguments that may be arrays"""
    def h(it, args, kw):
        a, b = args[:2]
        if isinstance(a, (Seq, Mat)):
            return a.binop(b, f)
        if isinstance(b, (Seq, Mat)):
            return b.binop(a, f, rev=True)
        return f(sc(a), sc(b))
    return h


def np_max2(a, b):
    return Sc(max2(num(a.v), num(b.v)), or_(a.nan, b.nan))


def np_min2(a, b):
    return Sc(min2(num(a.v), num(b.v)), or_(a.nan, b.nan))


LIB[np.maximum] = two(np_max2)
LIB[np.minimum] = two(np_min2)


def py_max(a, b):
    # Python: keeps the first unless the next compares greater
    return ite_sc(b > a, b, a)


def py_min(a, b):
    return ite_sc(b < a, b, a)


def _pyext(f, name):
    def h(it, args, kw):
        if kw:
            if set(kw) == {"default"} or "key" in kw:
                raise Unsupported(name + " with options")
        xs = args
        if len(args) == 1:
            x = args[0]
            if isinstance(x, Seq):
                return x.ext(name)
            xs = it.concrete_iter(x)
            if xs is None:
                raise Unsupported(name)
            if not xs:
                raise PyRaise(ValueError, "empty")
        if not it.has_dom(xs):
            return it.wrap((max if name == "max" else min)(xs))
        infs = [x for x in xs if isinstance(x, Inf)]
        if infs:
            raise Unsupported("infinity")
        r = sc(xs[0])
        for x in xs[1:]:
            r = f(r, sc(x))
        return r
    return h


LIB[builtins.max] = _pyext(py_max, "max")
LIB[builtins.min] = _pyext(py_min, "min")


@lib(builtins.abs)
def _abs(it, args, kw):
    x = args[0]
    return abs(x) if it.is_dom(x) else it.wrap(abs(x))


@lib(builtins.len)
def _len(it, args, kw):
    x = args[0]
    if isinstance(x, Frame):
        return Sc(x._index.length())
    if isinstance(x, Seq):
        return Sc(x.length())
    if isinstance(x, Mat):
        return Sc(x.nr)
    if hasattr(x, "sym_len"):
        return x.sym_len(it)
    if isinstance(x, (list, tuple, dict, str, set, frozenset, range)):
        return len(x)
    if isinstance(x, np.ndarray):
        return len(x)
    raise Unsupported("len of %s" % type(x).__name__)


@lib(builtins.range)
def _range(it, args, kw):
    from .interp import SymRange
    a = [sc(x) for x in args]
    if all(conc(x) is not None for x in a):
        return range(*[conc(x) for x in a])
    if len(a) == 1:
        return SymRange(ZERO, a[0].v)
    if len(a) == 2 or conc(a[2]) == 1:
        return SymRange(a[0].v, a[1].v)
    if len(a) == 3 and conc(a[2]) == -1:
        from .interp import SymEnum
        lo, hi = add(a[1].v, ONE), add(a[0].v, ONE)
        return SymEnum(lo, hi, None, lambda k: Sc(sub(add(lo, hi), add(k, ONE))))
    raise Unsupported("range step")


def _prange():
    try:
        import numba
        return numba.prange
    except ImportError:
        return None


if _prange() is not None:
    LIB[_prange()] = _range


@lib(builtins.enumerate)
def _enumerate(it, args, kw):
    from .interp import SymEnum
    start = sc(args[1] if len(args) > 1 else kw.get("start", 0)).v
    x = args[0]
    items = it.concrete_iter(x)
    if items is not None:
        c = conc(start)
        if c is None:
            return [(Sc(add(start, N(i))), v) for i, v in enumerate(items)]
        return [(c + i, v) for i, v in enumerate(items)]
    en = it.enum_of(x)
    if en.g(fresh("g", "I")) is not TRUE:
        # the running number is the count of the elements before
        def f(k):
            y = fresh("c", "I")
            return (Sc(add(start, ho("sum", sub(k, en.lo), en.g(add(y, en.lo)), ONE, y))), en.f(k))
        return SymEnum(en.lo, en.hi, en.g, f)
    return SymEnum(en.lo, en.hi, None, lambda k: (Sc(add(start, sub(k, en.lo))), en.f(k)))


@lib(builtins.zip)
def _zip(it, args, kw):
    from .interp import SymEnum
    cs = [it.concrete_iter(x) for x in args]
    if all(c is not None for c in cs):
        return list(zip(*cs))
    if any(c is not None for c in cs):
        # a concrete list limits the length
        raise Unsupported("zip of concrete and symbolic sequences")
    es = [it.enum_of(x) for x in args]
    if any(e.g(fresh("g", "I")) is not TRUE for e in es):
        if not all(dom.same_t(e.lo, es[0].lo) and dom.same_t(e.hi, es[0].hi) and dom.same_g(e.g, es[0].g, e.lo, e.hi) for e in es):
            raise Unsupported("zip of selections")
        return SymEnum(es[0].lo, es[0].hi, es[0].g, lambda k: tuple(e.f(k) for e in es))
    lo = es[0].lo
    hi = es[0].hi
    for e in es[1:]:
        h2 = add(lo, sub(e.hi, e.lo))
        hi = dom.min_t(hi, h2)
    r = SymEnum(lo, hi, None, lambda k: tuple(e.f(add(sub(k, lo), e.lo)) for e in es))
    r.src = args
    return r


@lib(builtins.isinstance)
def _isinstance(it, args, kw):
    x, ts = args
    ts = ts if isinstance(ts, tuple) else (ts,)
    ts = tuple(t.__origin__ if hasattr(t, "__origin__") else t for t in ts)
    k = None
    if isinstance(x, Frame):
        k = pd.DataFrame
    elif isinstance(x, Series):
        k = pd.Series
    elif isinstance(x, Index):
        k = pd.DatetimeIndex if x.space.dt == "M" else pd.Index
    elif type(x).__name__ == "SymListV":
        k = list
    elif isinstance(x, Seq) or isinstance(x, Mat):
        k = np.ndarray
    elif isinstance(x, Sc):
        so = x.v.sort
        k = {"B": bool, "I": int, "R": float}[so]
        if getattr(x, "kind", None):
            k = x.kind
    if k is not None:
        import numbers
        return any(issubclass(k, t) for t in ts if isinstance(t, type))
    if hasattr(x, "sym_isinstance"):
        return x.sym_isinstance(ts)
    return isinstance(x, tuple(t for t in ts if isinstance(t, type)))


@lib(builtins.hasattr)
def _hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyRaise:
        return False


@lib(builtins.getattr)
def _getattr(it, args, kw):
    try:
        return it.getattr(args[0], args[1])
    except PyRaise:
        if len(args) > 2:
            return args[2]
        raise


@lib(builtins.setattr)
def _setattr(it, args, kw):
    it.setattr(args[0], args[1], args[2])


@lib(builtins.callable)
def _callable(it, args, kw):
    from .interp import Closure, Bound
    return isinstance(args[0], (Closure, Bound)) or callable(args[0])


@lib(builtins.int)
def _int(it, args, kw):
    if not args:
        return 0
    x = args[0]
    if isinstance(x, Sc):
        if x.nan is not FALSE:
            it.ctx.require_or_raise(not_(x.nan), ValueError, "cannot convert float NaN to integer")
        return Sc(trunc_(num(x.v)))
    if it.is_dom(x):
        raise Unsupported("int of an array")
    return int(*args)


@lib(builtins.float, np.float64)
def _float(it, args, kw):
    x = args[0]
    if isinstance(x, Sc):
        return Sc(num(x.v), x.nan)
    if isinstance(x, Inf):
        return x
    if it.is_dom(x):
        raise Unsupported("float of an array")
    return it.wrap(float(x))


@lib(builtins.bool)
def _bool(it, args, kw):
    x = args[0] if args else False
    if isinstance(x, Sc):
        return PyBool(boolt(x))
    return it.truth(x)


class PyBool(Sc):
    """a Python bool: identical to True or False"""


@lib(builtins.str, builtins.repr, builtins.format)
def _str(it, args, kw):
    from .interp import Str
    if it.has_dom(args):
        return Str()
    return str(*args)


@lib(builtins.print)
def _print(it, args, kw):
    return None


@lib(builtins.type)
def _type(it, args, kw):
    x = args[0]
    if isinstance(x, Frame):
        return pd.DataFrame
    if isinstance(x, Index):
        return pd.DatetimeIndex
    if isinstance(x, Series):
        return pd.Series
    if it.is_dom(x):
        return np.ndarray if isinstance(x, (Seq, Mat)) else float
    return type(x)


@lib(builtins.round)
def _round(it, args, kw):
    x = args[0]
    d = args[1] if len(args) > 1 else kw.get("ndigits")
    if isinstance(x, Sc) or isinstance(d, Sc):
        x = sc(x)
        if d is None:
            return Sc(app("round", (num(x.v), ZERO), "R"), x.nan)
        return Sc(app("round", (num(x.v), sc(d).v), "R"), x.nan)
    return it.wrap(round(*args))


@lib(builtins.list)
def _list(it, args, kw):
    if not args:
        return []
    x = args[0]
    if isinstance(x, Seq):
        from .interp import SymListV
        return SymListV(x.lo, x.hi, x.g, x.e, x.dt)
    if isinstance(x, SymSet):
        return SetList(x)
    if hasattr(x, "sym_list"):
        return x.sym_list()
    items = it.concrete_iter(x)
    if items is None:
        from .interp import SymListV, SymEnum
        en = it.enum_of(x)
        v = en.f(fresh("e", "I"))
        if isinstance(v, Sc):
            return SymListV(en.lo, en.hi, en.g, en.f, kind_of(v))
        raise Unsupported("list of a symbolic sequence")
    return items


@lib(builtins.tuple)
def _tuple(it, args, kw):
    if not args:
        return ()
    x = args[0]
    items = it.concrete_iter(x)
    if items is None:
        return _list(it, args, kw)
    return tuple(items)


@lib(builtins.dict)
def _dict(it, args, kw):
    if len(args) == 1 and isinstance(args[0], dict):
        d = dict(args[0])
    elif not args:
        d = {}
    elif hasattr(args[0], "src"):
        src = args[0].src
        k = fresh("k", "I")
        if len(src) == 2 and isinstance(src[0], SortedSet) and not kw and it.ctx.known(eq(num(args[0].f(k)[1].v), k)) and it.ctx.known(eq(args[0].hi, src[0].hi)):
            return RankDict(src[0])
        raise Unsupported("dictionary of symbolic size")
    else:
        d = dict(it.concrete_iter(args[0]))
    d.update(kw)
    return d


class SymSet:
    """a finite set given by sequences and single elements"""

    def __init__(self, parts, extra=()):
        self.parts, self.extra = list(parts), list(extra)

    def sym_contains(self, it, a):
        a = sc(a)
        out = [boolt(a == sc(x)) for x in self.extra]
        for p in self.parts:
            out.append(member(p, a))
        return Sc(or_(*out))

    def sym_len(self, it):
        raise Unsupported("size of a symbolic set")

    def intersection(self, o): return SetOp("and", self, as_set(o))
    def union(self, o): return SetOp("or", self, as_set(o))
    def difference(self, o): return SetOp("diff", self, as_set(o))
    def __and__(self, o): return SetOp("and", self, as_set(o))
    def __or__(self, o): return SetOp("or", self, as_set(o))
    def __sub__(self, o): return SetOp("diff", self, as_set(o))

    def issubset(self, o):
        o = as_set(o)
        ts = []
        for x in self.extra:
            ts.append(boolt(o.sym_contains(None, x)))
        for p in self.parts:
            ts.append(all_(p, lambda q, p=p: boolt(o.sym_contains(None, p.e(q)))))
        return Sc(and_(*ts))

    def issuperset(self, o): return as_set(o).issubset(self)

    def __eq__(self, o):
        if o is self:
            return True
        o = as_set(o)
        return Sc(and_(boolt(self.issubset(o)), boolt(o.issubset(self))))

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r

    __hash__ = object.__hash__


def member(p, a):
    if hasattr(p, "space") or isinstance(p, Index):
        q = dom.lookup(p, a) if isinstance(p, Index) else None
        if q is not None:
            return and_(not_(a.nan), p.inr(q))
    x = fresh("m", "I")
    q = add(x, p.lo)
    s = p.e(q)
    # a sequence of consecutive integers
    if s.nan is FALSE and num(s.v) is q or (s.v.sort == "I" and sub(s.v, x).op == "c" or x not in fv(sub(s.v, x))):
        off = sub(s.v, x)
        if x not in fv(off):
            y = sub(a.v, off)
            return and_(not_(a.nan), le(ZERO, y), lt(y, sub(p.hi, p.lo)), p.g(add(y, p.lo)))
    return ho("ex", sub(p.hi, p.lo), and_(p.g(q), not_(s.nan), not_(a.nan), eq(num(s.v), num(a.v))), TRUE, x)


def as_set(o):
    if isinstance(o, SymSet):
        return o
    if isinstance(o, dom.Distinct):
        o = o.src
    if isinstance(o, Seq):
        return SymSet([o])
    if isinstance(o, (set, list, tuple, frozenset)):
        return SymSet([], list(o))
    raise Unsupported("set of %s" % type(o).__name__)


class SetOp(SymSet):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b

    def sym_contains(self, it, x):
        x = sc(x)
        p, q = boolt(self.a.sym_contains(it, x)), boolt(self.b.sym_contains(it, x))
        return Sc({"and": and_(p, q), "or": or_(p, q), "diff": and_(p, not_(q))}[self.op])

    def issubset(self, o): raise Unsupported("subset of a combined set")
    def __eq__(self, o):
        if o is not self:
            raise Unsupported("equality of a combined set")
        return True
    __hash__ = object.__hash__


class SetList(SymSet):
    """a list of the elements of a set"""

    def __init__(self, of):
        SymSet.__init__(self, [], [])
        self.of, self.ordered = of, False

    def sym_contains(self, it, a): return self.of.sym_contains(it, a)

    def __eq__(self, o):
        if o is not self:
            raise Unsupported("equality of a list of a set's elements")
        return True
    __hash__ = object.__hash__

    def sort(self, key=None, reverse=False):
        if key is not None or reverse:
            raise Unsupported("sort options")
        self.ordered = True

    def seq(self):
        if not self.ordered:
            raise Unsupported("order of a set's elements")
        return sorted_set(self.of)

    def sym_len(self, it): return Sc(sorted_set(self.of).hi)


def flat_parts(x):
    if isinstance(x, SetList):
        return flat_parts(x.of)
    if isinstance(x, SetOp):
        if x.op != "or":
            raise Unsupported("elements of a combined set")
        a, b = flat_parts(x.a), flat_parts(x.b)
        return a[0] + b[0], a[1] + b[1]
    return list(x.parts), list(x.extra)


class SortedSet(Seq):
    """the distinct elements of a set in increasing order"""

    def contains(self, a):
        a = sc(a)
        return or_(and_(not_(a.nan), tm._rank[self.nm + "_pos"][1](a.v)), boolt(self.of.sym_contains(None, a)))

    def pos(self, a):
        """the position of a value (meaningful for members)"""
        a = sc(a)
        return Sc(mk("app", (self.nm + "_pos", a.v), "I"), or_(a.nan, not_(self.contains(a))))

    def like(self, e, dt, g=None):
        return Seq(self.lo, self.hi, self.g if g is None else g, e, dt)


def sorted_set(x):
    """library contract of sorted(set): strictly increasing, with exactly the set's elements"""
    parts, extra = flat_parts(x)
    if extra:
        raise Unsupported("sorted set with single elements")
    probe = var("?ss", "I")
    q = var("?ssq", "I")
    terms = []
    ms = True
    dt = parts[0].dt
    for p in parts:
        e = p.e(q)
        if num(e.v).sort != "I" or p.dt != dt:
            raise Unsupported("sorted set of other values")
        terms += [p.lo, p.hi, p.g(q), e.v, e.nan]
        ms = ms and all(c % 10 ** 6 == 0 for c in to_poly(num(e.v)).values())
    member_ = boolt(x.sym_contains(None, Sc(probe)))
    nm = "ss%d" % member_.id
    c = dom.ctx()
    if nm not in SETS and c is not None:
        # a set provably equal to one already sorted is the same sequence
        for nm2, (mem2, r2) in list(SETS.items())[-6:]:
            if r2.dt == dt and c.prover.prove(list(c.hyps), iff(member_, mem2), 1, 1500)[0]:
                return r2
    unit = N(10 ** 6) if ms else ONE
    lenT = mk("app", (nm + "_len",), "I")
    val = lambda k: mul(unit, mk("app", (nm, N(k)), "I"))
    if nm not in tm._axiom:
        tm._incr.add(nm)
        inside = lambda a: boolt(x.sym_contains(None, Sc(a)))
        tm._axiom[nm] = lambda k: [imp(and_(le(ZERO, k), lt(k, lenT)), inside(val(k)))]
        probe2 = var("?ssp", "I")
        def members(a):
            out = []
            for p in parts:
                e = p.e(probe2)
                c = dom.match(num(e.v), a, probe2)
                if c is not None:
                    out.append(and_(p.inr(c), not_(p.e(c).nan)))
            return or_(*out) if out else inside(a)
        tm._axiom[nm + "_pos"] = lambda a: [imp(members(a), and_(le(ZERO, mk("app", (nm + "_pos", a), "I")), lt(mk("app", (nm + "_pos", a), "I"), lenT), eq(val(mk("app", (nm + "_pos", a), "I")), a)))]
        tm._rank[nm + "_pos"] = (val, members, lenT)
        tm._axiom[nm + "_len"] = lambda: [le(ZERO, lenT)] + [imp(and_(p.inr(p.lo), not_(p.e(p.lo).nan)), le(ONE, lenT)) for p in parts]
        def elems(ev):
            out = set()
            for p in parts:
                lo, hi = ev(p.lo), ev(p.hi)
                if hi - lo > 60:
                    raise tm.EvalError("large set")
                for i in range(int(lo), int(hi)):
                    c = N(i)
                    if ev(p.g(c)):
                        e = p.e(c)
                        if not ev(e.nan):
                            out.add(ev(num(e.v)))
            return sorted(out)
        u = 10 ** 6 if ms else 1
        def at(ev, a):
            s = elems(ev)
            k = int(a[0])
            if 0 <= k < len(s):
                return s[k] // u
            return (s[-1] // u if s else 0) + k - len(s) + 1 if k >= 0 else (s[0] // u if s else 0) + k
        def pos(ev, a):
            s = elems(ev)
            if a[0] not in s:
                raise tm.EvalError("position of a value outside the set")
            return s.index(a[0])
        tm._def[nm] = (at, terms)
        tm._def[nm + "_pos"] = (pos, terms)
        tm._def[nm + "_len"] = (lambda ev, a: len(elems(ev)), terms)
    r = SortedSet(ZERO, lenT, lambda k: TRUE, lambda k: Sc(val(k)), dt)
    r.of, r.nm = x, nm
    r.space = dom.Space(nm, val, dt, True)
    r.space.sset = r
    SETS.setdefault(nm, (member_, r))
    return r


SETS = {}


class RankDict:
    """a dictionary from the elements of a sorted set to their positions"""

    def __init__(self, s): self.s = s
    def get_(self, a): return self.s.pos(a)


@lib(builtins.set, builtins.frozenset)
def _set(it, args, kw):
    if not args:
        return set()
    x = args[0]
    if isinstance(x, Columns):
        return set(x)
    if isinstance(x, dom.Distinct):
        x = x.src
    if isinstance(x, Seq):
        return SymSet([x])
    if isinstance(x, SymSet):
        return x
    items = it.concrete_iter(x)
    if items is None:
        raise Unsupported("set of a symbolic sequence")
    if it.has_dom(items):
        return SymSet([], items)
    return set(items)


@lib(builtins.sum)
def _sum_(it, args, kw):
    x = args[0]
    if isinstance(x, Seq):
        r = x.sum()
        return r if len(args) < 2 else r + args[1]
    items = it.concrete_iter(x)
    if items is None:
        en = it.enum_of(x)
        return Seq(en.lo, en.hi, en.g, en.f, "f").sum()
    r = args[1] if len(args) > 1 else 0
    for v in items:
        r = r + v if it.is_dom(r) or it.is_dom(v) else it.wrap(r + v)
    return r


def _quant(isall):
    def h(it, args, kw):
        x = args[0]
        if isinstance(x, Seq):
            return x.all() if isall else x.any()
        items = it.concrete_iter(x)
        if items is None:
            raise Unsupported("any/all")
        if isinstance(x, Frame):
            raise Unsupported("any/all of a frame")
        ts = [boolt(v) if isinstance(v, Sc) else N(bool(it.truth(v))) for v in items]
        return Sc(and_(*ts) if isall else or_(*ts))
    return h


LIB[builtins.all] = _quant(True)
LIB[builtins.any] = _quant(False)


@lib(builtins.sorted)
def _sorted(it, args, kw):
    x = args[0]
    if kw:
        raise Unsupported("sorted with options")
    if isinstance(x, Index) and x.space.increasing or isinstance(x, SortedSet):
        return x
    if isinstance(x, SymSet):
        return sorted_set(x)
    if isinstance(x, Seq):
        raise Unsupported("sort of a symbolic sequence")
    items = it.concrete_iter(x)
    if items is None or it.has_dom(items):
        raise Unsupported("sort of a symbolic sequence")
    return sorted(items)


@lib(builtins.map)
def _map(it, args, kw):
    items = it.concrete_iter(args[1])
    if items is None or len(args) > 2:
        raise Unsupported("map")
    return [it.call(args[0], [x], {}) for x in items]


@lib(builtins.filter)
def _filter(it, args, kw):
    items = it.concrete_iter(args[1])
    if items is None:
        raise Unsupported("filter")
    return [x for x in items if it.truth(it.call(args[0], [x], {}) if args[0] is not None else x)]


@lib(builtins.reversed)
def _reversed(it, args, kw):
    x = args[0]
    if isinstance(x, Seq):
        return x[::-1]
    items = it.concrete_iter(x)
    if items is None:
        raise Unsupported("reversed")
    return items[::-1]


import logging
@lib(warnings.warn, logging.warning, logging.info, logging.debug, logging.error)
def _warn(it, args, kw):
    return None


@lib(copymod.copy, copymod.deepcopy)
def _copy(it, args, kw):
    x = args[0]
    if isinstance(x, (Frame, Seq, Mat)):
        return x.copy()
    if isinstance(x, dict):
        return {k: (_copy(it, [v], {}) if it.is_dom(v) else v) for k, v in x.items()}
    if isinstance(x, list):
        return list(x)
    if isinstance(x, Sc) or isinstance(x, (int, float, str, type(None), bool, tuple)):
        return x
    raise Unsupported("copy of %s" % type(x).__name__)


# ------------------------------------------------------------ numpy arrays
def shape_of(it, s):
    if isinstance(s, (tuple, list)):
        return [sc(x).v for x in s]
    return [sc(s).v]


def filled(it, shape, val, dt, undefined=False):
    sh = shape_of(it, shape)
    for n in sh:
        it.ctx.require_or_raise(le(ZERO, n), ValueError, "negative dimensions")
    if len(sh) == 1:
        return Seq(ZERO, sh[0], None, val1(val), dt)
    if len(sh) == 2:
        f = val1(val)
        return Mat(sh[0], sh[1], lambda i, j: f(i), dt)
    raise Unsupported("array of %d dimensions" % len(sh))


def val1(v):
    return v if callable(v) else (lambda k: v)


def undef_val(dt):
    """contents of uninitialised memory: an arbitrary function of the position"""
    nm = "undef%d" % fresh("u", "I").id
    return lambda *k: Sc(mk("app", (nm,) + tuple(N(x) for x in k), "R" if dt == "f" else "I" if dt == "i" else "B"))


def _dt(args, kw, pos):
    d = args[pos] if len(args) > pos else kw.get("dtype")
    return dtype_of(d) or "f"


def conv(v, dt):
    return astype_sc(sc(v), dt)


@lib(np.zeros)
def _zeros(it, args, kw):
    dt = _dt(args, kw, 1)
    return filled(it, args[0] if args else kw["shape"], conv(0, dt), dt)


@lib(np.ones)
def _ones(it, args, kw):
    dt = _dt(args, kw, 1)
    return filled(it, args[0] if args else kw["shape"], conv(1, dt), dt)


@lib(np.full)
def _full(it, args, kw):
    v = args[1] if len(args) > 1 else kw["fill_value"]
    d = args[2] if len(args) > 2 else kw.get("dtype")
    s = sc(v)
    dt = dtype_of(d) or kind_of(s)
    return filled(it, args[0] if args else kw["shape"], astype_sc(s, dt) if d is not None else s, dt)


@lib(np.empty)
def _empty(it, args, kw):
    dt = _dt(args, kw, 1)
    sh = shape_of(it, args[0] if args else kw["shape"])
    f = undef_val(dt)
    if len(sh) == 1:
        return Seq(ZERO, sh[0], None, f, dt)
    return Mat(sh[0], sh[1], f, dt)


def _like(val):
    def h(it, args, kw):
        x = args[0]
        d = kw.get("dtype", args[1] if len(args) > 1 and val != "full" else None)
        dt = dtype_of(d) or (x.dt if it.is_dom(x) else "f")
        v = args[1] if val == "full" and len(args) > 1 else kw.get("fill_value") if val == "full" else val
        f = undef_val(dt) if val == "empty" else val1(conv(v, dt))
        if isinstance(x, Mat):
            return Mat(x.nr, x.nc, (lambda i, j: f(i, j)) if val == "empty" else (lambda i, j: f(i)), dt)
        x = to_seq(x).need_dense()
        return Seq(x.lo, x.hi, None, f, dt)
    return h


LIB[np.zeros_like] = _like(0)
LIB[np.ones_like] = _like(1)
LIB[np.empty_like] = _like("empty")
LIB[np.full_like] = _like("full")


@lib(np.asarray, np.ascontiguousarray)
def _asarray(it, args, kw):
    return _array(it, args, dict(kw, __alias__=True))


@lib(np.array)
def _array(it, args, kw):
    x = args[0]
    d = dtype_of(kw.get("dtype", args[1] if len(args) > 1 else None))
    if isinstance(x, Frame):
        x = x.values
    if kw.get("__alias__") and isinstance(x, (Seq, Mat)) and d in (None, x.dt) and not isinstance(x, (Series, Index)) and type(x) in (Seq, Mat):
        return x
    if isinstance(x, Mat):
        return x.astype(Dt(d)) if d else Mat(x.nr, x.nc, x.e, x.dt)
    if isinstance(x, SetList):
        x = x.seq()
    if isinstance(x, SortedSet):
        return x
    if isinstance(x, SymSet):
        raise Unsupported("array of a set")
    if isinstance(x, Seq):
        r = Seq(x.lo, x.hi, x.g, x.e, x.dt)
        return r.astype(Dt(d)) if d else r
    if isinstance(x, np.ndarray) and not it.has_dom(list(x.ravel()) if x.dtype == object else []):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(r, (list, tuple)) for r in x):
            rows = [[sc(v) for v in r] for r in x]
            return Mat(N(len(rows)), N(len(rows[0])), lambda i, j: pick_list([pick_list(r, j) for r in rows], i), d or joint(*[kind_of(v) for r in rows for v in r]))
        r = to_seq(x)
        return r.astype(Dt(d)) if d else r
    if not it.has_dom(x):
        return np.array(x)
    raise Unsupported("array of %s" % type(x).__name__)


@lib(np.dot, np.matmul)
def _dot(it, args, kw):
    a, b = args
    if not (isinstance(a, Mat) and isinstance(b, Mat)) or kw:
        raise Unsupported("product of these operands")
    dom.ctx().require_or_raise(eq(a.nc, b.nr), ValueError, "inner dimensions agree")
    m = a.nc

    def e(i, j):
        if conc(m) is not None and conc(m) <= 12:
            r = Sc(ZERO)
            for q in range(conc(m)):
                r = r + a.e(i, N(q)) * b.e(N(q), j)
            return r
        x = fresh("r", "I")
        s = a.e(i, x) * b.e(x, j)
        return Sc(ho("sum", m, TRUE, num(s.v), x), FALSE if s.nan is FALSE else ho("ex", m, s.nan, TRUE, x))
    return Mat(a.nr, b.nc, e, "f")


@lib(np.linalg.inv)
def _inv(it, args, kw):
    a = args[0]
    p = conc(a.nr)
    if p is None or conc(a.nc) != p:
        raise Unsupported("inverse of a matrix of unknown size")
    if p == 1:
        return Mat(ONE, ONE, lambda i, j: Sc(ONE) / a.e(ZERO, ZERO), "f")
    es = [a.e(N(i), N(j)) for i in range(p) for j in range(p)]
    nan = or_(*[x.nan for x in es])
    vs = tuple(num(x.v) for x in es)
    return Mat(a.nr, a.nc, lambda i, j: Sc(mk("app", ("inv%d" % p, N(i), N(j)) + vs, "R"), nan), "f")


@lib(np.arange)
def _arange(it, args, kw):
    a = [sc(x) for x in args]
    if kw.get("step") is not None:
        a.append(sc(kw["step"]))
    if len(a) == 1:
        lo, hi = ZERO, a[0].v
    elif len(a) == 2 or conc(a[2]) == 1:
        lo, hi = a[0].v, a[1].v
    else:
        # the values of a longer range whose distance from the start is a multiple of the step
        lo, hi, st = a[0].v, a[1].v, a[2].v
        if any(x.sort != "I" for x in (lo, hi, st)) or any(x.nan is not FALSE for x in a):
            raise Unsupported("arange of floats")
        if not it.ctx.known(lt(ZERO, st)):
            raise Unsupported("arange step")
        if not it.ctx.known(le(lo, hi)):
            hi = max2(lo, hi)
        return Seq(lo, hi, lambda k: eq((Sc(sub(k, lo)) % Sc(st)).v, ZERO), lambda k: Sc(k), "i")
    if hi.sort != "I" or lo.sort != "I":
        raise Unsupported("arange of floats")
    n = sub(hi, lo)
    if not it.ctx.known(le(ZERO, n)):
        n = max2(n, ZERO)
    d = dtype_of(kw.get("dtype"))
    return Seq(ZERO, n, None, lambda k: Sc(add(lo, k)), d or "i")


@lib(np.diff)
def _diff(it, args, kw):
    x = args[0]
    if len(args) > 1 or kw:
        raise Unsupported("diff options")
    x = to_seq(x).need_dense()
    e = x.e
    hi = sub(x.hi, ONE)
    if not it.ctx.known(le(x.lo, hi)):
        hi = max2(x.lo, hi)
    return Seq(x.lo, hi, None, lambda k: e(add(k, ONE)) - e(k), "m" if x.dt == "M" else x.dt)


def _red(name, skip=False):
    def h(it, args, kw):
        x = args[0]
        kw = dict(kw)
        axis = kw.pop("axis", args[1] if len(args) > 1 else None)
        if kw:
            raise Unsupported("options of " + name)
        if isinstance(x, Sc):
            return x
        if isinstance(x, Mat):
            if x.nc is ONE and axis is None:
                x = x.flatten()
            elif x.nr is ONE and axis is None:
                y = x
                x = Seq(ZERO, y.nc, None, lambda k: y.e(ZERO, k), y.dt)
            elif axis is None and name in ("any", "all"):
                m = x
                rows = Seq(ZERO, m.nr, None, lambda i: getattr(Seq(ZERO, m.nc, None, lambda j: m.e(i, j), m.dt), name)(), "b")
                return getattr(rows, name)()
            elif axis is None and name == "sum":
                m = x
                return Seq(ZERO, m.nr, None, lambda i: Seq(ZERO, m.nc, None, lambda j: m.e(i, j), m.dt).sum(), m.dt).sum()
            elif axis in (0, 1):
                m = x
                if axis == 0:
                    return Seq(ZERO, m.nc, None, lambda k: red1(Seq(ZERO, m.nr, None, lambda i: m.e(i, k), m.dt), name, skip), m.dt)
                return Seq(ZERO, m.nr, None, lambda k: red1(Seq(ZERO, m.nc, None, lambda j: m.e(k, j), m.dt), name, skip), m.dt)
            else:
                raise Unsupported(name + " of a matrix")
        if isinstance(x, Frame):
            return getattr(x, name)(axis=axis)
        from .select import SelMat
        if isinstance(x, SelMat) and axis == 0 and conc(x.nc) is not None and all(x.cg(N(j)) is TRUE for j in range(conc(x.nc))) and not skip:
            cols = [red1(Seq(ZERO, x.nr, x.rg, lambda i, j=j: x.e(i, N(j)), x.dt), name, skip) for j in range(conc(x.nc))]
            return Seq(ZERO, x.nc, None, lambda j: dom.pick_list(cols, j), x.dt)
        if not it.is_dom(x):
            x = to_seq(x)
        if isinstance(x, Series) and name in ("sum", "mean", "max", "min") and not skip:
            return getattr(x, name)()
        return red1(Seq(x.lo, x.hi, x.g, x.e, x.dt), name, skip)
    return h


def red1(x, name, skip):
    if name in ("any", "all"):
        return getattr(x, name)()
    if name in ("var", "std"):
        m = x.mean()
        v = x.map(lambda s: (s - m) * (s - m)).mean()
        return v if name == "var" else sqrt_sc(v)
    return getattr(x, name)(skipna=skip)


for nm in ("sum", "mean", "max", "min", "any", "all", "var", "std"):
    LIB[getattr(np, nm)] = _red(nm)
LIB[np.nansum] = _red("sum", True)
LIB[np.nanmax] = _red("max", True)
LIB[np.nanmin] = _red("min", True)
LIB[np.nanmean] = _red("mean", True)
LIB[np.amax] = _red("max")
LIB[np.amin] = _red("min")


@lib(np.cumsum)
def _cumsum(it, args, kw):
    return args[0].cumsum()


@lib(np.argmax)
def _argmax(it, args, kw):
    from .select import SelMat
    x = args[0]
    axis = conc(args[1] if len(args) > 1 else kw.get("axis"))
    if isinstance(x, Frame):
        x = x.values
    if isinstance(x, (Mat, SelMat)):
        nc = conc(x.nc)
        if axis != 1 or nc is None or (isinstance(x, SelMat) and not all(x.cg(N(j)) is TRUE for j in range(nc))):
            raise Unsupported("argmax of a matrix")
        if nc == 0:
            raise PyRaise(ValueError, "argmax of an empty sequence")
        def f(k):
            # the first largest entry; the first missing one if there is any
            vs = [x.e(k, N(j)) for j in range(nc)]
            r, top = ZERO, vs[0]
            for j in range(1, nc):
                better = and_(not_(top.nan), or_(vs[j].nan, gt(num(vs[j].v), num(top.v))))
                r, top = ite(better, N(j), r), dom.ite_sc(better, vs[j], top)
            return Sc(r)
        return Seq(ZERO, x.nr, x.rg if isinstance(x, SelMat) else None, f, "i")
    return to_seq(x).argmax()


@lib(np.where)
def _where(it, args, kw):
    c = args[0]
    if len(args) == 1:
        if isinstance(c, Seq):
            return Seq(c.lo, c.hi, c.g, c.e, c.dt).nonzero()
        raise Unsupported("where")
    a, b = args[1], args[2]
    if isinstance(c, (bool, Sc)) and not isinstance(a, (Seq, Mat)) and not isinstance(b, (Seq, Mat)):
        return ite_sc(sc(c), sc(a), sc(b))
    if isinstance(c, Mat):
        raise Unsupported("where of a matrix")
    base = Seq(c.lo, c.hi, c.g, c.e, c.dt)
    fa = base._align(Seq(a.lo, a.hi, a.g, a.e, a.dt) if isinstance(a, Seq) else a)
    fb = base._align(Seq(b.lo, b.hi, b.g, b.e, b.dt) if isinstance(b, Seq) else b)
    ka = a.dt if isinstance(a, Seq) else kind_of(sc(a))
    kb = b.dt if isinstance(b, Seq) else kind_of(sc(b))
    return Seq(c.lo, c.hi, c.g, lambda k: ite_sc(c.e(k), fa(k), fb(k)), joint(ka, kb))


@lib(np.concatenate, np.hstack)
def _concatenate(it, args, kw):
    xs = args[0]
    if kw and conc(kw.get("axis")) == 1 and len(kw) == 1:
        ms_ = it.concrete_iter(xs)
        if all(isinstance(x, Mat) and conc(x.nc) is not None for x in ms_):
            for x in ms_[1:]:
                it.ctx.require_or_raise(eq(x.nr, ms_[0].nr), ValueError, "as many rows in every block")
            cols = [(x, q) for x in ms_ for q in range(conc(x.nc))]
            return Mat(ms_[0].nr, N(len(cols)), lambda i, j: dom.pick_list([x.e(i, N(q)) for x, q in cols], j), joint(*[x.dt for x in ms_]))
    if kw and kw != {"axis": 0}:
        raise Unsupported("concatenate options")
    xs = [to_seq(x).need_dense() for x in it.concrete_iter(xs)]
    out = xs[0]
    for y in xs[1:]:
        a = out
        na = sub(a.hi, a.lo)
        out = Seq(ZERO, add(na, sub(y.hi, y.lo)), None,
                  (lambda k, a=a, y=y, na=na: ite_sc(lt(k, na), a.e(add(a.lo, k)), y.e(add(y.lo, sub(k, na))))), joint(a.dt, y.dt))
    return out


@lib(np.append)
def _append(it, args, kw):
    b = args[1]
    return _concatenate(it, [[args[0], [b] if not isinstance(b, (Seq, list)) else b]], {})


@lib(np.clip)
def _clip(it, args, kw):
    x = args[0]
    lo = args[1] if len(args) > 1 else kw.get("a_min")
    hi = args[2] if len(args) > 2 else kw.get("a_max")
    def f(s):
        if lo is not None:
            s = np_max2(s, sc(lo))
        if hi is not None:
            s = np_min2(s, sc(hi))
        return s
    if any(isinstance(y, Seq) for y in (lo, hi)):
        raise Unsupported("clip with arrays")
    return elementwise(x, f, None)


@lib(np.round, np.around)
def _npround(it, args, kw):
    d = sc(args[1] if len(args) > 1 else kw.get("decimals", 0)).v
    return elementwise(args[0], lambda s: Sc(app("round", (num(s.v), d), "R"), s.nan), None)


@lib(np.nan_to_num)
def _nan_to_num(it, args, kw):
    # infinities are not modelled: divisions by zero are read as missing
    return elementwise(args[0], lambda s: ite_sc(s.nan, Sc(ZERO), s), None)


@lib(np.searchsorted)
def _searchsorted(it, args, kw):
    a, v = args[0], args[1]
    side = kw.get("side", args[2] if len(args) > 2 else "left")
    if isinstance(a, Index):
        return a.searchsorted(v, side)
    sp = getattr(a, "space", None)
    if sp is None or not sp.increasing:
        raise Unsupported("searchsorted on an array not known to be sorted")
    return dom.searchsorted(a.need_dense(), v, side)


@lib(np.nonzero)
def _nonzero(it, args, kw):
    x = args[0]
    return Seq(x.lo, x.hi, x.g, x.e, x.dt).nonzero()


@lib(np.flatnonzero)
def _flatnonzero(it, args, kw):
    return _nonzero(it, args, kw)[0]


@lib(np.count_nonzero)
def _count_nonzero(it, args, kw):
    x = args[0]
    return Seq(x.lo, x.hi, x.g, lambda k: Sc(ite(boolt(x.e(k)), ONE, ZERO)), "i").sum()


@lib(np.isin)
def _isin(it, args, kw):
    if kw:
        raise Unsupported("isin options")
    s = as_set(args[1])
    x = to_seq(args[0])
    return Seq(x.lo, x.hi, x.g, lambda k: s.sym_contains(it, x.e(k)), "b")


@lib(np.ndim)
def _ndim(it, args, kw):
    return args[0].ndim if it.is_dom(args[0]) else np.ndim(args[0])


@lib(np.reshape)
def _reshape(it, args, kw):
    return args[0].reshape(*([args[1]] if not isinstance(args[1], tuple) else args[1]))


@lib(np.isfinite)
def _isfinite(it, args, kw):
    return elementwise(args[0], lambda s: Sc(not_(s.nan)), "b")


@lib(np.errstate, np.seterr)
def _errstate(it, args, kw):
    return None


# ------------------------------------------------------------ pandas
def space_range(n):
    return dom.Space("range", lambda q: q, "i", True)


@lib(pd.Series)
def _series(it, args, kw):
    kw = dict(kw)
    data = args[0] if args else kw.pop("data", None)
    kw.pop("data", None)
    index = args[1] if len(args) > 1 else kw.pop("index", None)
    d = dtype_of(kw.pop("dtype", args[2] if len(args) > 2 else None))
    name = kw.pop("name", None)
    kw.pop("copy", None)
    if kw:
        raise Unsupported("Series options")
    if isinstance(data, Mat):
        if data.nc is ONE:
            data = data.flatten()
        else:
            raise Unsupported("Series of a matrix")
    if isinstance(data, dict):
        raise Unsupported("Series of a dictionary")
    if index is None:
        if isinstance(data, Series):
            r = Series(data._index, data.e, data.dt, name=name or data.name)
        else:
            x = to_seq(data if data is not None else []).need_dense()
            lo = x.lo
            sp = dom.Space("range", lambda q: sub(q, lo), "i", True)
            r = Series(Index(sp, x.lo, x.hi), x.e, x.dt, name=name)
    else:
        if not isinstance(index, Index):
            if isinstance(index, Seq):
                index = seq_index(index)
            else:
                raise Unsupported("Series index")
        if data is None:
            r = Series(index, lambda k: NANS, "f", name=name)
        elif isinstance(data, Series):
            r = data.reindex(index)
            r.name = name or data.name
        elif isinstance(data, Seq) or isinstance(data, (list, tuple, np.ndarray)):
            x = to_seq(data)
            e = Seq._align(index, x)
            r = Series(index, e, x.dt, name=name)
        else:
            s = sc(data)
            r = Series(index, lambda k: s, kind_of(s), name=name)
    if d:
        r2 = r.astype(Dt(d)); r2.name = r.name
        return r2
    return r


def conc_label(c):
    c = dom.conc(c) if isinstance(c, Sc) else c
    if c is None:
        raise Unsupported("symbolic column name")
    return c


def seq_index(x, name="labels", increasing=False):
    """an index whose labels are the values of a sequence (assumed distinct only where required)"""
    if isinstance(x, Index):
        return x
    if hasattr(x, "space") and x.space is not None:
        return Index(x.space, x.lo, x.hi, x.g)
    sp = dom.Space(name, lambda q: x.e(q).v, x.dt, increasing)
    sp.anon = True
    return Index(sp, x.lo, x.hi, x.g)


@lib(pd.DataFrame)
def _frame(it, args, kw):
    kw = dict(kw)
    data = args[0] if args else kw.pop("data", None)
    kw.pop("data", None)
    index = args[1] if len(args) > 1 else kw.pop("index", None)
    columns = args[2] if len(args) > 2 else kw.pop("columns", None)
    d = dtype_of(kw.pop("dtype", None))
    kw.pop("copy", None)
    if kw:
        raise Unsupported("DataFrame options")
    if isinstance(data, Frame):
        f = data.copy()
        if columns is not None:
            f = f[list(columns)]
        if index is not None and not (isinstance(index, Index) and index.same_as(f._index)):
            raise Unsupported("reindex of a frame")
        return f
    if isinstance(data, Series):
        if index is not None and not data._index.same_as(index):
            raise Unsupported("reindex")
        nm = list(columns)[0] if columns is not None else (data.name if data.name is not None else 0)
        return Frame(data._index, {nm: (data.e, data.dt)})
    from .select import SelMat
    if isinstance(data, SelMat) and isinstance(index, Index) and conc(data.nc) is not None and all(data.cg(N(j)) is TRUE for j in range(conc(data.nc))):
        # selected rows, in the coordinates of the index they were selected by
        names = list(columns) if columns is not None else list(range(conc(data.nc)))
        if len(names) != conc(data.nc):
            raise PyRaise(ValueError, "columns")
        if not dom.same_g(data.rg, index.inr, ZERO, dom.max_t(data.nr, index.hi)):
            raise Unsupported("frame of another selection's rows")
        return Frame(index, {conc_label(c): ((lambda k, j=j: data.e(k, N(j))), data.dt) for j, c in enumerate(names)})
    if isinstance(data, Mat):
        nc = conc(data.nc)
        if nc is None:
            raise Unsupported("frame of a symbolic number of columns")
        names = list(columns) if columns is not None else list(range(nc))
        if len(names) != nc:
            raise PyRaise(ValueError, "columns")
        if index is None:
            sp = dom.Space("range", lambda q: q, "i", True)
            ix = Index(sp, ZERO, data.nr)
            lo = ZERO
        else:
            ix = index.need_dense() if isinstance(index, Index) else seq_index(index).need_dense()
            lo = ix.lo
            it.ctx.require_or_raise(eq(sub(ix.hi, ix.lo), data.nr), ValueError, "shape of passed values")
        return Frame(ix, {c: ((lambda k, j=j: data.e(sub(k, lo), N(j))), data.dt) for j, c in enumerate(names)})
    if isinstance(data, Seq) and not isinstance(data, Series):
        nm = list(columns)[0] if columns is not None else 0
        s = _series(it, [data], {"index": index})
        return Frame(s._index, {nm: (s.e, s.dt)})
    if data is None or isinstance(data, dict):
        data = data or {}
        if columns is not None:
            for c in columns:
                if c not in data:
                    data = {**data, c: NANS}
            data = {c: data[c] for c in columns}
        ix = index
        if ix is None:
            for v in data.values():
                if isinstance(v, Series):
                    # the union of the indices
                    ix = v._index if ix is None else concat_cols([Frame(ix, {}), Frame(v._index, {})], "outer")._index
            if ix is not None:
                pass
            else:
                for v in data.values():
                    if isinstance(v, (Seq, list, tuple)):
                        x = to_seq(v).need_dense()
                        lo = x.lo
                        ix = Index(dom.Space("range", lambda q: sub(q, lo), "i", True), x.lo, x.hi)
                        break
        if ix is None:
            ix = Index(dom.Space("nothing", lambda q: q, "i", True), ZERO, ZERO)
        if not isinstance(ix, Index):
            ix = seq_index(ix)
        f = Frame(ix, {})
        for c, v in data.items():
            f[c] = v
        return f
    raise Unsupported("DataFrame of %s" % type(data).__name__)


@lib(pd.concat)
def _concat(it, args, kw):
    kw = dict(kw)
    objs = it.concrete_iter(args[0] if args else kw.pop("objs"))
    axis = kw.pop("axis", args[1] if len(args) > 1 else 0)
    how = kw.pop("join", "outer")
    kw.pop("sort", None); kw.pop("copy", None)
    if kw:
        raise Unsupported("concat options")
    if conc(axis) not in (1,) and axis != "columns":
        raise Unsupported("concat of rows")
    fr = []
    unnamed = 0
    for o in objs:
        if isinstance(o, Series):
            if o.name is None:
                fr.append(Frame(o._index, {unnamed: (o.e, o.dt)}))
                unnamed += 1
            else:
                fr.append(Frame(o._index, {o.name: (o.e, o.dt)}))
        elif isinstance(o, Frame):
            fr.append(o)
        else:
            raise Unsupported("concat of %s" % type(o).__name__)
    return concat_cols(fr, how)


@lib(pd.DatetimeIndex)
def _dtindex(it, args, kw):
    x = args[0]
    if kw:
        raise Unsupported("DatetimeIndex options")
    if isinstance(x, Index):
        return x
    if isinstance(x, Seq):
        return seq_index(x)
    raise Unsupported("DatetimeIndex")


@lib(pd.Index)
def _index(it, args, kw):
    return seq_index(to_seq(args[0]))


@lib(pd.testing.assert_series_equal)
def _series_equal(it, args, kw):
    a, b = args
    if kw or not (isinstance(a, Series) and isinstance(b, Series)) or a._index.space is not b._index.space or a.dt != b.dt:
        raise Unsupported("assert_series_equal")
    if not a._index.space.increasing:
        raise Unsupported("comparison of unsorted series")
    lo, hi = min_t(a.lo, b.lo), max_t(a.hi, b.hi)
    x = fresh("q", "I")
    k = add(lo, x)
    u, v = a.e(k), b.e(k)
    bad = or_(not_(iff(a.inr(k), b.inr(k))), and_(a.inr(k), or_(not_(iff(u.nan, v.nan)), and_(not_(u.nan), not_(eq(num(u.v), num(v.v)))))))
    z = fresh("z", "I")
    g = subst(bad, {x: sub(z, lo)})
    if not dom.ctx().prover.prove(dom.ctx().hyps + [le(lo, z), lt(z, hi)], not_(g), 1, 1500)[0]:
        dom.ctx().require_or_raise(not_(ho("ex", sub(hi, lo), bad, TRUE, x)), AssertionError, "equal series")


@lib(pd.merge)
def _merge(it, args, kw):
    a = dict(zip(["left", "right", "how"], args)); a.update(kw)
    if set(a) != {"left", "right", "how", "left_index", "right_index"} or a["left_index"] is not True or a["right_index"] is not True:
        raise Unsupported("merge options")
    return a["left"].join(a["right"], how=a["how"])


@lib(pd.Int64Dtype)
def _int64(it, args, kw):
    return Dt("I")


@lib(pd.to_datetime)
def _to_datetime(it, args, kw):
    x = args[0]
    if isinstance(x, str) and not it.has_dom(kw) and not (set(kw) - {"utc"}):
        return sc(pd.to_datetime(x, **kw))
    u = kw.get("unit", "ns")
    if set(kw) - {"unit"}:
        raise Unsupported("to_datetime options")
    f = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9}.get(u)
    if f is None:
        raise Unsupported("unit")
    MIN = N(-9223372036854775808)
    def g(s):
        if s.v.sort == "I" or True:
            return Sc(mul(N(f), num(s.v)), s.nan)
    if isinstance(x, Sc):
        return g(x)
    if isinstance(x, Index):
        return seq_index(Seq(x.lo, x.hi, x.g, lambda k: g(x.e(k)), "M"))
    if isinstance(x, Series):
        return x.map(g, "M")
    x = to_seq(x)
    return seq_index(Seq(x.lo, x.hi, x.g, lambda k: g(x.e(k)), "M"))


@lib(pd.isna, pd.isnull)
def _isna(it, args, kw):
    x = args[0]
    if isinstance(x, (Seq, Frame)):
        return x.isna()
    if x is None:
        return True
    if isinstance(x, Sc):
        return Sc(x.nan)
    return bool(pd.isna(x))


@lib(pd.notna, pd.notnull)
def _notna(it, args, kw):
    r = _isna(it, args, kw)
    return ~r if it.is_dom(r) else not r


@lib(pd.Timedelta)
def _timedelta(it, args, kw):
    if it.has_dom(args) or it.has_dom(kw):
        if len(args) == 1 and not kw and isinstance(args[0], Sc):
            return args[0]
        raise Unsupported("symbolic Timedelta")
    return sc(pd.Timedelta(*args, **kw))


@lib(pd.Timestamp)
def _timestamp(it, args, kw):
    if it.has_dom(args) or it.has_dom(kw):
        raise Unsupported("symbolic Timestamp")
    return sc(pd.Timestamp(*args, **kw))


import datetime as _dtm


@lib(_dtm.timedelta)
def _td(it, args, kw):
    if it.has_dom(args) or it.has_dom(kw):
        raise Unsupported("symbolic timedelta")
    return sc(_dtm.timedelta(*args, **kw))


# ------------------------------------------------------------ scipy
try:
    from scipy.stats import norm as _norm

    def _ncdf(it, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("cdf options")
        return elementwise(args[0], lambda s: Sc(app("ncdf", (num(s.v),), "R"), s.nan))
    LIB[_norm.cdf] = _ncdf
except ImportError:
    _norm = None
