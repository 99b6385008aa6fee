"""Index sets of symbolic size and matrices restricted to them; loops verified by a contract's invariant."""
import numpy as np
from .term import *
from . import term as tm
from . import dom, lib
from .dom import *
from .lib import lib as reg, LIB
from .sparse import Sparse, NpMat
from .interp import EndPath


class Positions(Seq):
    """distinct positions in 0..n-1 in increasing order: those satisfying a condition"""

    def __init__(self, n, g):
        super().__init__(ZERO, n, g, lambda k: Sc(k), "i")


class Bag(Seq):
    """positions in 0..n-1 in an unspecified order, possibly repeated: known as a set"""

    def __init__(self, n, g):
        super().__init__(ZERO, n, g, lambda k: Sc(k), "i")

    @property
    def shape(self): return (self.sym_len(None),)

    @property
    def size(self): return self.sym_len(None)

    def sym_len(self, it):
        x = fresh("b", "I")
        some = ho("ex", self.hi, self.g(x), TRUE, x)
        nm = "bag%d_len" % some.id
        tm._pos.add(nm)
        return Sc(ite(some, mk("app", (nm,), "I"), ZERO))

    def length(self): return self.sym_len(None).v

    def need_dense(self): raise Unsupported("order of unsorted positions")
    at = item = map = like = binop = lambda self, *a, **k: self.need_dense()


class SelMat:
    """a matrix restricted to selected rows and columns, in the coordinates of the whole matrix"""
    ndim = 2

    def __init__(self, nr, nc, e, rg, cg, dt, sparse=False, st=None, fmt="csr"):
        self.nr, self.nc, self.e, self.rg, self.cg, self.dt, self.sparse, self._st, self.fmt = nr, nc, e, rg, cg, dt, sparse, st, fmt

    def st(self, i, j):
        if self._st is not None:
            return self._st(i, j)
        s = self.e(i, j)
        return or_(s.nan, ne(num(s.v), ZERO))

    def new(self, e, dt=None, sparse=None, st=None, fmt=None):
        return SelMat(self.nr, self.nc, e, self.rg, self.cg, dt or self.dt, self.sparse if sparse is None else sparse, st, fmt or self.fmt)

    def _al(self, o):
        if isinstance(o, SelMat):
            col = o.nc is ONE and self.nc is not ONE
            if o.nr is not self.nr or not same_guard(self.nr, self.rg, o.rg):
                raise Unsupported("matrices over different rows")
            if not col and (o.nc is not self.nc or not same_guard(self.nc, self.cg, o.cg)):
                raise Unsupported("matrices over different columns")
            return lambda i, j: o.e(i, ZERO if col else j)
        if isinstance(o, (Seq, Mat)):
            raise Unsupported("arithmetic with a restricted matrix")
        s = sc(o)
        return lambda i, j: s

    def binop(self, o, f, dt=None, rev=False):
        if self.sparse or getattr(o, "sparse", False):
            raise Unsupported("arithmetic on a sparse matrix")
        oe, e = self._al(o), self.e
        return self.new((lambda i, j: f(oe(i, j), e(i, j))) if rev else (lambda i, j: f(e(i, j), oe(i, j))), dt or "f")

    def __add__(s, o): return s.binop(o, lambda a, b: a + b)
    def __radd__(s, o): return s.binop(o, lambda a, b: a + b, rev=True)
    def __sub__(s, o): return s.binop(o, lambda a, b: a - b)
    def __rsub__(s, o): return s.binop(o, lambda a, b: a - b, rev=True)
    def __truediv__(s, o): return s.binop(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s.binop(o, lambda a, b: a / b, rev=True)

    def astype(self, t, **k):
        d = dtype_of(t)
        e = self.e
        return self.new(lambda i, j: astype_sc(e(i, j), d), d, st=self._st)

    def conv(self, fmt): return self.new(self.e, st=self._st, fmt=fmt)
    def tocsc(self): return self.conv("csc")
    def tocsr(self): return self.conv("csr")
    def tocoo(self): return self.conv("coo")
    def todense(self): return self.new(self.e, sparse=False)
    def copy(self): return self.new(self.e, st=self._st)

    def multiply(self, o):
        if not self.sparse or not isinstance(o, SelMat):
            raise Unsupported("product of restricted matrices")
        a, e, st = self._al(o), self.e, self.st
        if o.sparse:
            return self.new(lambda i, j: e(i, j) * a(i, j), "f", True, lambda i, j: and_(st(i, j), o.st(i, j)), "csr")
        return self.new(lambda i, j: ite_sc(st(i, j), e(i, j) * a(i, j), Sc(ZERO)), "f", True, st, "coo")

    def sum(self, axis=None):
        if axis == 0:
            e, rg = self.e, self.rg
            def f(i, k):
                x = fresh("r", "I")
                s = e(x, k)
                return Sc(ho("sum", self.nr, rg(x), num(s.v), x), ho("ex", self.nr, and_(rg(x), s.nan), TRUE, x))
            return SelMat(ONE, self.nc, f, lambda i: TRUE, self.cg, self.dt)
        if axis == 1:
            e, cg = self.e, self.cg
            def f(k, j):
                x = fresh("r", "I")
                s = e(k, x)
                return Sc(ho("sum", self.nc, cg(x), num(s.v), x), ho("ex", self.nc, and_(cg(x), s.nan), TRUE, x))
            return SelMat(self.nr, ONE, f, self.rg, lambda i: TRUE, self.dt)
        raise Unsupported("sum of a matrix")

    @property
    def A1(self):
        if self.nr is ONE:
            return Seq(ZERO, self.nc, self.cg, lambda k: self.e(ZERO, k), self.dt)
        if self.nc is ONE:
            return Seq(ZERO, self.nr, self.rg, lambda k: self.e(k, ZERO), self.dt)
        raise Unsupported("A1 of a matrix")

    @property
    def indptr(self):
        if not self.sparse or self.fmt not in ("csc", "csr"):
            raise Unsupported("pointers of a %s matrix" % self.fmt)
        r = Pointers()
        def cnt(k):
            x = fresh("c", "I")
            if self.fmt == "csc":
                return Sc(ho("sum", self.nr, and_(self.rg(x), self.st(x, k)), ONE, x))
            return Sc(ho("sum", self.nc, and_(self.cg(x), self.st(k, x)), ONE, x))
        r.increments = Seq(ZERO, self.nc, self.cg, cnt, "i") if self.fmt == "csc" else Seq(ZERO, self.nr, self.rg, cnt, "i")
        return r

    def nonzero(self):
        return nonzero(self.nr, self.nc, self.e, self.rg, self.cg)

    def _free(self, r, c):
        k = fresh("f", "I")
        if r(k) is not TRUE and self.rg(k) is not TRUE or c(k) is not TRUE and self.cg(k) is not TRUE:
            raise Unsupported("selection within a selection")

    def _sel(self, i):
        t = i if isinstance(i, tuple) else (i, slice(None))
        return positions(t[0], self.nr), positions(t[1], self.nc)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None) and type(i[1]) is Seq and i[1].dt == "i" and not self.sparse:
            return self._columns(i[1].need_dense())
        r, c = self._sel(i)
        rg, cg = self.rg, self.cg
        self._free(r, c)
        return SelMat(self.nr, self.nc, self.e, lambda q: and_(rg(q), r(q)), lambda q: and_(cg(q), c(q)), self.dt, self.sparse, self._st, self.fmt)

    def _columns(self, x):
        """the columns of an index array, in its order; the rows stay as selected"""
        if self.cg(fresh("f", "I")) is not TRUE:
            raise Unsupported("selection within a selection")
        ctx().bounds_all(x, lambda s: and_(le(neg(self.nc), s.v), lt(s.v, self.nc)), "index array within bounds")
        e, n = self.e, self.nc
        def at(k):
            q = x.e(add(x.lo, k)).v
            return q if dom.nonneg(q) else ite(lt(q, ZERO), add(q, n), q)
        return SelMat(self.nr, sub(x.hi, x.lo), lambda i, j: e(i, at(j)), self.rg, lambda q: TRUE, self.dt)

    def __setitem__(self, i, v):
        if self.sparse:
            raise Unsupported("store into a sparse selection")
        r, c = self._sel(i)
        rg, cg, e = self.rg, self.cg, self.e
        self._free(r, c)
        part = SelMat(self.nr, self.nc, e, lambda q: and_(rg(q), r(q)), lambda q: and_(cg(q), c(q)), self.dt)
        ve = part._al(v)
        self.e = lambda a, b: ite_sc(and_(r(a), c(b)), ve(a, b), e(a, b))


class Pointers:
    pass


def is_mask(x):
    return type(x) is Seq and x.dt == "b"


def positions(x, n):
    """the condition of an index along one axis"""
    if isinstance(x, slice) and x == slice(None):
        return lambda q: TRUE
    if is_mask(x):
        m = x.need_dense()
        ctx().require(eq(sub(m.hi, m.lo), n), "a mask has the length of its axis")
        return lambda q: and_(le(ZERO, q), lt(q, n), boolt(m.e(add(m.lo, q))))
    if isinstance(x, Positions):
        if x.hi is not n:
            ctx().require(all_(x, lambda q: lt(q, n)), "selected positions within bounds")
        g = x.g
        return lambda q: and_(le(ZERO, q), lt(q, x.hi), g(q))
    raise Unsupported("selection by %s" % type(x).__name__)


def selects(i):
    t = i if isinstance(i, tuple) else (i,)
    return any(isinstance(x, (Positions, Bag)) for x in t) or len(t) == 2 and is_mask(t[0]) and isinstance(t[1], slice) and t[1] == slice(None)


def same_guard(n, f, g):
    x = fresh("g", "I")
    a, b = f(x), g(x)
    if a is b:
        return True
    c = ctx()
    return c.prover.prove(list(c.hyps) + [le(ZERO, x), lt(x, n)], iff(a, b), 1, 1500)[0]


def nonzero(nr, nc, e, rg=None, cg=None):
    def at(i, j):
        s = e(i, j)
        g = or_(s.nan, ne(num(s.v), ZERO))
        return and_(g, rg(i) if rg else TRUE, cg(j) if cg else TRUE)
    def rows(i):
        x = fresh("c", "I")
        return ho("ex", nc, at(i, x), TRUE, x)
    def cols(j):
        x = fresh("r", "I")
        return ho("ex", nr, at(x, j), TRUE, x)
    # numbers along a restricted axis count within the selection, not within the whole matrix
    free = lambda g: g is None or g(fresh("f", "I")) is TRUE
    r, c = Positions(nr, lambda i: at(i, ZERO)) if nc is ONE else Bag(nr, rows), Bag(nc, cols)
    return r if free(rg) else Relative(), c if free(cg) else Relative()


class Relative:
    """numbers of rows or columns within a restricted matrix: not used further"""
    own = None

    def __getattr__(self, a): raise Unsupported("positions within a restricted matrix")


def whole(m):
    all_rows = lambda q: TRUE
    return SelMat(m.nr, m.nc, m.e, all_rows, all_rows, m.dt, isinstance(m, Sparse), getattr(m, "_st", None), getattr(m, "fmt", "csr"))


Mat.nonzero = lambda self: nonzero(self.nr, self.nc, self.e)
for _c in (Mat, Sparse, NpMat):
    def _patch(cls):
        og, os_ = cls.__getitem__, cls.__setitem__
        def get(self, i):
            return whole(self)[i] if selects(i) else og(self, i)
        def put(self, i, v):
            if not selects(i):
                return os_(self, i, v)
            self._mut()
            w = whole(self)
            if w.sparse:
                raise Unsupported("store into a sparse selection")
            w[i] = v
            self.e = w.e
        cls.__getitem__, cls.__setitem__ = get, put
    if "__getitem__" in _c.__dict__:
        _patch(_c)


_seq_set = Seq.__setitem__


def _set(self, i, v):
    if isinstance(i, Bag):
        raise Unsupported("store through unsorted positions")
    if isinstance(i, Positions) and not isinstance(self, Series):
        self._mut()
        if not self.dense() or self.lo is not ZERO:
            raise Unsupported("store into a selection")
        g = positions(i, self.hi)
        old = self.e
        if isinstance(v, Seq):
            if isinstance(v, (Bag, Series)) or v.lo is not ZERO or v.hi is not i.hi or not same_guard(i.hi, lambda q: v.g(q), i.g):
                raise Unsupported("store of a sequence over other positions")
            ve = v.e
        else:
            s = sc(v)
            ve = lambda k: s
        self.e = lambda k: ite_sc(g(k), ve(k), old(k))
        return
    _seq_set(self, i, v)


Seq.__setitem__ = _set


@reg(np.unique)
def _unique(it, args, kw):
    x = args[0]
    if not kw and len(args) == 1 and isinstance(x, Seq) and not isinstance(x, (Bag, Positions)):
        return dom.Distinct(x)
    if kw or len(args) > 1 or not isinstance(x, (Bag, Positions)):
        raise Unsupported("np.unique")
    return Positions(x.hi, x.g)


_old_concat = LIB[np.concatenate]


@reg(np.concatenate)
def _concat(it, args, kw):
    xs = it.concrete_iter(args[0])
    if any(isinstance(x, (Bag, Positions)) for x in xs):
        bags = []
        for x in xs:
            if isinstance(x, (Bag, Positions)):
                bags.append(x)
                continue
            y = lib.to_seq(x)
            if not it.ctx.known(le(y.hi, y.lo)):
                raise Unsupported("concatenation of positions and other values")
        n = bags[0].hi
        if any(b.hi is not n for b in bags):
            raise Unsupported("concatenation of positions along different axes")
        return Bag(n, lambda k: or_(*[b.g(k) for b in bags]))
    return _old_concat(it, args, kw)


# ------------------------------------------------------------ sets of positions
def is_sel(x):
    """a sequence of distinct positions in increasing order, each standing at its own coordinate"""
    if not isinstance(x, Seq) or isinstance(x, (Series, Bag, Index)):
        return False
    k = fresh("s", "I")
    try:
        v = x.e(k)
    except Exception:
        return False
    return v.v is k and v.nan is FALSE


def nothing(x):
    return isinstance(x, Seq) and not isinstance(x, Bag) and x.hi.op == "c" and x.lo.op == "c" and x.hi.args[0] <= x.lo.args[0]


def hull(a, b):
    return dom.min_t(a.lo, b.lo), dom.max_t(a.hi, b.hi)


def sel_arg(x):
    x = x if isinstance(x, Seq) else lib.to_seq(x)
    if isinstance(x, Bag) or is_sel(x) or nothing(x):
        return x
    raise Unsupported("set operation on arrays that are not positions")


def simple(g, lo, hi):
    k = fresh("t", "I")
    return None if g(k) is TRUE else g


@reg(np.setdiff1d)
def _setdiff1d(it, args, kw):
    a, b = sel_arg(args[0]), sel_arg(args[1])
    if nothing(a) or nothing(b):
        return a
    return Seq(a.lo, a.hi, lambda k: and_(a.g(k), not_(b.inr(k))), lambda k: Sc(k), "i")


@reg(np.intersect1d)
def _intersect1d(it, args, kw):
    a, b = sel_arg(args[0]), sel_arg(args[1])
    if nothing(a) or nothing(b):
        return a if nothing(a) else b
    return Seq(a.lo, a.hi, lambda k: and_(a.g(k), b.inr(k)), lambda k: Sc(k), "i")


@reg(np.union1d)
def _union1d(it, args, kw):
    a, b = sel_arg(args[0]), sel_arg(args[1])
    if nothing(a) or nothing(b):
        a = b if nothing(a) else a
        return Seq(a.lo, a.hi, simple(a.g, a.lo, a.hi), lambda k: Sc(k), "i")
    lo, hi = hull(a, b)
    return Seq(lo, hi, lambda k: or_(a.inr(k), b.inr(k)), lambda k: Sc(k), "i")


@reg(np.isin, np.in1d)
def _isin(it, args, kw):
    if set(kw) - {"assume_unique", "invert"}:
        raise Unsupported("isin options")
    a = args[0] if isinstance(args[0], Seq) else lib.to_seq(args[0])
    b = lib.as_set(args[1] if isinstance(args[1], Seq) else lib.to_seq(args[1]))
    inv_ = bool(kw.get("invert", False))
    e = a.e
    f = lambda k: boolt(b.sym_contains(it, e(k)))
    return Seq(a.lo, a.hi, a.g, lambda k: Sc(not_(f(k)) if inv_ else f(k)), "b")


def join_positions(it, xs):
    """concatenation of position arrays: in increasing order when they follow each other, otherwise known as a set"""
    xs = [x for x in xs if not nothing(x)]
    out = xs[0]
    for b in xs[1:]:
        a = out
        lo, hi = hull(a, b)
        i, j = fresh("i", "I"), fresh("j", "I")
        c = it.ctx
        ordered = not isinstance(a, Bag) and not isinstance(b, Bag) and c.prover.prove(list(c.hyps) + [a.inr(i), b.inr(j)], lt(i, j), 2, 3000)[0]
        g = lambda k, a=a, b=b: or_(a.inr(k), b.inr(k))
        if ordered:
            out = Seq(lo, hi, g, lambda k: Sc(k), "i")
        else:
            if not c.known(le(ZERO, lo)):
                raise Unsupported("positions below zero")
            out = Bag(hi, g)
    return out


_older_concat = LIB[np.concatenate]


@reg(np.concatenate, np.hstack)
def _concat_positions(it, args, kw):
    xs = it.concrete_iter(args[0])
    if not kw and xs and all(isinstance(x, Seq) for x in xs) and any(is_sel(x) for x in xs) and all(is_sel(x) or isinstance(x, Bag) and not isinstance(x, Positions) or nothing(x) for x in xs) and not any(isinstance(x, Positions) for x in xs):
        return join_positions(it, xs)
    return _older_concat(it, args, kw)


@reg(np.sort)
def _sort(it, args, kw):
    x = args[0]
    if not kw and len(args) == 1 and is_sel(x):
        return x
    raise Unsupported("np.sort")


# ------------------------------------------------------------ lists of symbolic length
class SymList:
    """a Python list of symbolic length whose elements are any values; tuples of numbers may be stored"""

    def __init__(self, n, f): self.n, self.f = N(n), f

    def sym_len(self, it): return Sc(self.n)
    def sym_truth(self, it): return ctx().truth(lt(ZERO, self.n))
    def sym_iter(self, it): return [self.f(N(i)) for i in range(int(self.n.args[0]))] if is_c(self.n) and self.n.args[0] <= 8 else None

    def sym_enum(self):
        from .interp import SymEnum
        return SymEnum(ZERO, self.n, None, self.f)

    def sym_list(self): return SymList(self.n, self.f)
    copy = sym_list

    def _at(self, i):
        if not isinstance(i, (int, Sc)):
            raise Unsupported("slice of a symbolic list")
        i = sc(i).v
        if is_c(i) and i.args[0] < 0:
            i = add(self.n, i)
        ctx().bounds(and_(le(ZERO, i), lt(i, self.n)), "list position within bounds")
        return i

    def __getitem__(self, i): return self.f(self._at(i))

    def __setitem__(self, i, v):
        q, old = self._at(i), self.f
        self.f = lambda k: pick(eq(k, q), v, old, k)

    def append(self, v):
        q, old = self.n, self.f
        self.n, self.f = add(q, ONE), (lambda k: pick(eq(k, q), v, old, k))

    def __iter__(self): raise Unsupported("iteration over a symbolic list")

    def __add__(self, o):
        if isinstance(o, list):
            o = as_symlist(o)
        if not isinstance(o, SymList):
            raise Unsupported("a symbolic list plus %s" % type(o).__name__)
        n, f, g = self.n, self.f, o.f
        if n is ZERO:
            return SymList(o.n, g)
        return SymList(add(n, o.n), lambda k: either(lt(k, n), f(k), lambda: g(sub(k, n))))

    def __radd__(self, o): return as_symlist(o) + self

    def reverse(self):
        n, old = self.n, self.f
        self.f = lambda k: old(sub(n, add(k, ONE)))


def either(c, v, w):
    if c is TRUE:
        return v
    w = w()
    if c is FALSE:
        return w
    if isinstance(v, Sc) and isinstance(w, Sc):
        return dom.ite_sc(c, v, w)
    raise Unsupported("one of two values of a symbolic list")


def pick(c, v, old, k):
    if c is TRUE:
        return v
    if c is FALSE:
        return old(k)
    w = old(k)
    if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w):
        return tuple(dom.ite_sc(c, sc(a), sc(b)) for a, b in zip(v, w))
    if isinstance(v, Sc) and isinstance(w, Sc):
        return dom.ite_sc(c, v, w)
    raise Unsupported("lists of mixed elements")


def as_symlist(x):
    if isinstance(x, SymList):
        return x
    if isinstance(x, list):
        xs = list(x)
        def f(k):
            if is_c(k):
                return xs[int(k.args[0])]
            if not xs:
                return None
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = pick(eq(k, N(j)), xs[j], lambda q, r=r: r, k)
            return r
        return SymList(N(len(xs)), f)
    raise Unsupported("not a list")


def fold_bound(nm, q): return mk("app", (nm, N(q)), "I")


@reg(np.array_split)
def _array_split(it, args, kw):
    x, g = args[0], sc(args[1]).v if len(args) > 1 else sc(kw["indices_or_sections"]).v
    if not is_sel(x) or x.lo is not ZERO or not x.dense():
        raise Unsupported("split of another array")
    it.ctx.require_or_raise(lt(ZERO, g), ValueError, "number of sections is positive")
    it.ctx.obls.append(("no empty section", list(it.ctx.hyps), le(g, x.hi), None))
    nm = split_name(x.hi, g)
    return SymList(g, lambda k: Seq(fold_bound(nm, k), fold_bound(nm, add(k, ONE)), None, lambda q: Sc(q), "i"))


def split_name(n, g):
    """contract of np.array_split: g contiguous parts in order covering everything, sizes differing by at most one (the first n mod g have one more)"""
    nm = "bound_%d_%d" % (n.id, g.id)
    B = lambda q: fold_bound(nm, q)
    size = lambda q: sub(B(add(q, ONE)), B(q))
    tm._axiom[nm] = lambda q: [imp(lt(ZERO, g), and_(eq(B(ZERO), ZERO), eq(B(g), n))),
                               imp(and_(le(ZERO, q), le(q, g), lt(ZERO, g)), and_(le(ZERO, B(q)), le(B(q), n), imp(and_(le(g, n), lt(q, g)), le(add(B(q), ONE), n)))),
                               imp(and_(le(ZERO, q), lt(q, g)), and_(le(idiv(n, g), size(q)), le(size(q), add(idiv(n, g), ONE)), imp(le(g, n), le(ONE, size(q)))))]
    tm._incr.add(nm)
    tm._def[nm] = (lambda ev, a: a[0] * (ev(n) // ev(g)) + min(a[0], ev(n) % ev(g)), [n, g])
    return nm


def binomial(a, b): return mk("app", ("binomial", N(a), N(b)), "I")


import itertools, math


@reg(itertools.combinations)
def _combinations(it, args, kw):
    x, r = args[0], args[1] if len(args) > 1 else kw["r"]
    if not isinstance(x, SymList):
        if isinstance(r, Sc):
            if conc(r) is None:
                raise Unsupported("combinations of symbolic size")
            r = conc(r)
        items = it.concrete_iter(x)
        if items is None:
            raise Unsupported("combinations of a symbolic sequence")
        return list(itertools.combinations(items, r))
    r = sc(r).v
    it.ctx.require_or_raise(le(ZERO, r), ValueError, "size of the combinations")
    at = comb_at(x.n, r)
    return SymList(binomial(x.n, r), lambda c: SymList(r, lambda j: x.f(at(c, j))))


def comb_at(n, r):
    """contract of itertools.combinations: the c-th choice of r out of n positions, in lexicographic order, as its j-th smallest position"""
    nm = "choice_%d_%d" % (n.id, r.id)
    at = lambda c, j: mk("app", (nm, N(c), N(j)), "I")
    def ax(c, j):
        last = sub(binomial(n, r), ONE)
        h = and_(le(ZERO, j), lt(j, r), le(ZERO, c), le(c, last))
        return [imp(h, and_(le(ZERO, at(c, j)), lt(at(c, j), n))), imp(and_(h, eq(c, last)), eq(at(c, j), add(sub(n, r), j)))]
    tm._axiom[nm] = ax
    def val(ev, a):
        cs = list(itertools.combinations(range(int(ev(n))), int(ev(r))))
        if not 0 <= a[0] < len(cs) or not 0 <= a[1] < len(cs[0]):
            raise tm.EvalError("choice outside")
        return cs[int(a[0])][int(a[1])]
    tm._def[nm] = (val, [n, r])
    return at


def _factorial(it, args, kw):
    x = args[0]
    if not isinstance(x, Sc) or conc(x) is not None:
        v = conc(x)
        if v < 0:
            raise dom.PyRaise(ValueError, "factorial of a negative number")
        return Sc(N(math.factorial(v)))
    it.ctx.require_or_raise(le(ZERO, x.v), ValueError, "factorial of a negative number")
    return Sc(mk("app", ("factorial", x.v), "I"))


LIB[math.factorial] = _factorial
tm._pos.add("factorial")
tm._pos.add("binomial")
tm._def["factorial"] = (lambda ev, a: math.factorial(int(a[0])) if a[0] >= 0 else 1, [])
tm._def["binomial"] = (lambda ev, a: math.comb(int(a[0]), int(a[1])) if 0 <= a[1] and 0 <= a[0] else 1, [])


# ------------------------------------------------------------ loops with an invariant
class LoopContract:
    """an invariant of one loop: names -> values at the head of iteration i (built afresh on each call)

    state(it, fr, i) returns the dictionary; facts(i) returns hypotheses that hold there
    """

    def __init__(self, state, count=None, facts=None, before=None, inv=None, yields=None, after=None):
        self.state, self.count, self.facts, self.before = state, count, facts or (lambda i: []), before
        self.inv = inv or {}        # name -> (i, value) -> [(what, hypotheses, term)]: what is known of a value that is not determined by i
        self.yields = yields        # (i, what is yielded): called at the end of an iteration, and with None afterwards


def same_obls(c, what, got, want, hyps):
    """obligations that two values are the same"""
    if isinstance(want, dom.Frame):
        if not isinstance(got, dom.Frame) or list(got.cols) != list(want.cols) or not got._index.same_as(want._index):
            raise Unsupported("loop state %s" % what)
        for col in want.cols:
            same_obls(c, "%s, column %s" % (what, col), Seq(got._index.lo, got._index.hi, got._index.g, *got.cols[col]), Seq(want._index.lo, want._index.hi, want._index.g, *want.cols[col]), hyps)
        return
    if isinstance(want, Bag) or isinstance(got, Bag):
        x = fresh("x", "I")
        if isinstance(got, Seq) and not isinstance(got, Bag):
            c.obls.append((what + ": no positions", list(hyps) + [le(ZERO, x), lt(x, want.hi)], and_(le(got.hi, got.lo), not_(want.g(x))), None))
            return
        if not isinstance(want, Bag) or got.hi is not want.hi:
            raise Unsupported("loop state %s" % what)
        c.obls.append((what + ": same positions", list(hyps) + [le(ZERO, x), lt(x, want.hi)], iff(got.g(x), want.g(x)), None))
        return
    if isinstance(want, Mat):
        if not isinstance(got, Mat):
            raise Unsupported("loop state %s" % what)
        x, y = fresh("x", "I"), fresh("y", "I")
        c.obls.append((what + ": shape", list(hyps), and_(eq(got.nr, want.nr), eq(got.nc, want.nc)), None))
        a, b = got.e(x, y), want.e(x, y)
        h = list(hyps) + [le(ZERO, x), lt(x, want.nr), le(ZERO, y), lt(y, want.nc)]
        c.obls.append((what + ": missing", h, iff(a.nan, b.nan), None))
        c.obls.append((what + ": elements", h + [not_(a.nan), not_(b.nan)], eq(num(a.v), num(b.v)), None))
        return
    if is_sel(want):
        x = fresh("x", "I")
        if not is_sel(got):
            y = lib.to_seq(got) if not isinstance(got, Seq) else got
            c.obls.append((what + ": no positions", list(hyps), and_(le(y.hi, y.lo), not_(want.inr(x))), None))
            return
        c.obls.append((what + ": no other positions", list(hyps) + [got.inr(x)], want.inr(x), None))
        c.obls.append((what + ": all the positions", list(hyps) + [want.inr(x)], got.inr(x), None))
        return
    if isinstance(want, Seq):
        if not isinstance(got, Seq):
            got = lib.to_seq(got)
        got = got.need_dense()
        x = fresh("x", "I")
        c.obls.append((what + ": length", list(hyps), eq(sub(got.hi, got.lo), sub(want.hi, want.lo)), None))
        a, b = got.e(add(got.lo, x)), want.e(add(want.lo, x))
        h = list(hyps) + [le(ZERO, x), lt(x, sub(want.hi, want.lo))]
        c.obls.append((what + ": missing", h, iff(a.nan, b.nan), None))
        c.obls.append((what + ": elements", h + [not_(a.nan), not_(b.nan)], eq(num(a.v), num(b.v)), None))
        return
    a, b = sc(got), sc(want)
    c.obls.append((what + ": value", list(hyps), and_(iff(a.nan, b.nan), eq(num(a.v), num(b.v))), None))


def verify_loop(it, s, en, fr, spec):
    """entry, preservation and exit of a loop with a given invariant"""
    from .loops import assigned, objects, snapshot
    c = it.ctx
    if s.orelse or en.g is not None and en.g(fresh("g", "I")) is not TRUE:
        raise Unsupported("loop with a contract")
    import ast
    for nd in ast.walk(s):
        if isinstance(nd, (ast.Break, ast.Return)) or isinstance(nd, (ast.Yield, ast.YieldFrom)) and not spec.yields:
            raise Unsupported("early exit from a loop with a contract")
    names = assigned(s.body)
    tn = [nd.id for nd in ast.walk(s.target) if isinstance(nd, ast.Name)]
    count = sub(en.hi, en.lo)
    s0 = spec.state(it, fr, ZERO)
    missing = [v for v in s0 if v not in fr.env] + [v for v in names if v in fr.env and v not in s0 and v not in tn]
    if missing:
        raise Unsupported("the loop's variables are not those of its contract: %s" % ", ".join(missing))
    def match(when, i, st):
        for v, want in st.items():
            if v not in spec.inv:
                same_obls(c, "%s, %s" % (when, v), fr.env[v], want, c.hyps)
                continue
            x = fr.env[v]
            if isinstance(want, SymList):
                x = as_symlist(x)
            for what, hy, term in spec.inv[v](i, x):
                c.obls.append(("%s, %s: %s" % (when, v, what), list(c.hyps) + list(hy), term, None))
    match("on entry", ZERO, s0)
    flag = fresh("iteration", "B")
    own = {id(fr.env[v]) for v in s0}
    if c.truth(flag):
        i = fresh("i", "I")
        c.hyps += [le(ZERO, i), lt(i, count)]
        c.hyps += list(spec.facts(i))
        st = spec.state(it, fr, i)
        fr.env.update(st)
        others = [(o, snapshot(o)) for o in objects(fr) if id(o) not in {id(x) for x in st.values()}]
        lists = [(o, list(o)) for o, sn in others if isinstance(o, list)]
        state = {id(x) for x in st.values()}
        dicts = [(o, dict(o)) for o, sn in others if isinstance(o, dict)]
        sets = [(v, set(v)) for v in fr.env.values() if isinstance(v, set) and id(v) not in state]
        if spec.before:
            spec.before(i)
        it.assign(s.target, en.f(add(en.lo, i)), fr)
        try:
            it.block(s.body, fr)
        except Exception as e:
            from .interp import Cont
            if not isinstance(e, Cont):
                raise
        for o, sn in others:
            if snapshot(o) != sn:
                raise Unsupported("the loop changes something outside its contract")
        for o, old in lists:
            if len(o) != len(old) or any(a is not b for a, b in zip(o, old)):
                raise Unsupported("the loop changes a list outside its contract")
        if any(set(o) != set(old) or any(o[k] is not old[k] for k in o) for o, old in dicts) or any(o != old for o, old in sets):
            raise Unsupported("the loop changes a dictionary or set outside its contract")
        match("preserved", add(i, ONE), spec.state(it, fr, add(i, ONE)))
        if spec.yields:
            spec.yields(i, fr.yields)
        raise EndPath()
    for v in names + tn:
        if v not in s0:
            fr.env.pop(v, None)
    end = count if c.known(le(ZERO, count)) else ite(lt(ZERO, count), count, ZERO)
    c.hyps += list(spec.facts(end))
    fr.env.update(spec.state(it, fr, end))
    if spec.yields:
        fr.yields = spec.yields(end, None)
