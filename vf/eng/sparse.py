"""scipy.sparse matrices: entries as a function of row and column, with the pattern of stored entries."""
import numpy as np
from scipy import sparse as sp
from .term import *
from . import term as tm
from . import dom, lib
from .dom import *
from .lib import lib as reg, LIB


class NpMat(Mat):
    """numpy.matrix"""

    def binop(self, o, f, dt=None, rev=False):
        r = Mat.binop(self, o, f, dt, rev)
        return NpMat(r.nr, r.nc, r.e, r.dt)

    def _nomul(self, o):
        if isinstance(o, (Seq, Mat)):
            raise Unsupported("product of numpy matrices")
        return Mat.__mul__(self, o)
    __mul__ = _nomul
    __rmul__ = _nomul

    @property
    def A1(self):
        if self.nc is ONE:
            return Seq(ZERO, self.nr, None, lambda k: self.e(k, ZERO), self.dt)
        if self.nr is ONE:
            return Seq(ZERO, self.nc, None, lambda k: self.e(ZERO, k), self.dt)
        raise Unsupported("A1 of a matrix")

    @property
    def A(self): return Mat(self.nr, self.nc, self.e, self.dt)


class Indptr(Seq):
    """row or column pointers: running totals of the stored entries"""

    def __init__(self, m, cnt):
        def e(k):
            x = fresh("c", "I")
            return Sc(ho("sum", k, TRUE, cnt(x), x))
        super().__init__(ZERO, add(m, ONE), None, e, "i")
        self.increments = Seq(ZERO, m, None, lambda k: Sc(cnt(k)), "i")


class Sparse(Mat):
    def __init__(self, nr, nc, e, dt="f", own=None, view=None, fmt="csr", st=None):
        super().__init__(nr, nc, e, dt, own, view)
        self.fmt, self._st = fmt, st

    def st(self, i, j):
        """the entry is stored"""
        if self._st is not None:
            return self._st(i, j)
        s = self.e(i, j)
        return or_(s.nan, ne(num(s.v), ZERO))

    def conv(self, fmt):
        e, st = self.e, self._st
        if st is None and fmt == "dense":
            st = None
        return Sparse(self.nr, self.nc, e, self.dt, None, None, fmt, st)

    def tocsc(self, copy=False): return self.conv("csc")
    def tocsr(self, copy=False): return self.conv("csr")
    def tocoo(self, copy=False): return self.conv("coo")
    def tolil(self, copy=False): return self.conv("lil")
    def copy(self): return self.conv(self.fmt)

    def astype(self, t, **k):
        d = dtype_of(t)
        e = self.e
        return Sparse(self.nr, self.nc, lambda i, j: astype_sc(e(i, j), d), d, None, None, self.fmt, self.st if self._st else None)

    def todense(self): return NpMat(self.nr, self.nc, self.e, self.dt)
    def toarray(self): return Mat(self.nr, self.nc, self.e, self.dt)

    @property
    def A(self): return self.toarray()

    def sum(self, axis=None):
        r = Mat.sum(self, axis)
        if axis == 1:
            return NpMat(self.nr, ONE, lambda i, j: r.e(i), self.dt)
        return NpMat(ONE, self.nc, lambda i, j: r.e(j), self.dt)

    def getnnz(self, axis=None):
        if axis == 0:
            return Seq(ZERO, self.nc, None, lambda k: Sc(self.count(k, 0)), "i")
        if axis == 1:
            return Seq(ZERO, self.nr, None, lambda k: Sc(self.count(k, 1)), "i")
        raise Unsupported("number of stored entries")

    def count(self, k, axis):
        x = fresh("c", "I")
        return ho("sum", self.nr, self.st(x, k), ONE, x) if axis == 0 else ho("sum", self.nc, self.st(k, x), ONE, x)

    @property
    def indptr(self):
        if self.fmt == "csc":
            return Indptr(self.nc, lambda k: self.count(k, 0))
        if self.fmt == "csr":
            return Indptr(self.nr, lambda k: self.count(k, 1))
        raise Unsupported("indptr of a %s matrix" % self.fmt)

    @property
    def nnz(self): raise Unsupported("nnz")

    @property
    def data(self): raise Unsupported("stored data")

    @property
    def T(self):
        e, st = self.e, self._st
        return Sparse(self.nc, self.nr, lambda i, j: e(j, i), self.dt, None, None, self.fmt, None if st is None else lambda i, j: st(j, i))

    transpose = lambda self: self.T

    def multiply(self, o):
        e, st = self.e, self.st
        if isinstance(o, Sparse):
            a = Mat._al(self, o)
            so = o
            return Sparse(self.nr, self.nc, lambda i, j: e(i, j) * a(i, j), joint(self.dt, o.dt), None, None, "csr", lambda i, j: and_(st(i, j), or_(ne(num(a(i, j).v), ZERO), a(i, j).nan)))
        if isinstance(o, (Mat, Seq)):
            a = Mat._al(self, o if isinstance(o, Mat) else o)
            if a is None:
                raise Unsupported("product with a vector")
            return Sparse(self.nr, self.nc, lambda i, j: ite_sc(st(i, j), e(i, j) * a(i, j), Sc(ZERO)), "f", None, None, "coo", st)
        s = sc(o)
        return Sparse(self.nr, self.nc, lambda i, j: ite_sc(st(i, j), e(i, j) * s, Sc(ZERO)), "f", None, None, "csr", st)

    def binop(self, o, f, dt=None, rev=False):
        raise Unsupported("arithmetic on a sparse matrix")

    def _ext(self, kind):
        x, y = fresh("c", "I"), fresh("r", "I")
        s = self.e(y, x)
        if s.nan is not FALSE:
            raise Unsupported("extremum with missing values")
        ctx().require_or_raise(and_(lt(ZERO, self.nr), lt(ZERO, self.nc)), ValueError, "extremum of an empty matrix")
        return Sc(ho(kind, self.nc, TRUE, ho(kind, self.nr, TRUE, num(s.v), y), x))

    def max(self, axis=None):
        if axis is not None:
            raise Unsupported("extremum along an axis")
        return self._ext("max")

    def min(self, axis=None):
        if axis is not None:
            raise Unsupported("extremum along an axis")
        return self._ext("min")

    def __getitem__(self, i):
        if self._st is not None:
            raise Unsupported("selection from a product")
        r = Mat.__getitem__(self, i)
        if isinstance(r, Mat):
            return Sparse(r.nr, r.nc, r.e, self.dt, None, None, self.fmt)
        if isinstance(r, Seq):
            r = r.need_dense()
            t = i if isinstance(i, tuple) else (i, slice(None))
            if isinstance(t[0], (slice, Seq)):
                return Sparse(sub(r.hi, r.lo), ONE, lambda a, b: r.e(add(r.lo, a)), self.dt, None, None, self.fmt)
            return Sparse(ONE, sub(r.hi, r.lo), lambda a, b: r.e(add(r.lo, b)), self.dt, None, None, self.fmt)
        return r

    def __setitem__(self, i, v):
        if self._st is not None:
            raise Unsupported("store into a product")
        Mat.__setitem__(self, i, v)


def _new(fmt):
    def h(it, args, kw):
        kw = dict(kw)
        dt = dtype_of(kw.pop("dtype", args[2] if len(args) > 2 else None)) or "f"
        x = args[0]
        if kw or len(args) > 1:
            raise Unsupported("options of a sparse matrix")
        if isinstance(x, tuple) and len(x) == 2:
            a, b = sc(x[0]).v, sc(x[1]).v
            return Sparse(a, b, lambda i, j: Sc(ZERO), dt, fmt=fmt)
        if isinstance(x, Sparse):
            return x.conv(fmt)
        if isinstance(x, Mat):
            return Sparse(x.nr, x.nc, x.e, x.dt, fmt=fmt)
        raise Unsupported("sparse matrix of %s" % type(x).__name__)
    return h


for _f in ("lil", "csc", "csr", "coo"):
    LIB[getattr(sp, _f + "_matrix")] = _new(_f)


@reg(np.column_stack)
def _column_stack(it, args, kw):
    xs = [lib.to_seq(x).need_dense() for x in it.concrete_iter(args[0])]
    n = sub(xs[0].hi, xs[0].lo)
    for x in xs[1:]:
        it.ctx.require(eq(sub(x.hi, x.lo), n), "stacked columns have the same length")
    return Mat(n, N(len(xs)), lambda i, j: pick_list([x.e(add(x.lo, i)) for x in xs], j), joint(*[x.dt for x in xs]))


_old_diff = LIB[np.diff]


@reg(np.diff)
def _diff(it, args, kw):
    if hasattr(args[0], "increments") and len(args) == 1 and not kw:
        return args[0].increments
    return _old_diff(it, args, kw)


def _ext(kind, f):
    old = LIB[f]
    def h(it, args, kw):
        if isinstance(args[0], Sparse) and len(args) == 1 and not kw:
            return args[0]._ext(kind)
        return old(it, args, kw)
    LIB[f] = h


for _k, _fs in (("max", (np.max, np.amax)), ("min", (np.min, np.amin))):
    for _g in dict.fromkeys(_fs):
        _ext(_k, _g)
