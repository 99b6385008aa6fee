"""Symbolic values: scalars, sequences, series, frames.

A scalar is a term plus a not-a-number flag.  A sequence lives on base
coordinates lo..hi-1 with an optional guard telling which of them are present
(a boolean selection keeps the coordinates and strengthens the guard, a slice
changes lo and hi), so that label alignment inside one index space is identity
of coordinates.
"""
from fractions import Fraction
import math
from .term import *
from . import term as tm

# the executing context (set by interp)
CTX = [None]


def ctx():
    return CTX[0]


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc, msg=""):
        self.exc, self.msg = exc, msg


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


class Sc:
    __slots__ = ("v", "nan")

    def __init__(self, v, nan=FALSE):
        self.v = N(v)
        self.nan = N(nan)

    def __repr__(self):
        return "Sc(%s%s)" % (show(self.v), "" if self.nan is FALSE else " nan:" + show(self.nan))

    def __bool__(self):
        return ctx().truth(self)

    def __hash__(self):
        return hash((self.v, self.nan))

    def __index__(self):
        if self.nan is FALSE and self.v.op == "c" and self.v.args[0].denominator == 1:
            return int(self.v.args[0])
        raise Unsupported("symbolic integer used where a concrete one is needed")

    def _b(self, o, f, zero=False):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        o = sc(o)
        return Sc(f(self.v, o.v), or_(self.nan, o.nan))

    def __add__(s, o): return s._b(o, num2(add))
    def __radd__(s, o): return sc(o)._b(s, num2(add))
    def __sub__(s, o): return s._b(o, num2(sub))
    def __rsub__(s, o): return sc(o)._b(s, num2(sub))
    def __mul__(s, o): return s._b(o, num2(mul))
    def __rmul__(s, o): return sc(o)._b(s, num2(mul))

    def __truediv__(s, o):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        o = sc(o)
        z = eq(num(o.v), ZERO)
        return Sc(ZERO if z is TRUE else div(num(s.v), num(o.v)), or_(s.nan, o.nan, z))

    def __rtruediv__(s, o): return sc(o).__truediv__(s)

    def __floordiv__(s, o):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        o = sc(o)
        return Sc(idiv(s.v, o.v), or_(s.nan, o.nan))

    def __rfloordiv__(s, o): return sc(o).__floordiv__(s)

    def __mod__(s, o):
        o = sc(o)
        return Sc(sub(s.v, mul(o.v, idiv(s.v, o.v))), or_(s.nan, o.nan))

    def __rmod__(s, o): return sc(o).__mod__(s)

    def __pow__(s, o): return pow_(s, sc(o)) if not isinstance(o, (Seq, Mat, Series, Frame)) else NotImplemented
    def __rpow__(s, o): return pow_(sc(o), s)
    def __neg__(s): return Sc(neg(num(s.v)), s.nan)
    def __pos__(s): return s
    def __abs__(s): return Sc(abs_(num(s.v)), s.nan)
    def abs(s): return abs(s)

    def _c(self, o, f):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise Unsupported("comparison of a number with %r" % (o,))
        if isinstance(o, Inf):
            z = Sc(ZERO); r = f(ZERO, N(o.s))
            return Sc(and_(not_(self.nan), r))
        o = sc(o)
        if type(self) is Sc and type(o) is not Sc and hasattr(o, "bot"):
            return o._c(self, lambda a, b: f(b, a))
        return Sc(and_(not_(self.nan), not_(o.nan), f(num(self.v), num(o.v))))

    def __lt__(s, o): return s._c(o, lt)
    def __le__(s, o): return s._c(o, le)
    def __gt__(s, o): return s._c(o, gt)
    def __ge__(s, o): return s._c(o, ge)

    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return False
        return s._c(o, eq)

    def __ne__(s, o):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        if o is None or isinstance(o, str):
            return True
        o = sc(o)
        return Sc(or_(s.nan, o.nan, ne(num(s.v), num(o.v))))

    def __and__(s, o):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        return Sc(and_(boolt(s), boolt(sc(o))))
    def __rand__(s, o): return s & o
    def __or__(s, o):
        if isinstance(o, (Seq, Mat, Series, Frame, Col)):
            return NotImplemented
        return Sc(or_(boolt(s), boolt(sc(o))))
    def __ror__(s, o): return s | o

    def __invert__(s):
        if s.v.sort != "B":
            raise Unsupported("~ on a number")
        return Sc(not_(s.v))

    # numpy scalar methods
    def astype(self, t):
        return astype_sc(self, dtype_of(t))

    def any(self): return self
    def all(self): return self

    @property
    def days(self):
        """whole days of a time difference in nanoseconds, rounded down"""
        return Sc(num(self.v), self.nan) // Sc(N(86400 * 10 ** 9))

    def item(self): return self

    @property
    def shape(self): return ()

    ndim = 0


class Inf:
    """plus or minus infinity, as an initial maximum or minimum only"""

    def __init__(self, s): self.s = s
    def __neg__(self): return Inf(-self.s)
    def __float__(self): return self.s * math.inf


def num(t):
    """a boolean used as a number"""
    return ite(t, ONE, ZERO) if t.sort == "B" else t


def num2(f):
    return lambda a, b: f(num(a), num(b))


def boolt(s):
    if s.v.sort == "B":
        return s.v
    return or_(s.nan, ne(s.v, ZERO))


def sc(x):
    if isinstance(x, Sc):
        return x
    if isinstance(x, T):
        return Sc(x)
    if isinstance(x, float):
        if x != x:
            return Sc(ZERO, TRUE)
        if x in (math.inf, -math.inf):
            raise Unsupported("infinity")
        return Sc(N(x))
    if isinstance(x, (bool, int, Fraction)):
        return Sc(N(x))
    m = type(x).__module__
    if m.startswith("numpy"):
        import numpy as np
        if isinstance(x, np.generic):
            return sc(x.item())
    if m.startswith("pandas"):
        import pandas as pd
        if x is pd.NaT:
            return Sc(ZERO, TRUE)
        if isinstance(x, (pd.Timedelta, pd.Timestamp)):
            return Sc(N(x.value))
    if m.startswith("datetime"):
        import pandas as pd
        return Sc(N(pd.Timedelta(x).value))
    raise Unsupported("not a scalar: %s" % type(x).__name__)


NANS = Sc(ZERO, TRUE)


def idiv(a, b):
    if a.op == "ite" and b.op == "c":
        return ite(a.args[0], idiv(a.args[1], b), idiv(a.args[2], b))
    """floor division"""
    if is_c(a) and a.args[0] == 0:
        return ZERO
    if is_c(a) and is_c(b) and b.args[0] != 0:
        return N(math.floor(a.args[0] / b.args[0]))
    if is_c(b) and b.args[0] > 0 and b.args[0].denominator == 1:
        # exact part goes out
        d = b.args[0]
        p = to_poly(a)
        ex, rest = {}, {}
        for m, c in p.items():
            if c.denominator == 1 and c.numerator % d.numerator == 0 and all(x.sort == "I" and e > 0 for x, e in m):
                ex[m] = c / d
            else:
                rest[m] = c
        if not rest:
            return from_poly(ex)
        if ex:
            return add(from_poly(ex), mk("app", ("idiv", from_poly(rest), b), "I"))
    return mk("app", ("idiv", a, b), "I")


def pow_(a, b):
    nan = or_(a.nan, b.nan)
    if is_c(b.v):
        e = b.v.args[0]
        if e.denominator == 1:
            if e >= 0:
                return Sc(powi(num(a.v), int(e)), nan)
            z = eq(num(a.v), ZERO)
            return Sc(powi(num(a.v), int(e)) if z is not TRUE else ZERO, or_(nan, z))
        if e.denominator == 2:
            r = sqrt_sc(Sc(a.v, nan))
            return pow_(r, Sc(N(e * 2)))
    base = num(a.v)
    return Sc(mk("app", ("powr", base, num(b.v)), "R"), nan)


def sqrt_sc(a):
    return Sc(sqrt_(num(a.v)), or_(a.nan, lt(num(a.v), ZERO)))


def log_sc(a):
    if isinstance(a, int):
        a = sc(a)
    return Sc(log_(num(a.v)), or_(a.nan, le(num(a.v), ZERO)))


def ite_sc(c, a, b):
    if isinstance(c, Sc):
        c = boolt(c)
    a, b = sc(a), sc(b)
    va, vb = a.v, b.v
    if va.sort == "B" and vb.sort != "B":
        va = num(va)
    if vb.sort == "B" and va.sort != "B":
        vb = num(vb)
    # the value under a not-a-number flag is of no interest
    if a.nan is TRUE or a.nan is not FALSE and and_(c, not_(a.nan)) is FALSE:
        v = vb
    elif b.nan is TRUE or b.nan is not FALSE and and_(not_(c), not_(b.nan)) is FALSE:
        v = va
    else:
        v = ite(c, va, vb)
    return Sc(v, ite(c, a.nan, b.nan))


def sign_sc(a):
    x = num(a.v)
    return Sc(ite(gt(x, ZERO), ONE, ite(lt(x, ZERO), N(-1), ZERO)), a.nan)


def astype_sc(s, dt):
    if dt == "b":
        return Sc(boolt(s))
    if dt == "i":
        v = num(s.v)
        if v.sort != "I":
            if s.nan is FALSE:
                v = trunc_(v)
            else:
                raise Unsupported("cast of a possibly missing float to int")
        return Sc(v, s.nan)
    if dt == "f":
        return Sc(num(s.v), s.nan)
    if dt in ("M", "O", "m"):
        return s
    raise Unsupported("astype " + dt)


def trunc_(v):
    if v.sort == "I":
        return v
    if v.op == "c":
        return N(int(v.args[0]))
    if v.op == "ite":
        return ite(v.args[0], trunc_(v.args[1]), trunc_(v.args[2]))
    return mk("app", ("trunc", v), "I")


def floor_(v):
    if v.sort == "I":
        return v
    if v.op == "c":
        return N(math.floor(v.args[0]))
    return mk("app", ("floor", v), "I")


def ceil_(v):
    return neg(floor_(neg(v)))


def dtype_of(t):
    import numpy as np, pandas as pd
    if t is None:
        return None
    if t is int or t is np.int64 or t in ("int", "int64", "i8") or t is np.intp or t is np.int32 or t is np.uint32:
        return "i"
    if t is float or t is np.float64 or t in ("float", "float64", "f8") or t is np.float32:
        return "f"
    if t is bool or t in ("bool",) or t is np.bool_:
        return "b"
    if t is object or t == "object":
        return "O"
    if isinstance(t, pd.Int64Dtype) or t is pd.Int64Dtype:
        return "f"        # a nullable integer: value plus missing flag
    if isinstance(t, str) and t.startswith("datetime64") or t in ("M8[ns]",):
        return "M"
    if isinstance(t, str) and len(t) == 1:
        return t
    if isinstance(t, Dt):
        return t.k
    try:
        k = np.dtype(t).kind
        return {"i": "i", "u": "i", "f": "f", "b": "b", "M": "M", "O": "O", "m": "m"}[k]
    except Exception:
        raise Unsupported("dtype %r" % (t,))


class Dt:
    def __init__(self, k): self.k = k


def any_sort(s):
    return sc(s.e(fresh("z", "I"))).v.sort


def joint(*ks):
    ks = [k for k in ks if k]
    if "O" in ks:
        return "O"
    if "M" in ks:
        return "M"
    if "f" in ks:
        return "f"
    if "i" in ks or "m" in ks:
        return "i"
    return "b"


def kind_of(s):
    return {"B": "b", "I": "i", "R": "f"}[s.v.sort] if isinstance(s, Sc) else "O"


_k = var("k?", "I")
NOG = lambda k: TRUE


def view(x):
    """x shares its memory with another object: a store through it is outside the subset"""
    x.vw = True
    return x


class Seq:
    """a one-dimensional array, list or tuple of symbolic length"""
    own = None
    vw = False

    def __init__(self, lo, hi, g, e, dt="f", own=None):
        self.lo, self.hi, self.g, self.e, self.dt, self.own = N(lo), N(hi), g or NOG, e, dt, own

    # ---- structure
    def dense(self):
        k = fresh("d", "I")
        return self.g(k) is TRUE

    def need_dense(self):
        """a dense version; a selection that keeps exactly a tail or head becomes a slice"""
        if self.dense():
            return self
        r = ctx().densify(self)
        if r is None:
            raise Unsupported("positional use of a selection")
        return r

    def inr(self, k):
        return and_(le(self.lo, k), lt(k, self.hi), self.g(k))

    def length(self):
        if self.dense():
            return nonneg_len(sub(self.hi, self.lo))
        lo, g = self.lo, self.g
        x = fresh("c", "I")
        r = ho("sum", sub(self.hi, self.lo), g(add(x, lo)), ONE, x)
        if ctx() is not None:
            ctx().head_count(self, r)
        return r

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")

    def like(self, e, dt, g=None):
        return type(self)._mk(self, e, dt, g or self.g)

    @classmethod
    def _mk(cls, self, e, dt, g):
        return Seq(self.lo, self.hi, g, e, dt)

    def map(self, f, dt=None):
        e = self.e
        return self.like(lambda k: f(e(k)), dt or self.dt)

    def copy(self, deep=True):
        return self.like(self.e, self.dt)

    def _align(self, o):
        """elementwise partner of another sequence, as a function of our coordinates"""
        if isinstance(o, Seq):
            a, b = self, o
            if same_t(a.lo, b.lo) and same_t(a.hi, b.hi) and same_g(a.g, b.g, a.lo, a.hi):
                return o.e
            if a.dense() and b.dense():
                la, lb = sub(a.hi, a.lo), sub(b.hi, b.lo)
                if not same_t(la, lb):
                    ctx().require(eq(la, lb), "operands of an elementwise operation have the same length")
                d = sub(b.lo, a.lo)
                return lambda k: b.e(add(k, d))
            a2, b2 = self.need_dense(), o.need_dense()
            if a2 is not a:
                raise Unsupported("elementwise operation on different selections")
            return a2._align(b2)
        s = sc(o)
        return lambda k: s

    def binop(self, o, f, dt=None, rev=False):
        if isinstance(o, (Series, Frame, Mat)) and not isinstance(self, Series):
            return NotImplemented
        oe = self._align(o)
        e = self.e
        h = (lambda k: f(oe(k), e(k))) if rev else (lambda k: f(e(k), oe(k)))
        d = dt or joint(self.dt, o.dt if isinstance(o, Seq) else kind_of(sc(o)))
        return self.like(h, d)

    def __add__(s, o): return s.binop(o, lambda a, b: a + b)
    def __radd__(s, o): return s.binop(o, lambda a, b: a + b, rev=True)
    def __sub__(s, o): return s.binop(o, lambda a, b: a - b, "m" if s.dt == "M" and getattr(o, "dt", None) == "M" else None)
    def __rsub__(s, o): return s.binop(o, lambda a, b: a - b, rev=True)
    def __mul__(s, o):
        if s.dt == "b" and getattr(o, "dt", None) == "b":
            return s.binop(o, lambda a, b: a & b, "b")
        return s.binop(o, lambda a, b: a * b)
    def __rmul__(s, o): return s.binop(o, lambda a, b: a * b, rev=True)
    def __truediv__(s, o): return s.binop(o, lambda a, b: a / b, "f")
    def __rtruediv__(s, o): return s.binop(o, lambda a, b: a / b, "f", rev=True)
    def __floordiv__(s, o): return s.binop(o, lambda a, b: a // b)
    def __mod__(s, o): return s.binop(o, lambda a, b: a % b)
    def __pow__(s, o): return s.binop(o, lambda a, b: a ** b)
    def __rpow__(s, o): return s.binop(o, lambda a, b: a ** b, rev=True)
    def __neg__(s): return s.map(lambda a: -a)
    def __abs__(s): return s.map(lambda a: abs(a))
    def abs(s): return abs(s)
    def __lt__(s, o): return s.binop(o, lambda a, b: a < b, "b")
    def __le__(s, o): return s.binop(o, lambda a, b: a <= b, "b")
    def __gt__(s, o): return s.binop(o, lambda a, b: a > b, "b")
    def __ge__(s, o): return s.binop(o, lambda a, b: a >= b, "b")
    def __eq__(s, o): return s.binop(o, lambda a, b: a == b, "b")
    def __ne__(s, o): return s.binop(o, lambda a, b: a != b, "b")
    __hash__ = object.__hash__
    def __and__(s, o): return s.binop(o, lambda a, b: a & b, "b")
    def __rand__(s, o): return s.binop(o, lambda a, b: a & b, "b")
    def __or__(s, o): return s.binop(o, lambda a, b: a | b, "b")
    def __ror__(s, o): return s.binop(o, lambda a, b: a | b, "b")
    def __invert__(s):
        if s.dt != "b":
            raise Unsupported("~ on numbers")
        return s.map(lambda a: ~a, "b")

    def _inplace(self, r):
        if r is NotImplemented:
            return r
        self._mut()
        self.dt, self.e = r.dt, r.e
        return self

    def __iadd__(s, o): return s._inplace(s + o)
    def __isub__(s, o): return s._inplace(s - o)
    def __imul__(s, o): return s._inplace(s * o)
    def __itruediv__(s, o): return s._inplace(s / o)
    def __ipow__(s, o): return s._inplace(s ** o)

    def _mut(self):
        if self.own is not None:
            ctx().frame(self.own)
        elif self.vw:
            raise Unsupported("store through a view")

    def add(s, o): return s + o
    def sub(s, o): return s - o
    def subtract(s, o): return s - o
    def mul(s, o): return s * o
    def multiply(s, o): return s * o
    def div(s, o): return s / o
    def divide(s, o): return s / o
    def truediv(s, o): return s / o
    def pow(s, o): return s ** o
    def lt(s, o): return s < o
    def le(s, o): return s <= o
    def gt(s, o): return s > o
    def ge(s, o): return s >= o
    def eq(s, o): return s == o
    def ne(s, o): return s != o

    # ---- reductions
    def _red(self, kind, skipna):
        lo, g, e = self.lo, self.g, self.e
        x = fresh("r", "I")
        s = e(add(x, lo))
        n = sub(self.hi, self.lo)
        gg = g(add(x, lo))
        return x, n, gg, s

    def sum(self, axis=None, skipna=False):
        x, n, g, s = self._red("sum", skipna)
        if skipna:
            return Sc(ho("sum", n, and_(g, not_(s.nan)), num(s.v), x))
        return Sc(ho("sum", n, g, num(s.v), x), ho("ex", n, g, s.nan, x))

    def count_t(self, skipna=False):
        x, n, g, s = self._red("sum", skipna)
        if skipna:
            g = and_(g, not_(s.nan))
        if g is TRUE:
            return self.length()
        return ho("sum", n, g, ONE, x)

    def mean(self, axis=None, skipna=False):
        s, c = self.sum(skipna=skipna), self.count_t(skipna)
        return s / Sc(c)

    def ext(self, kind, skipna=False, empty="raise"):
        x, n, g, s = self._red(kind, skipna)
        v = num(s.v)
        if skipna:
            g = and_(g, not_(s.nan)); nan = FALSE
        else:
            nan = ho("ex", n, g, s.nan, x)
        some = ho("ex", n, g, TRUE, x)
        r = Sc(ho(kind, n, g, v, x), nan)
        if empty == "raise":
            ctx().require_or_raise(some, ValueError, "reduction of an empty array")
            return r
        if ctx() is not None and some in ctx().hyps:
            return r
        return Sc(r.v, or_(nan, not_(some)))

    def max(self, axis=None, skipna=False): return self.ext("max", skipna)
    def min(self, axis=None, skipna=False): return self.ext("min", skipna)

    def any(self, axis=None):
        x, n, g, s = self._red("ex", False)
        return Sc(ho("ex", n, g, boolt(s), x))

    def all(self, axis=None):
        x, n, g, s = self._red("ex", False)
        return Sc(not_(ho("ex", n, g, not_(boolt(s)), x)))

    # ---- shape
    @property
    def shape(self):
        return (Sc(self.length()),)

    @property
    def size(self): return Sc(self.length())
    ndim = 1

    @property
    def dtype(self): return Dt(self.dt)

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if len(a) == 2 and conc(a[0]) == -1 and conc(a[1]) == 1:
            d = self.need_dense()
            lo = d.lo
            return view(Mat(sub(d.hi, d.lo), N(1), lambda i, j: d.e(add(i, lo)), d.dt, self.own, view=d))
        if len(a) == 1 and conc(a[0]) == -1:
            return self
        raise Unsupported("reshape %r" % (a,))

    def flatten(self): return self.copy()
    def ravel(self): return self
    def tolist(self): return self.copy()

    @property
    def values(self): return self
    def to_numpy(self): return self

    def astype(self, t, copy=True):
        d = dtype_of(t)
        if d == "I":
            # nullable integers: missing values stay, numbers must be whole
            if self.dt == "b" or any_sort(self) != "I":
                raise Unsupported("nullable integers of values not known to be whole")
            return self.map(lambda s: s, "i")
        if d == "i" and self.dt in ("M",):
            MIN = N(-9223372036854775808)
            return self.map(lambda s: Sc(ite(s.nan, MIN, s.v)), "i")
        if d == "i" and self.dt == "m":
            return self.map(lambda s: s, "i")
        if d == "i":
            ctx().require_all(self, lambda s: not_(s.nan), ValueError, "cast of missing values to int")
            return self.map(lambda s: astype_sc(Sc(s.v), "i"), "i")
        return self.map(lambda s: astype_sc(s, d), d)

    def cumsum(self, axis=None):
        d = self.need_dense()
        lo, e = d.lo, d.e
        def f(k):
            x = fresh("r", "I")
            s = e(add(x, lo))
            n = add(sub(k, lo), ONE)
            return Sc(ho("sum", n, TRUE, num(s.v), x), ho("ex", n, TRUE, s.nan, x))
        return d.like(f, d.dt)

    # ---- access
    def at(self, i):
        """element at position i (no bounds obligation)"""
        d = self.need_dense()
        return d.e(add(d.lo, N(i)))

    def item(self, i):
        d = self.need_dense()
        n = sub(d.hi, d.lo)
        i = sc(i).v if not isinstance(i, T) else i
        if i.op == "c" and i.args[0] < 0 or ctx().known(lt(i, ZERO)):
            i = add(i, n)
        ctx().bounds(and_(le(ZERO, i), lt(i, n)), "index within bounds")
        return d.e(add(d.lo, i))

    def slc(self, sl):
        if sl.step is not None and conc(sl.step) != 1:
            if conc(sl.step) == -1 and sl.start is None and sl.stop is None:
                d = self.need_dense()
                return Seq(d.lo, d.hi, None, lambda k: d.e(sub(add(d.lo, d.hi), add(k, ONE))), d.dt)
            raise Unsupported("slice step")
        d = self.need_dense()
        n = sub(d.hi, d.lo)
        lo = d.lo if sl.start is None else add(d.lo, clampi(sl.start, n))
        hi = d.hi if sl.stop is None else add(d.lo, clampi(sl.stop, n))
        if not ctx().known(le(lo, hi)):
            hi = max2(lo, hi)
        return lo, hi, d

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, d = self.slc(i)
            return view(Seq(lo, hi, None, d.e, d.dt, self.own))
        if isinstance(i, Seq):
            if i.dt == "b":
                ie = self._align(i)
                g = self.g
                return self.like(self.e, self.dt, lambda k: and_(g(k), boolt(ie(k))))
            d = self.need_dense()
            n = sub(d.hi, d.lo)
            ie = i.e
            z = fresh("z", "I")
            nn = ctx().known_nonneg(ie(z).v) or ctx().known(imp(i.inr(z), le(ZERO, ie(z).v)))
            def idx(k):
                v = ie(k).v
                return add(d.lo, v if nn or nonneg(v) else ite(lt(v, ZERO), add(v, n), v))
            ctx().bounds_all(i, lambda s: and_(le(neg(n), s.v), lt(s.v, n)), "index array within bounds")
            r = Seq(i.lo, i.hi, i.g, lambda k: d.e(idx(k)), d.dt)
            r.pos = idx
            r.of = d
            return r
        if isinstance(i, tuple):
            if len(i) == 2 and i[1] is None:
                return self.reshape(-1, 1)
            raise Unsupported("tuple index")
        return self.item(i)

    def __setitem__(self, i, v):
        self._mut()
        if isinstance(i, slice):
            lo, hi, d = self.slc(i)
            if not self.dense():
                raise Unsupported("slice store into a selection")
            old = self.e
            if isinstance(v, Seq):
                v = v.need_dense()
                ctx().require(eq(sub(hi, lo), sub(v.hi, v.lo)), "stored slice has the same length")
                sh = sub(v.lo, lo)
                ve = lambda k: v.e(add(k, sh))
            else:
                s = sc(v); ve = lambda k: s
            self.e = lambda k: ite_sc(and_(le(lo, k), lt(k, hi)), ve(k), old(k))
            return
        if isinstance(i, Seq) and i.dt == "b":
            ie = self._align(i)
            old = self.e
            if isinstance(v, Seq):
                ve = self._align_sel(i, v)
            else:
                s = sc(v); ve = lambda k: s
            self.e = lambda k: ite_sc(boolt(ie(k)), ve(k), old(k))
            self.dt = joint(self.dt, v.dt if isinstance(v, Seq) else kind_of(sc(v)))
            return
        if isinstance(i, Seq):
            raise Unsupported("store through an index array")
        d = self.need_dense()
        n = sub(d.hi, d.lo)
        i = sc(i).v
        if i.op == "c" and i.args[0] < 0:
            i = add(i, n)
        ctx().bounds(and_(le(ZERO, i), lt(i, n)), "stored index within bounds")
        ctx().log_store(self, i, v)
        old = self.e
        s = sc(v)
        q = add(d.lo, i)
        self.e = lambda k: ite_sc(eq(k, q), s, old(k))

    def _align_sel(self, mask, v):
        # value sequence selected by the same mask
        if same_t(self.lo, v.lo) and same_t(self.hi, v.hi):
            k = fresh("s", "I")
            if ctx().known(imp(and_(self.inr(k), boolt(mask.e(k))), v.g(k))) and ctx().known(imp(v.inr(k), boolt(mask.e(k)))):
                return v.e
        raise Unsupported("masked store of another selection")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def nonzero(self):
        d = self.need_dense()
        lo = d.lo
        g = lambda k: boolt(d.e(k))
        return (Seq(d.lo, d.hi, g, lambda k: Sc(sub(k, lo)), "i"),)

    def argmax(self):
        x, n, g, s = self._red("argmax", False)
        ctx().require_or_raise(ho("ex", n, g, TRUE, x), ValueError, "argmax of an empty array")
        if s.nan is not FALSE:
            ctx().require(not_(ho("ex", n, and_(g, s.nan), TRUE, x)), "argmax of an array without missing values")
        self.need_dense()
        return Sc(ho("argmax", n, g, num(s.v), x))

    def fill(self, v):
        self._mut(); s = sc(v); self.e = lambda k: s

    def unique(self): return Distinct(self)


class Distinct:
    """the distinct elements of a sequence: usable as a set only"""
    own = None

    def __init__(self, s): self.src = s
    def __getattr__(self, a): raise Unsupported("distinct elements: " + a)
    def sym_len(self, it): raise Unsupported("number of distinct elements")
    def __getitem__(self, i): raise Unsupported("positional use of distinct elements")
    def __iter__(self): raise Unsupported("positional use of distinct elements")
    def sym_contains(self, it, a):
        from .lib import SymSet
        return SymSet([self.src]).sym_contains(it, a)


def conc(x):
    if isinstance(x, Sc):
        if x.v.op == "c" and x.nan is FALSE:
            f = x.v.args[0]
            return bool(f) if isinstance(f, bool) else int(f) if f.denominator == 1 else float(f)
        return None
    if isinstance(x, T):
        return conc(Sc(x))
    return x


def nonneg_len(n):
    if n.op == "c":
        return n if n.args[0] >= 0 else ZERO
    if ctx() is not None and not ctx().known(le(ZERO, n)):
        return max2(n, ZERO)
    return n


def same_t(a, b):
    return a is b or (ctx() is not None and ctx().known(eq(a, b)))


def same_g(g, h, lo=None, hi=None):
    if g is h:
        return True
    k = fresh("g", "I")
    a, b = g(k), h(k)
    if a is b:
        return True
    rng = and_(le(lo, k), lt(k, hi)) if lo is not None else TRUE
    return ctx().known(imp(rng, iff(a, b)))


def clampi(i, n):
    """slice bound as an offset in 0..n"""
    i = sc(i).v
    if i.op == "c":
        c = i.args[0]
        if c == 0:
            return ZERO
        i = add(n, i) if c < 0 else i
    else:
        c = ctx()
        if c.known(le(ZERO, i)):
            pass
        elif c.known(lt(i, ZERO)):
            i = add(n, i)
        else:
            i = ite(lt(i, ZERO), add(n, i), i)
    c = ctx()
    if not c.known(le(ZERO, i)):
        i = max2(i, ZERO)
    if not c.known(le(i, n)):
        i = min2(i, n)
    return i


# ------------------------------------------------------------ matrices
class Mat:
    """two-dimensional array (dense matrix) of symbolic shape"""
    ndim = 2

    def __init__(self, nr, nc, e, dt="f", own=None, view=None):
        self.nr, self.nc, self.e, self.dt, self.own, self.view = N(nr), N(nc), e, dt, own, view

    @property
    def shape(self): return (Sc(self.nr), Sc(self.nc))

    @property
    def values(self): return self

    def _al(self, o):
        if isinstance(o, Mat):
            one_r, one_c = o.nr is ONE and self.nr is not ONE, o.nc is ONE and self.nc is not ONE
            if not one_r:
                if not same_t(self.nr, o.nr):
                    ctx().require(eq(self.nr, o.nr), "matrix rows agree")
            if not one_c:
                if not same_t(self.nc, o.nc):
                    ctx().require(eq(self.nc, o.nc), "matrix columns agree")
            return lambda i, j: o.e(ZERO if one_r else i, ZERO if one_c else j)
        if isinstance(o, Seq):    # row vector broadcast
            o = o.need_dense()
            if self.nc is ONE:
                return None
            ctx().require(eq(self.nc, sub(o.hi, o.lo)), "broadcast of a row vector")
            return lambda i, j: o.e(add(o.lo, j))
        s = sc(o)
        return lambda i, j: s

    def binop(self, o, f, dt=None, rev=False):
        if isinstance(o, Mat) and (self.nr is ONE and o.nr is not ONE or self.nc is ONE and o.nc is not ONE):
            # a single row or column is repeated
            a, br, bc = self.e, self.nr is ONE, self.nc is ONE
            self = Mat(o.nr if br else self.nr, o.nc if bc else self.nc, lambda i, j: a(ZERO if br else i, ZERO if bc else j), self.dt)
        oe = self._al(o)
        if oe is None:
            # (n,1) with (m,): the outer combination
            o = o.need_dense(); e = self.e
            h = (lambda i, j: f(o.e(add(o.lo, j)), e(i, ZERO))) if rev else (lambda i, j: f(e(i, ZERO), o.e(add(o.lo, j))))
            return Mat(self.nr, sub(o.hi, o.lo), h, dt or "f")
        e = self.e
        h = (lambda i, j: f(oe(i, j), e(i, j))) if rev else (lambda i, j: f(e(i, j), oe(i, j)))
        return Mat(self.nr, self.nc, h, dt or joint(self.dt, getattr(o, "dt", None) or kind_of(sc(o))))

    def __add__(s, o): return s.binop(o, lambda a, b: a + b)
    def __radd__(s, o): return s.binop(o, lambda a, b: a + b, rev=True)
    def __sub__(s, o): return s.binop(o, lambda a, b: a - b)
    def __rsub__(s, o): return s.binop(o, lambda a, b: a - b, rev=True)
    def __mul__(s, o): return s.binop(o, lambda a, b: a * b)
    def __rmul__(s, o): return s.binop(o, lambda a, b: a * b, rev=True)
    def __truediv__(s, o): return s.binop(o, lambda a, b: a / b, "f")
    def __rtruediv__(s, o): return s.binop(o, lambda a, b: a / b, "f", rev=True)
    def __pow__(s, o): return s.binop(o, lambda a, b: a ** b)
    def __neg__(s): return Mat(s.nr, s.nc, lambda i, j: -s.e(i, j), s.dt)
    def __lt__(s, o): return s.binop(o, lambda a, b: a < b, "b")
    def __le__(s, o): return s.binop(o, lambda a, b: a <= b, "b")
    def __gt__(s, o): return s.binop(o, lambda a, b: a > b, "b")
    def __ge__(s, o): return s.binop(o, lambda a, b: a >= b, "b")
    def __eq__(s, o): return s.binop(o, lambda a, b: a == b, "b")
    __hash__ = object.__hash__

    @property
    def T(self):
        return view(Mat(self.nc, self.nr, lambda i, j: self.e(j, i), self.dt, self.own))

    vw = False

    def _mut(self):
        if self.own is not None:
            ctx().frame(self.own)
        elif self.vw:
            raise Unsupported("store through a view")

    def flatten(self):
        if self.nc is ONE:
            return Seq(ZERO, self.nr, None, lambda k: self.e(k, ZERO), self.dt)
        raise Unsupported("flatten")

    ravel = flatten
    def copy(self): return Mat(self.nr, self.nc, self.e, self.dt)

    def reshape(self, *a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if len(a) == 1 and conc(a[0]) == -1:
            return self.flatten()
        if len(a) == 2 and conc(a[0]) == -1 and conc(a[1]) == 1 and self.nc is ONE:
            return self
        raise Unsupported("reshape of a matrix")

    def astype(self, t):
        d = dtype_of(t)
        return Mat(self.nr, self.nc, lambda i, j: astype_sc(self.e(i, j), d), d)

    def rowsel(self, i):
        if isinstance(i, slice):
            s = Seq(ZERO, self.nr, None, None)
            lo, hi, _ = s.slc(i)
            return lo, sub(hi, lo)
        return None

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i, slice(None))
        r, c = i
        rs = Seq(ZERO, self.nr, None, lambda k: Sc(k), "i")
        cs = Seq(ZERO, self.nc, None, lambda k: Sc(k), "i")
        if isinstance(r, (slice, Seq)) and isinstance(c, (slice, Seq)):
            R, C = rs[r].need_dense(), cs[c].need_dense()
            return self._part(Mat(sub(R.hi, R.lo), sub(C.hi, C.lo), lambda a, b: self.e(R.e(add(R.lo, a)).v, C.e(add(C.lo, b)).v), self.dt), r, c)
        if isinstance(r, (slice, Seq)):
            R = rs[r]; cc = cs.item(c).v
            return self._part(R.map(lambda s: self.e(s.v, cc), self.dt), r)
        if isinstance(c, (slice, Seq)):
            C = cs[c]; rr = rs.item(r).v
            return self._part(C.map(lambda s: self.e(rr, s.v), self.dt), c)
        return self.e(rs.item(r).v, cs.item(c).v)

    def _part(self, x, *sel):
        """slices share the matrix's memory"""
        if all(isinstance(q, slice) for q in sel):
            x.own = self.own
            view(x)
        return x

    def __setitem__(self, i, v):
        self._mut()
        if not isinstance(i, tuple):
            i = (i, slice(None))
        r, c = i
        rs = Seq(ZERO, self.nr, None, lambda k: Sc(k), "i")
        cs = Seq(ZERO, self.nc, None, lambda k: Sc(k), "i")
        def sel(s, x):
            if isinstance(x, slice):
                lo, hi, _ = s.slc(x)
                return lambda k: and_(le(lo, k), lt(k, hi)), lo, sub(hi, lo)
            if isinstance(x, Seq):
                raise Unsupported("store through an index array")
            n = sub(s.hi, s.lo); q = sc(x).v
            if q.op == "c" and q.args[0] < 0:
                q = add(q, n)
            ctx().bounds(and_(le(ZERO, q), lt(q, n)), "stored index within bounds")
            return lambda k: eq(k, q), q, None
        ri, rl, rn = sel(rs, r); ci, cl, cn = sel(cs, c)
        old = self.e
        if isinstance(v, Seq):
            v = v.need_dense()
            if rn is None and cn is not None:
                ctx().require(eq(cn, sub(v.hi, v.lo)), "stored row has the row's length")
                ve = lambda a, b: v.e(add(v.lo, sub(b, cl)))
            elif cn is None and rn is not None:
                ctx().require(eq(rn, sub(v.hi, v.lo)), "stored column has the column's length")
                ve = lambda a, b: v.e(add(v.lo, sub(a, rl)))
            else:
                raise Unsupported("matrix store")
        elif isinstance(v, list):
            vs = [sc(x) for x in v]
            ve = lambda a, b: pick_list(vs, sub(b, cl))
        else:
            s = sc(v); ve = lambda a, b: s
        self.e = lambda a, b: ite_sc(and_(ri(a), ci(b)), ve(a, b), old(a, b))

    def sum(self, axis=None):
        x = fresh("r", "I")
        if axis == 0:
            return Seq(ZERO, self.nc, None, lambda k: _sum(self.nr, lambda y: self.e(y, k)), self.dt)
        if axis == 1:
            return Seq(ZERO, self.nr, None, lambda k: _sum(self.nc, lambda y: self.e(k, y)), self.dt)
        raise Unsupported("sum of a matrix")

    def max(self, axis=None):
        if axis == 1:
            def f(k):
                x = fresh("r", "I"); s = self.e(k, x)
                return Sc(ho("max", self.nc, TRUE, num(s.v), x), ho("ex", self.nc, TRUE, s.nan, x))
            return Seq(ZERO, self.nr, None, f, self.dt)
        raise Unsupported("max of a matrix")


def _sum(n, f):
    x = fresh("r", "I")
    s = f(x)
    return Sc(ho("sum", n, TRUE, num(s.v), x), ho("ex", n, TRUE, s.nan, x))


def pick_list(vs, i):
    if is_c(i):
        return vs[int(i.args[0])]
    r = vs[-1]
    for j in range(len(vs) - 2, -1, -1):
        r = ite_sc(eq(i, N(j)), vs[j], r)
    return r


# ------------------------------------------------------------ pandas
class Space:
    """an index space: coordinates with distinct labels lab(q)"""

    def __init__(self, name, lab, dt="M", increasing=True):
        self.name, self.lab, self.dt, self.increasing = name, lab, dt, increasing


class Index(Seq):
    def __init__(self, space, lo, hi, g=None, own=None, name=None):
        super().__init__(lo, hi, g, lambda q: Sc(space.lab(q)), space.dt, own)
        self.space, self.name = space, name

    @classmethod
    def _mk(cls, self, e, dt, g):
        if e is self.e and dt == self.dt:
            return Index(self.space, self.lo, self.hi, g, name=self.name)
        return Seq(self.lo, self.hi, g, e, dt)

    def __getitem__(self, i):
        if isinstance(i, slice):
            lo, hi, d = self.slc(i)
            return Index(self.space, lo, hi, name=self.name)
        r = super().__getitem__(i)
        return r

    def need_dense(self):
        if self.dense():
            return self
        r = ctx().densify(self)
        if r is None:
            raise Unsupported("positional use of a selection")
        return r

    def to_series(self):
        return Series(self, self.e, self.dt)

    @property
    def tz(self): return None

    @property
    def is_unique(self):
        return ctx().index_unique(self)

    def isna(self): return Seq(self.lo, self.hi, self.g, lambda k: Sc(self.e(k).nan), "b")
    isnull = isna

    @property
    def values(self):
        s = view(Seq(self.lo, self.hi, self.g, self.e, self.dt, self.own))
        s.space = self.space
        return s

    def searchsorted(self, v, side="left"):
        d = self.need_dense()
        if not self.space.increasing:
            raise Unsupported("searchsorted on unsorted labels")
        return searchsorted(d, v, side)

    def get_indexer(self, target):
        """positions of the labels, minus one for a label that is not there"""
        d = self.need_dense()
        t = target
        if not isinstance(t, Seq):
            raise Unsupported("positions of these labels")
        if lookup(d, t.e(fresh("t", "I"))) is None:
            raise Unsupported("positions of other labels")

        def pos(k):
            l = t.e(k)
            c = lookup(d, l)
            return Sc(ite(present(d, l, c), sub(c, d.lo), N(-1)))
        return Seq(t.lo, t.hi, t.g, pos, "i")

    def same_as(self, o):
        return isinstance(o, Index) and self.space is o.space and same_t(self.lo, o.lo) and same_t(self.hi, o.hi) and same_g(self.g, o.g, self.lo, self.hi)

    def intersection(self, o):
        if isinstance(o, Index) and o.space is self.space:
            lo, hi = self.lo, self.hi
            a, b = self, o
            return Index(self.space, lo, hi, lambda k: and_(a.g(k), b.inr(k)))
        raise Unsupported("intersection of indices")

    def union(self, o, sort=None):
        """labels of either; the other labels must be known members of the space within the range"""
        if not self.space.increasing:
            raise Unsupported("union of unsorted indices")
        a = self
        if isinstance(o, Index) and o.space is self.space:
            lo, hi = min_t(a.lo, o.lo), max_t(a.hi, o.hi)
            return Index(self.space, lo, hi, tidy(lambda k: or_(a.inr(k), o.inr(k)), lo, hi))
        if not isinstance(o, Seq):
            raise Unsupported("union with other labels")
        z = fresh("z", "I")
        if lookup(self, o.e(z)) is None or not ctx().known(imp(o.inr(z), and_(not_(o.e(z).nan), le(a.lo, lookup(self, o.e(z))), lt(lookup(self, o.e(z)), a.hi)))):
            raise Unsupported("union with unknown labels")

        def inn(k):
            y = fresh("u", "I")
            q = add(o.lo, y)
            return ho("ex", sub(o.hi, o.lo), and_(o.g(q), eq(lookup(a, o.e(q)), k)), TRUE, y)
        return Index(self.space, a.lo, a.hi, lambda k: or_(a.g(k), inn(k)))

    def duplicated(self, keep="first"):
        if ctx().index_unique(self):
            return Seq(self.lo, self.hi, self.g, lambda k: Sc(FALSE), "b")
        raise Unsupported("duplicated")

    def drop_duplicates(self): 
        if ctx().index_unique(self):
            return self
        raise Unsupported("drop_duplicates")

    def equals(self, o):
        return self.same_as(o)

    def map(self, f, dt=None):
        if hasattr(f, "get_"):
            return Seq(self.lo, self.hi, self.g, lambda k: f.get_(self.e(k)), "i")
        return Seq.map(self, f, dt)

    def min(self, axis=None, skipna=True):
        if self.space.increasing and self.dense():
            return Sc(self.space.lab(self.lo), not_(lt(self.lo, self.hi)))
        return self.ext("min", False, "nan")

    def max(self, axis=None, skipna=True):
        if self.space.increasing and self.dense():
            return Sc(self.space.lab(sub(self.hi, ONE)), not_(lt(self.lo, self.hi)))
        return self.ext("max", False, "nan")


def searchsorted(d, v, side="left"):
    rel = lt if side == "left" else le
    def cnt(s):
        # one more than the last position before the value (none: zero); the labels are sorted
        x = fresh("c", "I")
        return Sc(add(ho("last", sub(d.hi, d.lo), rel(d.e(add(d.lo, x)).v, s.v), TRUE, x), ONE))
    if isinstance(v, Seq):
        return Seq(v.lo, v.hi, v.g, lambda k: cnt(v.e(k)), "i")
    return cnt(sc(v))


class Col:
    pass


def sorting(ix):
    """library contract of sorting by a duplicate-free index: the permutation with increasing labels, and the sorted index space"""
    sp = ix.space
    r = getattr(sp, "sorted_", {}).get((ix.lo, ix.hi))
    if r is None:
        nm = "perm_%s_%d_%d" % (sp.name, ix.lo.id, ix.hi.id)
        lo, hi, lab = ix.lo, ix.hi, sp.lab
        perm = lambda k: mk("app", (nm, N(k)), "I")
        probe = var("?pm", "I")
        def ax(k):
            return [imp(and_(le(ZERO, k), lt(k, sub(hi, lo))), and_(le(lo, perm(k)), lt(perm(k), hi)))]
        tm._axiom[nm] = ax
        def at(ev, a):
            l, h = int(ev(lo)), int(ev(hi))
            if h - l > 60:
                raise tm.EvalError("long index")
            o = sorted(range(l, h), key=lambda i: (ev(lab(N(i))), i))
            if not 0 <= a[0] < len(o):
                raise tm.EvalError("position outside")
            return o[int(a[0])]
        tm._def[nm] = (at, [lo, hi, lab(probe)])
        r = perm, Space(sp.name + "_sorted", lambda k: lab(perm(k)), sp.dt, False)
        sp.sorted_ = dict(getattr(sp, "sorted_", {}), **{})
        sp.sorted_[(ix.lo, ix.hi)] = r
    return r


class Series(Seq):
    def __init__(self, index, e, dt="f", own=None, name=None):
        super().__init__(index.lo, index.hi, index.g, e, dt, own)
        self._index, self.name = index, name

    @property
    def index(self): return self._index

    @index.setter
    def index(self, v):
        self._mut(); self._index = v

    @classmethod
    def _mk(cls, self, e, dt, g):
        ix = self._index
        if g is not self.g:
            ix = Index(ix.space, ix.lo, ix.hi, g)
        return Series(ix, e, dt, name=self.name)

    def need_dense(self):
        if self.dense():
            return self
        r = ctx().densify(self)
        if r is None:
            raise Unsupported("positional use of a selection")
        return r

    def _align(self, o):
        if isinstance(o, Series):
            if o._index.space is not self._index.space:
                raise Unsupported("alignment of different index spaces")
            if self._index.same_as(o._index):
                return o.e
            raise Unsupported("alignment without union")
        if isinstance(o, Seq):
            # plain arrays combine by position
            return Seq._align(self, o)
        s = sc(o)
        return lambda k: s

    def binop(self, o, f, dt=None, rev=False):
        if isinstance(o, (Frame, Mat)):
            return NotImplemented
        if isinstance(o, Series) and o._index.space is self._index.space and not self._index.same_as(o._index):
            # outer alignment, missing on either side
            a, b = self, o
            if not self._index.space.increasing:
                raise Unsupported("union of unsorted indices")
            lo, hi = min_t(a.lo, b.lo), max_t(a.hi, b.hi)
            cmp = dt == "b"
            ix = Index(self._index.space, lo, hi, tidy(lambda k: or_(a.inr(k), b.inr(k)), lo, hi))
            def el(x, k):
                s = x.e(k)
                return Sc(s.v if s.v.sort != "B" else s.v, or_(not_(x.inr(k)), s.nan))
            def boolel(x, k):
                # boolean operands are filled with False after alignment
                return Sc(and_(x.inr(k), x.e(k).v))
            h = (lambda k: f(boolel(a, k), boolel(b, k))) if a.dt == "b" and b.dt == "b" else (lambda k: f(el(a, k), el(b, k)))
            if cmp and not (a.dt == "b" and b.dt == "b"):
                ctx().require_or_raise(FALSE, ValueError, "Can only compare identically-labeled Series objects")
            return Series(ix, h, dt or joint(a.dt, b.dt))
        if isinstance(o, Seq) and not isinstance(o, Series) and not self.dense() and not (same_t(self.lo, o.lo) and same_t(self.hi, o.hi) and same_g(self.g, o.g, self.lo, self.hi)):
            # combination by position: a selection that is a slice
            self = self.need_dense()
        return super().binop(o, f, dt, rev)

    # ---- windows
    def diff(self, periods=1):
        d = self.need_dense()
        p = N(sc(periods).v)
        return d.like(lambda k: (lambda a, b: Sc(sub(num(a.v), num(b.v)), or_(a.nan, b.nan, lt(sub(k, p), d.lo), ge(sub(k, p), d.hi))))(d.e(k), d.e(sub(k, p))), "m" if d.dt in ("M", "m") else "f")

    def shift(self, periods=1, fill_value=None):
        d = self.need_dense()
        p = N(sc(periods).v)
        def f(k):
            q = sub(k, p)
            out = or_(lt(q, d.lo), ge(q, d.hi))
            s = d.e(q)
            if fill_value is not None:
                return ite_sc(out, sc(fill_value), s)
            return Sc(num(s.v) if d.dt != "b" else s.v, or_(out, s.nan))
        return d.like(f, d.dt if d.dt in ("M", "m", "O") else "f")

    def pct_change(self):
        return self / self.shift(1) - 1

    def rolling(self, window, min_periods=None):
        return Rolling(self, window, min_periods)

    def ewm(self, span=None, adjust=True, min_periods=0):
        return Ewm(self, span, adjust)

    def expanding(self):
        raise Unsupported("expanding")

    # ---- missing values
    def isna(self): return self.like(lambda k: Sc(self.e(k).nan), "b") if True else None

    isnull = isna

    def notna(self):
        e = self.e
        return self.like(lambda k: Sc(not_(e(k).nan)), "b")

    notnull = notna

    def fillna(self, value=None, method=None, inplace=False, limit=None):
        if method in ("ffill", "pad"):
            return self.ffill(inplace=inplace, limit=limit)
        if limit is not None:
            raise Unsupported("limited fillna")
        if isinstance(value, Series):
            ve = self._align(value)
        else:
            s = sc(value); ve = lambda k: s
        e = self.e
        r = self.like(lambda k: (lambda a: ite_sc(a.nan, ve(k), a) if a.nan is not FALSE else a)(e(k)), self.dt)
        if inplace:
            self._mut(); self.e = r.e
            return None
        return r

    def ffill(self, inplace=False, limit=None):
        d = self.need_dense()
        e = d.e
        lim = None if limit is None else num(sc(limit).v)
        def f(k):
            x = fresh("f", "I")
            n = add(sub(k, d.lo), ONE)
            here = e(k)
            if here.nan is FALSE:
                return here
            g = not_(e(add(d.lo, x)).nan)
            some = ho("ex", n, g, TRUE, x)
            last = ho("last", n, g, TRUE, x)
            gone = not_(some) if lim is None else or_(not_(some), and_(here.nan, gt(sub(k, add(d.lo, last)), lim)))
            return Sc(ite(here.nan, e(add(d.lo, last)).v, here.v), gone)
        if inplace:
            self._mut(); self.e = f
            return None
        return d.like(f, d.dt)

    pad = ffill

    def dropna(self, inplace=False, how=None):
        e, g = self.e, self.g
        h = tidy(lambda k: and_(g(k), not_(e(k).nan)), self.lo, self.hi)
        if inplace:
            self._mut()
            r = self.like(e, self.dt, h)
            self.__dict__.update({k: v for k, v in r.__dict__.items() if k not in ("own", "name")})
            return None
        r = self.like(e, self.dt, h)
        return r

    def any(self, axis=None, skipna=True): return Seq.any(self)
    def all(self, axis=None, skipna=True): return Seq.all(self)
    def sum(self, axis=None, skipna=True): return Seq.sum(self, skipna=skipna)
    def mean(self, axis=None, skipna=True): return Seq.mean(self, skipna=skipna)
    def max(self, axis=None, skipna=True): return self.ext("max", skipna, "nan")
    def min(self, axis=None, skipna=True): return self.ext("min", skipna, "nan")

    def clip(self, lower=None, upper=None):
        r = self
        if lower is not None:
            lo = sc(lower); r = r.map(lambda s: ite_sc(and_(not_(s.nan), lt(s.v, lo.v)), lo, s))
        if upper is not None:
            up = sc(upper); r = r.map(lambda s: ite_sc(and_(not_(s.nan), gt(s.v, up.v)), up, s))
        return r

    def round(self, decimals=0):
        d = sc(decimals).v
        return self.map(lambda s: Sc(app("round", (num(s.v), d), "R"), s.nan))

    def where(self, cond, other=None):
        ce = self._align(cond)
        o = NANS if other is None else other
        oe = self._align(o) if isinstance(o, Seq) else (lambda k, s=sc(o): s)
        e = self.e
        return self.like(lambda k: ite_sc(ce(k), e(k), oe(k)), joint(self.dt, "f"))

    def mask(self, cond, other=None):
        return self.where(~cond, other)

    def apply(self, f):
        raise Unsupported("Series.apply")

    def sort_index(self, ascending=True):
        if not ascending:
            raise Unsupported("sort_index")
        if self._index.space.increasing:
            return self.copy()
        d = self.need_dense()
        perm, sp = sorting(d._index)
        e, lo = d.e, d.lo
        return Series(Index(sp, ZERO, sub(d.hi, lo)), lambda k: e(perm(k)), d.dt, name=self.name)

    def cumsum(self, axis=None, skipna=True):
        d = self.need_dense()
        lo, e = d.lo, d.e
        def f(k):
            x = fresh("r", "I")
            s = e(add(x, lo))
            return Sc(ho("sum", add(sub(k, lo), ONE), not_(s.nan), num(s.v), x), e(k).nan)
        return d.like(f, d.dt)

    def rename(self, name=None, **k):
        r = self.copy(); r.name = name
        return r

    def to_frame(self, name=None):
        nm = name if name is not None else self.name if self.name is not None else 0
        return Frame(self._index, {nm: (self.e, self.dt)})

    def reindex(self, ix, method=None):
        if isinstance(ix, Index) and ix.space is self._index.space and method is None:
            a = self
            return Series(ix, lambda k: Sc(a.e(k).v, or_(a.e(k).nan, not_(a.inr(k)))), self.dt)
        if isinstance(ix, Index) and ix.space is self._index.space and method in ("bfill", "ffill", "backfill", "pad", "nearest") and self._index.space.increasing:
            # only labels that are absent are filled
            a, z = self, fresh("z", "I")
            if ctx().known(imp(ix.inr(z), a.inr(z))):
                return Series(ix, a.e, self.dt)
        raise Unsupported("reindex")

    def sign(self): return self.map(sign_sc)

    def replace(self, a, b):
        a, b = sc(a), sc(b)
        return self.map(lambda s: ite_sc(and_(not_(s.nan), eq(num(s.v), num(a.v))), b, s))

    def map(self, f, dt=None):
        if isinstance(f, dict) or hasattr(f, "sym_lookup"):
            raise Unsupported("Series.map with a dictionary")
        if hasattr(f, "get_"):
            return Seq.map(self, f.get_, "i")
        return Seq.map(self, f, dt)

    def items(self): raise Unsupported("items")

    # ---- access
    @property
    def values(self):
        s = Seq(self.lo, self.hi, self.g, self.e, self.dt, self.own)
        s._series = self
        return s

    def to_numpy(self): return self.values

    @property
    def iloc(self): return ILoc(self)

    @property
    def loc(self): return Loc(self)

    @property
    def array(self): return self.values

    def tolist(self): return Seq(self.lo, self.hi, self.g, self.e, self.dt)

    def __getitem__(self, i):
        if isinstance(i, slice):
            for b in (i.start, i.stop):
                if b is not None and not isinstance(b, (int, Sc)):
                    raise Unsupported("label slice")
            # integer slices are positional (on a datetime index)
            if self._index.space.dt not in ("M",):
                pass
            lo, hi, d = self.slc(i)
            return view(Series(Index(self._index.space, lo, hi), d.e, d.dt, self.own))
        if isinstance(i, Seq) and i.dt == "b":
            return Seq.__getitem__(self, i)
        if isinstance(i, (int, Sc)) and self._index.space.dt == "M":
            return self.item(i)
        return Loc(self)[i]

    def __setitem__(self, i, v):
        if isinstance(i, Seq) and i.dt == "b" or isinstance(i, slice):
            if isinstance(i, Series) and not i._index.same_as(self._index):
                raise Unsupported("mask of another index")
            if isinstance(v, Series):
                ve = v
                self._mut()
                ie = self._align(i); old = self.e
                a = self; vv = v
                self.e = lambda k: ite_sc(boolt(ie(k)), Sc(vv.e(k).v, or_(vv.e(k).nan, not_(vv.inr(k)))), old(k))
                return
            Seq.__setitem__(self, i, v)
            return
        Loc(self)[i] = v

    def reset_index(self, drop=False):
        if not drop:
            raise Unsupported("reset_index")
        d = self.need_dense()
        sp = Space("range", lambda q: sub(q, d.lo), "i")
        return Series(Index(sp, d.lo, d.hi), d.e, d.dt)

    def groupby(self, *a, **k): raise Unsupported("groupby")


def min_t(a, b):
    if a is b or ctx().known(le(a, b)):
        return a
    if ctx().known(le(b, a)):
        return b
    return min2(a, b)


def max_t(a, b):
    if a is b or ctx().known(ge(a, b)):
        return a
    if ctx().known(ge(b, a)):
        return b
    return max2(a, b)


def tidy(g, lo, hi):
    """drops a guard that always holds in range"""
    k = fresh("t", "I")
    t = g(k)
    if t is TRUE:
        return NOG
    if ctx().known(imp(and_(le(lo, k), lt(k, hi)), t)):
        return NOG
    return g


class ILoc:
    def __init__(self, s): self.s = s

    def __getitem__(self, i):
        s = self.s
        if isinstance(s, Frame):
            return s._iloc(i)
        if isinstance(i, slice):
            lo, hi, d = s.slc(i)
            return view(Series(Index(s._index.space, lo, hi), d.e, d.dt, s.own))
        if isinstance(i, Seq):
            if i.dt == "b":
                return s[i]
            return take_series(s, i)
        return s.item(i)

    def __setitem__(self, i, v):
        s = self.s
        if isinstance(s, Frame):
            raise Unsupported("iloc store into a frame")
        if isinstance(i, slice) and isinstance(v, Series):
            # positional store of the values
            v = v.values
        Seq.__setitem__(s, i, v)


def take_series(s, i):
    d = s.need_dense()
    n = sub(d.hi, d.lo)
    ctx().bounds_all(i, lambda x: and_(le(neg(n), x.v), lt(x.v, n)), "positions within bounds")
    # positions of a selection of coordinates: keep base coordinates
    k = fresh("p", "I")
    if same_t(i.lo, d.lo) and ctx().known(imp(i.inr(k), eq(add(i.e(k).v, d.lo), k))):
        g = i.g
        a = i
        return Series(Index(s._index.space, d.lo, d.hi, lambda q: a.inr(q)), d.e, d.dt)
    sp = Space("take", lambda q: d._index.space.lab(add(d.lo, i.e(q).v)), d._index.space.dt, False)
    sp.parent = (d._index.space, lambda q: add(d.lo, i.e(q).v))
    return Series(Index(sp, i.lo, i.hi, i.g), lambda q: d.e(add(d.lo, i.e(q).v)), d.dt)


def lookup(index, label):
    """coordinate of a label term in the index space, or None"""
    sp = index.space
    v = label.v
    # label written as lab(e)
    probe = var("?q", "I")
    pat = sp.lab(probe)
    m = match(pat, v, probe)
    ss = getattr(sp, "sset", None)
    if m is None and ss is not None:
        return ss.pos(label).v
    return m


def present(index, label, q):
    """the index has the label, whose coordinate is q"""
    ss = getattr(index.space, "sset", None)
    r = and_(not_(label.nan), index.inr(q))
    return r if ss is None else and_(r, ss.contains(label))


def match(pat, v, probe):
    """solves pat[probe := e] = v syntactically"""
    if pat is v:
        return None
    if pat is probe:
        return v
    if pat.op == "app" and v.op == "app" and pat.args[0] == v.args[0] and len(pat.args) == 2 == len(v.args):
        return match(pat.args[1], v.args[1], probe)
    if pat.op == "app" and v.op == "app" and pat.args[0] == v.args[0] and len(pat.args) == len(v.args) and pat is not probe:
        on = [i for i in range(1, len(pat.args)) if pat.args[i] is not v.args[i]]
        if len(on) == 1:
            return match(pat.args[on[0]], v.args[on[0]], probe)
        return None
    if pat.op == "poly" and len(pat.args) == 1:
        (m, c), = pat.args
        if len(m) == 1 and m[0][1] == 1:
            if v.op == "poly" and len(v.args) == 1:
                (m2, c2), = v.args
                if c2 == c and len(m2) == 1 and m2[0][1] == 1:
                    return match(m[0][0], m2[0][0], probe)
            if v.op == "ite":
                a, b = match(pat, v.args[1], probe), match(pat, v.args[2], probe)
                if a is not None and b is not None:
                    return ite(v.args[0], a, b)
    if v.op == "ite":
        a, b = match(pat, v.args[1], probe), match(pat, v.args[2], probe)
        if a is not None and b is not None:
            return ite(v.args[0], a, b)
    if pat.op == "poly" and probe in fv(pat) and pat.sort == "I":
        # probe + c
        p = to_poly(pat)
        key = ((probe, 1),)
        if p.get(key) == 1 and all(probe not in fv(from_poly({m: c})) for m, c in p.items() if m != key):
            return add(v, probe, neg(pat))
    # several terms: a candidate from one of them must reproduce the whole
    if pat.op == "poly" and v.op == "poly":
        for a in apps_of(pat):
            if probe in fv(a):
                for b in apps_of(v):
                    c = match(a, b, probe) if b.args[0] == a.args[0] else None
                    if c is not None and subst(pat, {probe: c}) is v:
                        return c
                break
    return None


def apps_of(t):
    return [a for m, c in to_poly(t).items() for a, e in m if a.op == "app"]



class Loc:
    def __init__(self, s): self.s = s

    def _sel(self, i):
        """('mask', fn) over base coordinates, ('pos', coordinate), or ('take', Seq)"""
        s = self.s
        ix = s._index
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                return "mask", lambda k: TRUE
            raise Unsupported("label slice")
        if isinstance(i, Index):
            if i.space is ix.space:
                k = fresh("l", "I")
                ctx().require_or_raise(all_(i, lambda q: ix.inr(q)), KeyError, "labels present")
                return "mask", (lambda q: i.inr(q))
            par = getattr(i.space, "parent", None)
            if par is not None and par[0] is ix.space:
                ctx().require_or_raise(all_(i, lambda q: ix.inr(par[1](q))), KeyError, "labels present")
                return "take", (i, par[1])
            if getattr(ix.space, "sset", None) is None:
                raise Unsupported("labels of another index space")
        if isinstance(i, Seq) and i.dt == "b":
            if isinstance(i, Series):
                if i._index.space is not ix.space:
                    raise Unsupported("mask of another index")
                if i._index.same_as(ix):
                    return "mask", lambda k: boolt(i.e(k))
                # an unaligned mask must cover the rows
                ctx().require_or_raise(all_(ix, lambda q: i.inr(q)), Exception, "mask covers the rows")
                return "mask", lambda k: boolt(i.e(k))
            ie = s._align(i) if isinstance(s, Series) else Seq._align(s._index, i)
            return "mask", lambda k: boolt(ie(k))
        if isinstance(i, Seq):
            # labels by value
            k = fresh("l", "I")
            q = lookup(ix, i.e(k))
            if q is None:
                raise Unsupported("lookup of unknown labels: %s" % str(i.e(k))[:400])
            f = lambda y: lookup(ix, i.e(y))
            ctx().require_or_raise(all_(i, lambda y: present(ix, i.e(y), f(y))), KeyError, "labels present")
            return "take", (i, f)
        lab = sc(i)
        q = lookup(ix, lab)
        if q is None:
            raise Unsupported("lookup of an unknown label")
        ctx().require_or_raise(present(ix, lab, q), KeyError, "label present")
        return "pos", q

    def __getitem__(self, i):
        s = self.s
        if isinstance(s, Frame):
            if isinstance(i, tuple):
                r, c = i
                col = s[c] if isinstance(c, str) or not isinstance(c, slice) else s
                return Loc(col)[r]
            kind, x = self._sel(i)
            if kind == "mask":
                g = s._index.g
                return Frame(Index(s._index.space, s._index.lo, s._index.hi, tidy(lambda k: and_(g(k), x(k)), s._index.lo, s._index.hi)), dict(s.cols))
            raise Unsupported("row lookup in a frame")
        kind, x = self._sel(i)
        if kind == "pos":
            return s.e(x)
        if kind == "mask":
            g = s.g
            return s.like(s.e, s.dt, tidy(lambda k: and_(g(k), x(k)), s.lo, s.hi))
        i, f = x
        if isinstance(i, Index):
            return Series(i, lambda y: s.e(f(y)), s.dt)
        base = s._index.space
        sp = Space("take", lambda y: base.lab(f(y)), base.dt, False)
        sp.parent = (base, f)
        return Series(Index(sp, i.lo, i.hi, i.g), lambda y: s.e(f(y)), s.dt)

    def __setitem__(self, i, v):
        s = self.s
        if isinstance(s, Frame):
            if not isinstance(i, tuple):
                return self._row_store(i, v)
            r, c = i
            if c not in s.cols:
                if isinstance(r, slice) and r.start is None and r.stop is None:
                    s[c] = v
                    return
                e, dt = (lambda k: NANS), "f"
            else:
                e, dt = s.cols[c]
            s._mutv() if c in s.cols else s._mut()
            col = Series(s._index, e, dt)
            Loc(col)[r] = v
            s.cols[c] = (col.e, col.dt)
            return
        kind, x = self._sel(i)
        s._mut()
        old = s.e
        if kind == "pos":
            w = sc(v)
            s.e = lambda k: ite_sc(eq(k, x), w, old(k))
        elif kind == "mask":
            if isinstance(v, Series):
                if v._index.space is not s._index.space:
                    raise Unsupported("store of another index")
                vv = v
                ve = lambda k: Sc(vv.e(k).v, or_(vv.e(k).nan, not_(vv.inr(k))))
            elif isinstance(v, Seq):
                ve = s._align_sel(Seq(s.lo, s.hi, s.g, lambda k: Sc(x(k)), "b"), v)
            else:
                w = sc(v); ve = lambda k: w
            s.e = lambda k: ite_sc(x(k), ve(k), old(k))
            s.dt = joint(s.dt, v.dt if isinstance(v, Seq) else kind_of(sc(v)))
        else:
            raise Unsupported("store at looked-up labels")


    def _row_store(self, i, v):
        """one row of a frame, from one value per column"""
        s = self.s
        kind, x = self._sel(i)
        if kind != "pos":
            raise Unsupported("row store into a frame")
        nc = len(s.cols)
        from .select import SelMat
        if isinstance(v, SelMat):
            # a selection of exactly one row
            if conc(v.nc) != nc:
                raise PyRaise(ValueError, "shape of the stored row")
            q = fresh("r", "I")
            one = eq(ho("sum", v.nr, v.rg(q), ONE, q), ONE)
            ctx().require(one, "a single row is stored")
            vals = []
            for j in range(nc):
                e = v.e(q, N(j))
                if e.nan is not FALSE:
                    raise Unsupported("row of possibly missing values")
                # the sum, least and greatest of a single value are that value
                a, b, c = (ho(h, v.nr, v.rg(q), num(e.v), q) for h in ("sum", "max", "min"))
                ctx().hyps.append(imp(one, and_(eq(a, b), eq(a, c))))
                vals.append(Sc(a))
            dts = [v.dt] * nc
        elif isinstance(v, Seq):
            d = v.need_dense()
            if conc(sub(d.hi, d.lo)) != nc:
                raise PyRaise(ValueError, "length of the stored row")
            vals = [d.e(add(d.lo, N(j))) for j in range(nc)]
            dts = [v.dt] * nc
        else:
            vals = [sc(v)] * nc
            dts = [kind_of(w) for w in vals]
        s._mut()
        for (c, (e, dt)), w, d2 in zip(list(s.cols.items()), vals, dts):
            s.cols[c] = ((lambda k, e=e, w=w: ite_sc(eq(k, x), w, e(k))), joint(dt, d2))


def all_(seq, f):
    x = fresh("a", "I")
    q = add(seq.lo, x)
    return not_(ho("ex", sub(seq.hi, seq.lo), and_(seq.g(q), not_(f(q))), TRUE, x))


class Rolling:
    """rolling windows over the last w rows, min_periods = w"""

    def __init__(self, s, window, min_periods=None):
        if isinstance(s, Frame):
            self.f = s; self.w = window
            if min_periods is not None:
                raise Unsupported("min_periods")
            return
        self.s = s.need_dense()
        w = sc(window)
        ctx().require_or_raise(le(ZERO, w.v), ValueError, "window is non-negative")
        self.w = w.v
        self.mp = self.w if min_periods is None else sc(min_periods).v

    def __getitem__(self, c):
        return Rolling(self.f[c], self.w)

    def _agg(self, f, dt="f"):
        d, w = self.s, self.w
        e = d.e
        full_only = self.mp is w
        def g(k):
            x = fresh("w", "I")
            s = e(add(sub(k, w), x, ONE))
            if full_only:
                bad = or_(lt(add(sub(k, w), ONE), d.lo), ho("ex", w, TRUE, s.nan, x))
                return f(k, w, x, TRUE, s, bad)
            inr = and_(ge(add(sub(k, w), x, ONE), d.lo), not_(s.nan))
            cnt = ho("sum", w, inr, ONE, x)
            return f(k, w, x, inr, Sc(s.v), lt(cnt, max2(self.mp, ZERO)))
        return d.like(g, dt)

    def sum(self):
        return self._agg(lambda k, w, x, g, s, bad: Sc(ho("sum", w, g, num(s.v), x), bad))

    def count_(self, w, g, x):
        return w if g is TRUE else ho("sum", w, g, ONE, x)

    def mean(self):
        return self._agg(lambda k, w, x, g, s, bad: (lambda c: Sc(div(ho("sum", w, g, num(s.v), x), c), or_(bad, le(c, ZERO))))(self.count_(w, g, x)))

    def max(self):
        return self._agg(lambda k, w, x, g, s, bad: Sc(ho("max", w, g, num(s.v), x), or_(bad, le(self.count_(w, g, x), ZERO))))

    def min(self):
        return self._agg(lambda k, w, x, g, s, bad: Sc(ho("min", w, g, num(s.v), x), or_(bad, le(self.count_(w, g, x), ZERO))))

    def _var(self, w, x, g, s, ddof):
        c = self.count_(w, g, x)
        v = num(s.v)
        m = div(ho("sum", w, g, v, x), c)
        return div(sub(ho("sum", w, g, mul(v, v), x), mul(c, m, m)), sub(c, N(ddof))), c

    def var(self, ddof=1):
        def f(k, w, x, g, s, bad):
            v, c = self._var(w, x, g, s, ddof)
            return Sc(v, or_(bad, le(c, N(ddof))))
        return self._agg(f)

    def std(self, ddof=1):
        def f(k, w, x, g, s, bad):
            v, c = self._var(w, x, g, s, ddof)
            return Sc(app("sqrt", (v,), "R"), or_(bad, le(c, N(ddof))))
        return self._agg(f)

    def cov(self, other, ddof=1):
        o = other.need_dense()
        d, w = self.s, self.w
        oe = d._align(o)
        e = d.e
        if self.mp is not w:
            raise Unsupported("cov with min_periods")
        def g(k):
            x = fresh("w", "I")
            q = add(sub(k, w), x, ONE)
            a, b = e(q), oe(q)
            bad = or_(lt(add(sub(k, w), ONE), d.lo), ho("ex", w, TRUE, or_(a.nan, b.nan), x), le(w, N(ddof)))
            sab = ho("sum", w, TRUE, mul(a.v, b.v), x)
            sa, sb = ho("sum", w, TRUE, a.v, x), ho("sum", w, TRUE, b.v, x)
            return Sc(div(sub(sab, div(mul(sa, sb), w)), sub(w, N(ddof))), bad)
        return d.like(g, "f")

    def apply(self, fn, raw=False):
        # the function receives the window's values
        def f(k, w, x, g, s, bad):
            if g is not TRUE:
                raise Unsupported("rolling apply with min_periods")
            e = self.s.e
            win = Seq(ZERO, w, None, lambda j: (lambda t: Sc(num(t.v), FALSE))(e(add(sub(k, w), j, ONE))), "f")
            r = it.merged(it.under_binder([le(self.s.lo, k), lt(k, self.s.hi), not_(bad)], lambda: it.call(fn, [win], {})))
            return Sc(num(r.v), or_(bad, r.nan))
        it = ctx().interp
        k0 = fresh("k", "I")
        r0 = self._agg(f).e(k0)     # evaluated once, for an arbitrary window
        return self.s.like(lambda k: Sc(subst(r0.v, {k0: k}), subst(r0.nan, {k0: k})), "f")


class Ewm:
    """exponentially weighted statistics, adjust=True, weights (1-2/(span+1))^age"""

    def __init__(self, s, span, adjust=True):
        self.s = s.need_dense()
        if span is None or adjust is not True:
            raise Unsupported("ewm without span or adjustment")
        sp = sc(span)
        ctx().require_or_raise(ge(sp.v, ONE), ValueError, "span is at least one")
        self.q = ewm_decay(sp.v)

    def _no_nan(self):
        d = self.s
        k = fresh("n", "I")
        if not ctx().known(imp(and_(le(d.lo, k), lt(k, d.hi)), not_(d.e(k).nan))):
            raise Unsupported("exponentially weighted statistics with missing values")

    def mean(self):
        self._no_nan()
        d, q = self.s, self.q
        return d.like(lambda k: Sc(ewm_mean(d.e, d.lo, k, q)), "f")

    def var(self):
        self._no_nan()
        d, q = self.s, self.q
        return d.like(lambda k: Sc(ewm_var(d.e, d.lo, k, q), le(sub(k, d.lo), ZERO)), "f")

    def std(self):
        self._no_nan()
        d, q = self.s, self.q
        return d.like(lambda k: Sc(app("sqrt", (ewm_var(d.e, d.lo, k, q),), "R"), le(sub(k, d.lo), ZERO)), "f")


def ewm_decay(span):
    return sub(ONE, div(N(2), add(span, ONE)))


def powr(q, n):
    return mk("app", ("powr", q, n), "R")


def ewm_mean(e, lo, k, q):
    x = fresh("w", "I")
    n = add(sub(k, lo), ONE)
    w = powr(q, sub(sub(n, ONE), x))
    return div(ho("sum", n, TRUE, mul(w, num(e(add(lo, x)).v)), x), ho("sum", n, TRUE, w, x))


def ewm_var(e, lo, k, q):
    """unbiased: weighted variance times (sum w)^2 / ((sum w)^2 - sum w^2)"""
    x = fresh("w", "I")
    n = add(sub(k, lo), ONE)
    w = powr(q, sub(sub(n, ONE), x))
    v = num(e(add(lo, x)).v)
    sw, sw2 = ho("sum", n, TRUE, w, x), ho("sum", n, TRUE, mul(w, w), x)
    swx, swxx = ho("sum", n, TRUE, mul(w, v), x), ho("sum", n, TRUE, mul(w, v, v), x)
    m = div(swx, sw)
    biased = sub(div(swxx, sw), mul(m, m))
    return div(mul(biased, sw, sw), sub(mul(sw, sw), sw2))


class Frame:
    ndim = 2

    def __init__(self, index, cols, own=None):
        object.__setattr__(self, "_index", index)
        object.__setattr__(self, "cols", dict(cols))
        object.__setattr__(self, "own", own)
        object.__setattr__(self, "vown", None)     # whose values a slice shares

    def _mut(self):
        if self.own is not None:
            ctx().frame(self.own)

    def _mutv(self):
        """values stored in place"""
        self._mut()
        if self.vown is not None:
            ctx().frame(self.vown)

    def __getattr__(self, nm):
        if nm.startswith("_") or nm.startswith("sym_") or nm in ("py_func", "space", "space_id"):
            raise AttributeError(nm)
        if nm in self.cols:
            return self[nm]
        ctx().missing_attr(self, nm)

    def __setattr__(self, nm, v):
        if nm == "columns":
            self._mut()
            names = list(v)
            if len(names) != len(self.cols):
                raise PyRaise(ValueError, "columns")
            object.__setattr__(self, "cols", dict(zip(names, self.cols.values())))
            return
        if nm == "index":
            self._mut()
            if isinstance(v, Index):
                object.__setattr__(self, "_index", v)
                return
        raise Unsupported("attribute store on a frame")

    @property
    def index(self): return self._index

    @property
    def columns(self): return Columns(self.cols)

    @property
    def shape(self):
        ix = self._index
        if not ix.dense() and ctx() is not None:
            d = ctx().densify(ix, False)        # a head or a tail has its slice's length
            ix = ix if d is None else d
        return (Sc(ix.length()), len(self.cols))

    @property
    def values(self):
        cs = list(self.cols.values())
        try:
            ix = self._index.need_dense()
        except Unsupported:
            from .select import SelMat
            x = self._index
            return SelMat(x.hi, N(len(cs)), lambda i, j: pick_list([c[0](i) for c in cs], j), x.inr, lambda j: and_(le(ZERO, j), lt(j, N(len(cs)))) if not is_c(j) else TRUE, joint(*[c[1] for c in cs]) if cs else "f")
        return Mat(sub(ix.hi, ix.lo), N(len(cs)), lambda i, j: pick_list([c[0](add(ix.lo, i)) for c in cs], j), joint(*[c[1] for c in cs]) if cs else "f", self.own)

    def copy(self, deep=True):
        return Frame(self._index, self.cols, self.own if not deep else None)

    def __contains__(self, c): return c in self.cols

    def __getitem__(self, c):
        if isinstance(c, str) or (isinstance(c, (int, float)) and c in self.cols):
            if c not in self.cols:
                raise PyRaise(KeyError, c)
            e, dt = self.cols[c]
            r = FrameCol(self, c)
            return r
        if isinstance(c, (list, Columns)):
            for x in c:
                if x not in self.cols:
                    raise PyRaise(KeyError, x)
            return Frame(self._index, {x: self.cols[x] for x in c})
        if isinstance(c, Seq) and c.dt == "b":
            return Loc(self)[c]
        if isinstance(c, Sc) and conc(c) is not None and conc(c) in self.cols:
            return self[conc(c)]
        if isinstance(c, slice):
            return self._iloc(c)
        raise Unsupported("frame index %r" % (type(c).__name__,))

    def __setitem__(self, c, v):
        if not isinstance(c, (str, int)):
            raise Unsupported("frame store")
        self._mut()
        ix = self._index
        if isinstance(v, Series):
            if v._index.space is not ix.space:
                raise Unsupported("store of a series of another index space")
            if v._index.same_as(ix):
                self.cols[c] = (v.e, v.dt)
            else:
                vv, ve, inr = v, v.e, v.inr
                self.cols[c] = (lambda k: Sc(num(ve(k).v), or_(ve(k).nan, not_(inr(k)))), joint(v.dt, "f") if v.dt != "M" else "M")
        elif isinstance(v, Seq):
            if not ix.dense() and v.dense():
                # the same rows, written as a slice
                ix = ix.need_dense()
                object.__setattr__(self, "_index", ix)
            e = Seq._align(ix, v)
            self.cols[c] = (e, v.dt)
        elif isinstance(v, Mat):
            raise Unsupported("store of a matrix column")
        else:
            s = sc(v)
            self.cols[c] = (lambda k: s, kind_of(s))

    def drop(self, labels=None, axis=0, columns=None, inplace=False):
        cs = columns if columns is not None else labels
        if columns is None and conc(axis) not in (1, "columns"):
            raise Unsupported("drop rows")
        cs = [cs] if isinstance(cs, str) else list(cs)
        for x in cs:
            if x not in self.cols:
                raise PyRaise(KeyError, x)
        if inplace:
            self._mut()
            for x in cs:
                del self.cols[x]
            return None
        return Frame(self._index, {k: v for k, v in self.cols.items() if k not in cs})

    def rolling(self, window, min_periods=None):
        return Rolling(self, window, min_periods)

    def dropna(self, axis=0, how="any", subset=None, inplace=False):
        cs = [self.cols[c] for c in (subset if subset is not None else self.cols)]
        g = self._index.g
        comb = or_ if how == "any" else and_
        h = tidy(lambda k: and_(g(k), not_(comb(*[c[0](k).nan for c in cs]))), self._index.lo, self._index.hi)
        ix = Index(self._index.space, self._index.lo, self._index.hi, h)
        if inplace:
            self._mut()
            object.__setattr__(self, "_index", ix)
            return None
        return Frame(ix, self.cols)

    def isna(self):
        return Frame(self._index, {c: ((lambda k, e=e: Sc(e(k).nan)), "b") for c, (e, dt) in self.cols.items()})

    isnull = isna

    def any(self, axis=0):
        if axis == 1:
            return Series(self._index, lambda k: Sc(or_(*[boolt(e(k)) for e, dt in self.cols.values()])), "b")
        return ColVec({c: Series(self._index, e, dt).any() for c, (e, dt) in self.cols.items()})

    def all(self, axis=0):
        if axis == 1:
            return Series(self._index, lambda k: Sc(and_(*[boolt(e(k)) for e, dt in self.cols.values()])), "b")
        return ColVec({c: Series(self._index, e, dt).all() for c, (e, dt) in self.cols.items()})

    def _rowred(self, f, dt):
        cs = list(self.cols.values())
        return Series(self._index, lambda k: f([c[0](k) for c in cs]), dt)

    def max(self, axis=0, skipna=True):
        if axis != 1:
            raise Unsupported("column maximum")
        return self._rowred(lambda xs: _ext(xs, gt), joint(*[c[1] for c in self.cols.values()]))

    def min(self, axis=0, skipna=True):
        if axis != 1:
            raise Unsupported("column minimum")
        return self._rowred(lambda xs: _ext(xs, lt), joint(*[c[1] for c in self.cols.values()]))

    def _iloc(self, i):
        if isinstance(i, slice):
            s = Series(self._index, lambda k: Sc(k), "i")
            lo, hi, d = s.slc(i)
            r = Frame(Index(self._index.space, lo, hi), self.cols)
            # its own columns, the frame's values
            object.__setattr__(r, "vown", self.own if self.own is not None else self.vown)
            return r
        if isinstance(i, Seq):
            s = take_series(Series(self._index, lambda k: Sc(k), "i"), i)
            sel = s.e
            return Frame(s._index, {c: ((lambda q, e=e: e(sel(q).v)), dt) for c, (e, dt) in self.cols.items()})
        raise Unsupported("iloc on a frame")

    @property
    def iloc(self): return ILoc(self)

    @property
    def loc(self): return Loc(self)

    @property
    def empty(self):
        return Sc(le(self._index.length(), ZERO)) if self.cols else True

    def join(self, o, how="left"):
        if isinstance(o, Frame) and not self.cols and self._index.space.name == "nothing" and how == "outer" and o._index.space.increasing:
            return Frame(o._index, o.cols)      # the empty frame
        if isinstance(o, Frame) and o._index.space is self._index.space and how in ("left", "inner", "outer"):
            return concat_cols([self, o], how)
        raise Unsupported("join")

    def astype(self, t):
        d = dtype_of(t)
        return Frame(self._index, {c: ((lambda k, e=e: astype_sc(e(k), d)), d) for c, (e, dt) in self.cols.items()})

    def ffill(self, axis=0, inplace=False, limit=None):
        if axis not in (0, None):
            raise Unsupported("ffill along columns")
        cols = {c: (Series(self._index, e, dt).ffill(limit=limit).e, dt) for c, (e, dt) in self.cols.items()}
        if inplace:
            self._mut()
            self.cols.update(cols)
            return None
        return Frame(self._index, cols)

    def items(self):
        return [(c, self[c]) for c in self.cols]

    def _colwise(self, f):
        cols, ix = {}, None
        for c, (e, dt) in self.cols.items():
            r = f(Series(self._index, e, dt))
            if ix is not None and not (r._index.space is ix.space and r._index.same_as(ix)):
                raise Unsupported("column operation that changes the index")
            ix = r._index if ix is None else ix
            cols[c] = (r.e, r.dt)
        return Frame(self._index if ix is None else ix, cols)

    def shift(self, periods=1): return self._colwise(lambda x: x.shift(periods))
    def diff(self, periods=1): return self._colwise(lambda x: x.diff(periods))

    def reindex(self, ix): raise Unsupported("reindex of a frame")

    def _cmp(self, o): raise Unsupported("comparison of a frame")
    __lt__ = __le__ = __gt__ = __ge__ = _cmp

    def __eq__(self, o):
        if isinstance(o, (Frame, Series, Sc, int, float)):
            raise Unsupported("comparison of a frame")
        return False

    def __ne__(self, o): return not self == o
    __hash__ = object.__hash__


def _ext(xs, rel):
    """row maximum or minimum skipping missing values"""
    r = None
    for s in xs:
        if r is None:
            r = s
        else:
            better = and_(not_(s.nan), or_(r.nan, rel(num(s.v), num(r.v))))
            r = Sc(ite(better, num(s.v), num(r.v)), and_(r.nan, s.nan))
    return r


def concat_cols(frames, how):
    fs = [f.to_frame() if isinstance(f, Series) else f for f in frames]
    sp = fs[0]._index.space
    if any(f._index.space is not sp for f in fs):
        raise Unsupported("concat of different index spaces")
    if len({c for f in fs for c in f.cols}) < sum(len(f.cols) for f in fs):
        raise Unsupported("frames with a column in common")
    lo = fs[0]._index.lo; hi = fs[0]._index.hi
    if how != "left":
        for f in fs[1:]:
            lo, hi = min_t(lo, f._index.lo), max_t(hi, f._index.hi)
    if all(f._index.same_as(fs[0]._index) for f in fs):
        ix = fs[0]._index
    elif how == "left":
        ix = fs[0]._index
    else:
        comb = and_ if how == "inner" else or_
        if how == "outer" and not sp.increasing:
            raise Unsupported("outer join of unsorted indices")
        ix = Index(sp, lo, hi, tidy(lambda k: comb(*[f._index.inr(k) for f in fs]), lo, hi))
    out = {}
    for f in fs:
        fi = f._index
        k = fresh("j", "I")
        covered = ctx().known(imp(ix.inr(k), fi.inr(k)))
        for c, (e, dt) in f.cols.items():
            if c in out:
                raise Unsupported("repeated column names")
            out[c] = (e, dt) if covered else ((lambda k, e=e, fi=fi: Sc(num(e(k).v), or_(e(k).nan, not_(fi.inr(k))))), joint(dt, "f") if dt != "M" else "M")
    return Frame(ix, out)


class FrameCol(Series):
    """a column of a frame: a view, stores through it reach the frame"""

    def __init__(self, f, c):
        e, dt = f.cols[c]
        super().__init__(f._index, e, dt, f.own if f.own is not None else f.vown, c)
        self.src = (f, c, e)

    def _mut(self):
        super()._mut()
        f, c, e = self.src
        if c not in f.cols or f.cols[c][0] is not e:
            raise Unsupported("store through a column that its frame has replaced")
        object.__setattr__(self, "thru", True)

    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == "e" and getattr(self, "thru", False):
            f, c, _ = self.src
            f.cols[c] = (v, self.dt)
            object.__setattr__(self, "src", (f, c, v))


class ColVec:
    """one boolean per column"""

    def __init__(self, d): self.d = d

    def any(self): return Sc(or_(*[boolt(x) for x in self.d.values()]))
    def all(self): return Sc(and_(*[boolt(x) for x in self.d.values()]))
    def __invert__(self): return ColVec({k: ~v for k, v in self.d.items()})


class Columns(list):
    """column labels"""

    def __getitem__(self, i):
        if isinstance(i, Sc) and conc(i) is None:
            ctx().require_or_raise(and_(le(N(-len(self)), i.v), lt(i.v, N(len(self)))), IndexError, "position of a column label")
            return pick_list([sc(c) for c in self], ite(lt(i.v, ZERO), add(i.v, N(len(self))), i.v))
        return list.__getitem__(self, conc(i) if isinstance(i, Sc) else i)

    def tolist(self): return list(self)

    @property
    def values(self): return self
