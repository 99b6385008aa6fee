"""Hash-consed terms with a polynomial normal form and binders.

Sorts: 'B' (bool), 'I' (mathematical integer), 'R' (real).  Machine floats are
read as reals with a separate not-a-number flag (see Sc); 'inf' is not
represented, a division by zero is flagged as not-a-number.
"""
from fractions import Fraction
import math


class Unsupported(Exception):
    """the construct is outside the verifier's subset: undecided, not a violation"""


class T:
    __slots__ = ("op", "args", "sort", "id", "_fv", "_d", "_h")

    def __repr__(self):
        return show(self)


_table = {}
_ids = [0]


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _ids[0] += 1
        t.id = _ids[0]
        t._fv = t._d = t._h = None
        _table[key] = t
    return t


def B(b):
    return mk("c", (bool(b),), "B")


TRUE, FALSE = B(True), B(False)


def N(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant %r" % x)
        # decimal literals stand for the decimal number
        f = Fraction(repr(x))
        return N(f)
    f = Fraction(x)
    return mk("c", (f,), "I" if f.denominator == 1 else "R")


ZERO, ONE = N(0), N(1)
_fresh = [0]


def var(name, sort):
    return mk("v", (name,), sort)


def fresh(prefix, sort):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), sort)


def app(f, args, sort):
    args = tuple(N(a) for a in args)
    if f == "sqrt":
        return sqrt_(args[0])
    if f == "abs":
        return abs_(args[0])
    if f == "log":
        return log_(args[0])
    if f == "exp":
        if args[0] is ZERO:
            return ONE
    if f == "powr":
        if args[1] is ZERO:
            return ONE
        if args[1] is ONE:
            return args[0]
    return mk("app", (f,) + args, sort)


def is_c(t):
    return t.op == "c"


# ------------------------------------------------------------ numbers
# a number is a constant, an atom, or op 'poly' with args ((mono, coef), ...)
# mono = ((atom, exponent), ...) sorted by atom id; exponent a nonzero integer

def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def to_poly(t):
    if t.op == "c":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return N(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda x: _mono_key(x[0])))
    intg = all(c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m) for m, c in items)
    return mk("poly", items, "I" if intg else "R")


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))


def _norm_mono(m, c):
    """rewrites sqrt powers and |x|^2; returns a polynomial dict"""
    out = {(): c}
    for a, e in m:
        if a.op == "app" and a.args[0] == "sqrt" and abs(e) >= 2:
            q, r = divmod(abs(e), 2)
            base = powi(a.args[1], q if e > 0 else -q)
            rest = {((a, r if e > 0 else -r),): Fraction(1)} if r else {(): Fraction(1)}
            out = _pmul(out, _pmul(to_poly(base), rest))
        elif a.op == "app" and a.args[0] == "abs" and abs(e) >= 2:
            q, r = divmod(abs(e), 2)
            base = powi(a.args[1], 2 * q if e > 0 else -2 * q)
            rest = {((a, r if e > 0 else -r),): Fraction(1)} if r else {(): Fraction(1)}
            out = _pmul(out, _pmul(to_poly(base), rest))
        elif a.op == "poly" and e > 0:   # an atomised sum that got a positive power
            out = _pmul(out, to_poly(powi(a, e)))
        else:
            out = {_mmul(mm, ((a, e),)): cc for mm, cc in out.items()}
    return out


def _needs(m):
    return any((a.op == "app" and a.args[0] in ("sqrt", "abs") and abs(e) >= 2) or (a.op == "poly" and e > 0) for a, e in m)


def _pmul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            c = c1 * c2
            if _needs(m):
                for mm, cc in _norm_mono(m, c).items():
                    out[mm] = out.get(mm, 0) + cc
            else:
                out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def add(*ts):
    out = {}
    for t in ts:
        for m, c in to_poly(N(t)).items():
            out[m] = out.get(m, 0) + c
    return from_poly(out)


def neg(a):
    return mul(N(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _ite_lift(a, b, f):
    return None


def mul(*ts):
    out = {(): Fraction(1)}
    for t in ts:
        out = _pmul(out, to_poly(N(t)))
    return from_poly(out)


def powi(a, n):
    a = N(a)
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def inv(a):
    a = N(a)
    p = to_poly(a)
    if not p:
        return mk("app", ("inv0",), "R")   # 1/0: value of no interest, flagged by the caller
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((x, -e) for x, e in m): 1 / c})
    # factor out the content: leading coefficient and common monomial
    items = sorted(p.items(), key=lambda x: _mono_key(x[0]))
    common = None
    for m, c in items:
        d = dict(m)
        common = d if common is None else {x: (min(e, d[x]) if (e > 0) == (d[x] > 0) and e > 0 else max(e, d[x])) for x, e in common.items() if x in d and (d[x] > 0) == (e > 0)}
    common = tuple(sorted(((x, e) for x, e in (common or {}).items() if e), key=lambda x: x[0].id))
    lead = items[0][1]
    ci = tuple((x, -e) for x, e in common)
    q = {_mmul(m, ci): c for m, c in items}
    sq = [m for m in q if m]
    if len(q) == 2 and () in q and len(sq) == 1 and len(sq[0]) == 1 and sq[0][0][1] == 1 and sq[0][0][0].op == "app" and sq[0][0][0].args[0] == "sqrt" and is_c(sq[0][0][0].args[1]):
        # 1 / (a + b sqrt c) = (a - b sqrt c) / (a^2 - b^2 c)
        x, y, z = q[()], q[sq[0]], sq[0][0][0].args[1].args[0]
        if x * x != y * y * z:
            dd = x * x - y * y * z
            return mul(from_poly({ci: Fraction(1)}), from_poly({(): x / dd, sq[0]: -y / dd}))
    q = from_poly({_mmul(m, ci): c / lead for m, c in items})
    r = {ci: 1 / lead}
    return from_poly(_pmul(r, {((q, -1),): Fraction(1)}))


def div(a, b):
    return mul(a, inv(b))


def lead_sign(p):
    items = sorted(p.items(), key=lambda x: _mono_key(x[0]))
    return items[0][1]


def abs_(a):
    p = to_poly(a)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return N(abs(c))
        parts = [N(abs(c))]
        for x, e in m:
            if nonneg_atom(x) or e % 2 == 0:
                parts.append(powi(x, e))
            else:
                parts.append(powi(mk("app", ("abs", x), x.sort), e))
        return mul(*parts)
    lead = lead_sign(p)
    s = abs(lead)
    q = from_poly({m: c / lead for m, c in p.items()})
    return mul(N(s), mk("app", ("abs", q), q.sort))


_nonneg = set()      # names of functions declared non-negative
_pos = set()         # names of functions/variables declared positive
_pair = {}           # (name, name) -> function of the two applications' arguments giving facts about them
_axiom = {}          # name -> function of the arguments giving facts about the application
_def = {}            # name -> (function (ev, args) evaluating a defined symbol, terms it depends on)
_rank = {}           # name of a position function -> (element at a position, condition for being an element, length)
_incr = set()        # names of strictly increasing unary functions
_nondec = set()      # names of non-decreasing unary functions


def nonneg_atom(x):
    if x.op == "app":
        return x.args[0] in ("abs", "sqrt", "exp", "ncdf") or x.args[0] in _nonneg or x.args[0] in _pos
    if x.op == "v":
        return x.args[0] in _nonneg or x.args[0] in _pos
    if x.op == "ho":
        return x.args[0] == "sum" and nonneg(x.args[3])
    if x.op == "ite":
        return nonneg(x.args[1]) and nonneg(x.args[2])
    return False


def pos_atom(x):
    if x.op == "app":
        if x.args[0] == "log":
            return is_c(x.args[1]) and x.args[1].args[0] > 1
        return x.args[0] == "exp" or x.args[0] in _pos or (x.args[0] == "sqrt" and positive(x.args[1]))
    if x.op == "v":
        return x.args[0] in _pos
    if x.op == "poly":
        return positive(x)
    if x.op == "ite":
        return positive(x.args[1]) and positive(x.args[2])
    return False


_cv = {}


def const_val(t):
    """the value of a closed expression of constants, square roots, logarithms and pi (else None)"""
    if t in _cv:
        return _cv[t]
    r = None
    if t.op == "c" and t.sort != "B":
        r = float(t.args[0])
    elif t.op == "v":
        r = math.pi if t.args[0] == "pi" else None
    elif t.op == "app" and t.args[0] in ("sqrt", "log") and len(t.args) == 2:
        x = const_val(t.args[1])
        r = None if x is None or x <= 0 else math.sqrt(x) if t.args[0] == "sqrt" else math.log(x)
    elif t.op == "poly":
        r = 0.0
        for m, c in t.args:
            v = float(c)
            for a, e in m:
                x = const_val(a)
                if x is None or (e < 0 and abs(x) < 1e-6):
                    v = None; break
                v *= x ** e
            if v is None:
                r = None; break
            r += v
    _cv[t] = r
    return r


def const_sign(t):
    v = const_val(t)
    return None if v is None or not 1e-6 < abs(v) < 1e9 else 1 if v > 0 else -1


def positive(t):
    t = N(t)
    if t.op == "poly" and const_sign(t) is not None:
        return const_sign(t) > 0
    p = to_poly(t)
    if not p:
        return False
    if t.op == "ite":
        return pos_atom(t)
    def ok(m, strict):
        return all((pos_atom(x) or (x.op == "poly" and positive(x))) if (strict or e < 0) else (pos_atom(x) or nonneg_atom(x) or e % 2 == 0) for x, e in m)
    return all(c > 0 for c in p.values()) and all(ok(m, False) for m in p) and any(ok(m, True) for m in p)


def nonneg(t):
    t = N(t)
    p = to_poly(t)
    return all(c > 0 for c in p.values()) and all(all(e % 2 == 0 or nonneg_atom(x) or pos_atom(x) for x, e in m) for m in p)


def sqrt_(a):
    p = to_poly(a)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        out = [_sqrt_const(c)]
        rest = []
        for x, e in m:
            if e % 2 == 0 and (e // 2) % 2 == 0:
                out.append(powi(x, e // 2))
            elif e % 2 == 0:
                out.append(powi(abs_(x), e // 2))
            elif nonneg_atom(x) or pos_atom(x):
                h, r = divmod(abs(e), 2)
                s = mk("app", ("sqrt", x), "R")
                if e > 0:
                    out.append(powi(x, h)); out.append(s)
                else:
                    out.append(powi(x, -h)); out.append(inv(s))
            else:
                rest.append((x, e))
        if rest:
            r = from_poly({tuple(rest): Fraction(1)})
            if c < 0:
                return mk("app", ("sqrt", a), "R")
            out.append(mk("app", ("sqrt", r), "R"))
        return mul(*out)
    lead = abs(lead_sign(p))
    q = from_poly({m: c / lead for m, c in p.items()})
    return mul(_sqrt_const(lead), mk("app", ("sqrt", q), "R"))


def _sqrt_const(c):
    c = Fraction(c)
    if c < 0:
        return mk("app", ("sqrt", N(c)), "R")
    def split(n):
        s = 1
        d = 2
        while d * d <= n and d < 2000:
            while n % (d * d) == 0:
                n //= d * d; s *= d
            d += 1
        r = math.isqrt(n)
        if r * r == n:
            return s * r, 1
        return s, n
    a, x = split(c.numerator)
    b, y = split(c.denominator)
    # sqrt(x/y) = sqrt(x*y)/y
    out = N(Fraction(a, b * y))
    z = x * y
    if z != 1:
        s, z = split(z)
        out = mul(out, N(s))
        if z != 1:
            out = mul(out, mk("app", ("sqrt", N(z)), "R"))
    return out


def log_(a):
    """log of a positive number; products of positive factors are split"""
    p = to_poly(a)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(pos_atom(x) or positive(x) for x, e in m):
            out = []
            if c != 1:
                out.append(_log_const(c))
            for x, e in m:
                if x.op == "app" and x.args[0] == "exp":
                    out.append(mul(N(e), x.args[1]))
                elif x.op == "app" and x.args[0] == "sqrt":
                    out.append(mul(N(Fraction(e, 2)), log_(x.args[1])))
                else:
                    out.append(mul(N(e), mk("app", ("log", x), "R")))
            return add(*out) if out else ZERO
    return mk("app", ("log", a), "R")


def _log_const(c):
    c = Fraction(c)
    if c == 1:
        return ZERO
    out = []
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while n > 1 and d < 2000:
            while n % d == 0:
                n //= d; out.append(mul(N(s), mk("app", ("log", N(d)), "R")))
            d += 1
        if n > 1:
            out.append(mul(N(s), mk("app", ("log", N(n)), "R")))
    return add(*out)


def ite(c, a, b):
    c, a, b = N(c), N(a), N(b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), "I" if a.sort == b.sort == "I" else "R")


def max2(a, b):
    return ite(ge(a, b), a, b)


def min2(a, b):
    return ite(le(a, b), a, b)


# ------------------------------------------------------------ booleans
def not_(a):
    a = N(a)
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return _cmp0("lt0", neg(a.args[0]))
    if a.op == "lt0":
        return _cmp0("le0", neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return mk("not", (a,), "B")


def _flat(op, ts):
    out = []
    for t in ts:
        t = N(t)
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


_ic = {}


def _ite_conds(t):
    """conditions of the conditionals in t outside binders"""
    r = _ic.get(t)
    if r is None:
        if t.op in ("c", "var", "ho"):
            r = frozenset()
        else:
            r = frozenset().union(*[_ite_conds(a) for a in _children(t)])
            if t.op == "ite":
                r |= {t.args[0]}
        _ic[t] = r
    return r


def _choose(t, m):
    """t with the conditionals whose condition m decides replaced by their branch"""
    if not any(c in m for c in _ite_conds(t)):
        return t
    if t.op == "ite":
        if t.args[0] in m:
            return _choose(t.args[1] if m[t.args[0]] is TRUE else t.args[2], m)
        return ite(t.args[0], _choose(t.args[1], m), _choose(t.args[2], m))
    if t.op in ("le0", "lt0", "eq0"):
        return _cmp0(t.op, _choose(t.args[0], m))
    if t.op == "poly":
        return add(*[mul(N(c), *[powi(_choose(a, m), e) if a.op == "ite" else a_pow(a, e) for a, e in mm]) for mm, c in to_poly(t).items()])
    if t.op in ("and", "or"):
        return (and_ if t.op == "and" else or_)(*[_choose(a, m) for a in t.args])
    return t


def a_pow(a, e):
    return from_poly({((a, e),): Fraction(1)})


def _propagate(s, val):
    """the members of a conjunction (val true) or disjunction (val false) simplified by the other members"""
    if not any(_ite_conds(t) for t in s):
        return None
    m = {}
    for t in s:
        m[t] = val
        m[not_(t)] = not_(val)
    out = [_choose(t, m) if _ite_conds(t) else t for t in s]
    return out if any(a is not b for a, b in zip(out, s)) else None


def and_(*ts):
    s = {}
    for t in _flat("and", ts):
        if t is FALSE:
            return FALSE
        if t is not TRUE:
            s[t] = 1
    for t in list(s):
        if not_(t) in s:
            return FALSE
    if not s:
        return TRUE
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    out = []
    ch = False
    for t in s:
        if t.op == "or":
            if any(x in s for x in t.args):
                ch = True; continue
            rest = tuple(x for x in t.args if not_(x) not in s)
            if len(rest) != len(t.args):
                ch = True; out.append(or_(*rest)); continue
        out.append(t)
    if ch:
        return and_(*out)
    r = _propagate(s, TRUE)
    if r is not None:
        return and_(*r)
    l = sorted(s, key=lambda t: t.id)
    return l[0] if len(l) == 1 else mk("and", tuple(l), "B")


def or_(*ts):
    s = {}
    for t in _flat("or", ts):
        if t is TRUE:
            return TRUE
        if t is not FALSE:
            s[t] = 1
    for t in list(s):
        if not_(t) in s:
            return TRUE
    if not s:
        return FALSE
    out = []
    ch = False
    for t in s:
        if t.op == "and":
            if any(x in s for x in t.args):
                ch = True; continue
            rest = tuple(x for x in t.args if not_(x) not in s)
            if len(rest) != len(t.args):
                ch = True; out.append(and_(*rest)); continue
        out.append(t)
    if ch:
        return or_(*out)
    r = _propagate(s, FALSE)
    if r is not None:
        return or_(*r)
    l = sorted(s, key=lambda t: t.id)
    return l[0] if len(l) == 1 else mk("or", tuple(l), "B")


def imp(a, b):
    return or_(not_(a), b)


def iff(a, b):
    a, b = N(a), N(b)
    if a is b:
        return TRUE
    return or_(and_(a, b), and_(not_(a), not_(b)))


def _cmp0(op, t):
    """op in le0, lt0, eq0 applied to the number t"""
    if t.op == "c":
        v = t.args[0]
        return B(v <= 0 if op == "le0" else v < 0 if op == "lt0" else v == 0)
    if t.op == "ite" and (is_c(t.args[1]) or is_c(t.args[2])):
        return or_(and_(t.args[0], _cmp0(op, t.args[1])), and_(not_(t.args[0]), _cmp0(op, t.args[2])))
    cs = const_sign(t)
    if cs is not None:
        return B(cs < 0 if op != "eq0" else False)
    p = to_poly(t)
    # a comparison of a single conditional against a constant is split
    if len(p) == 2 and () in p:
        (m, c), = [x for x in p.items() if x[0]]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and (is_c(m[0][0].args[1]) or is_c(m[0][0].args[2])):
            i = m[0][0]
            f = lambda x: _cmp0(op, add(mul(N(c), x), N(p[()])))
            return or_(and_(i.args[0], f(i.args[1])), and_(not_(i.args[0]), f(i.args[2])))
    # strictly increasing functions preserve the order
    one = p.get((), 0)
    if len(p) == 2 and one == 0 or len(p) == 3 and one == 1 and op == "le0":
        (m1, c1), (m2, c2) = [x for x in p.items() if x[0]]
        if c1 == -c2 and (one == 0 or abs(c1) == 1) and len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1:
            a, b = m1[0][0], m2[0][0]
            if a.op == "app" and b.op == "app" and a.args[0] == b.args[0] and a.args[0] in _incr and len(a.args) == 2 and len(b.args) == 2 and (one == 0 or a.sort == "I"):
                d = sub(a.args[1], b.args[1])
                d = d if c1 > 0 else neg(d)
                return _cmp0("le0", add(d, ONE)) if op == "lt0" or one == 1 else _cmp0(op, d)
    # common positive factors of all monomials can be dropped
    if len(p) >= 1:
        ms = list(p)
        common = dict(ms[0])
        for m in ms[1:]:
            d = dict(m)
            common = {x: e for x, e in common.items() if d.get(x) == e}
        common = {x: e for x, e in common.items() if pos_atom(x)}
        if common and not (len(ms) == 1 and len(common) == len(ms[0]) and False):
            ci = tuple(sorted(((x, -e) for x, e in common.items()), key=lambda x: x[0].id))
            p = {_mmul(m, ci): c for m, c in p.items()}
            t = from_poly(p)
            if t.op == "c":
                return _cmp0(op, t)
    l = lead_sign(p)
    if op == "eq0":
        t = from_poly({m: c / l for m, c in p.items()})
        if positive(t) or positive(neg(t)):
            return FALSE
        if len(p) == 1 and len(list(p)[0]) > 1 and all(e > 0 for _, e in list(p)[0]):   # product = 0
            return or_(*[_cmp0("eq0", x) for x, _ in list(p)[0]])
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] > 1:
                return _cmp0("eq0", m[0][0])
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].args[0] == "abs":
                return _cmp0("eq0", m[0][0].args[1])
        return mk("eq0", (t,), "B")
    if t.sort == "I":
        g = 0
        for m, c in p.items():
            if m:
                g = math.gcd(g, int(c))
        c0 = p.get((), Fraction(0)) + (1 if op == "lt0" else 0)   # t < 0  <=>  t + 1 <= 0
        q = {m: c / g for m, c in p.items() if m}
        k = Fraction(math.ceil(c0 / g))
        if k:
            q[()] = k
        return mk("le0", (from_poly(q),), "B")
    t = from_poly({m: c / abs(l) for m, c in p.items()})
    if op == "le0":
        if nonneg(neg(t)):
            return TRUE
        if positive(t):
            return FALSE
    else:
        if positive(neg(t)):
            return TRUE
        if nonneg(t):
            return FALSE
    return mk(op, (t,), "B")


def le(a, b):
    return _cmp0("le0", sub(N(a), N(b)))


def lt(a, b):
    return _cmp0("lt0", sub(N(a), N(b)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    a, b = N(a), N(b)
    if a.sort == "B":
        return iff(a, b)
    return _cmp0("eq0", sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


# ------------------------------------------------------------ binders
# ('ho', kind, n, guard, body): the bound index '#d' ranges over 0..n-1
#   kinds: sum, prod, max, min (over guarded elements), ex (guard only),
#          argmax (first index of the guarded maximum), first/last (index),
#          fold: args (n, inits, steps, comp); states '#d.j' , index '#d'

def depth(t):
    if t._d is None:
        d = 0
        if t.op == "v":
            nm = t.args[0]
            t._d = 0
            return 0
        for a in _children(t):
            d = max(d, depth(a))
        if t.op == "ho":
            d += 1
        t._d = d
    return t._d


def _children(t):
    if t.op in ("c", "v"):
        return ()
    if t.op == "poly":
        return tuple(a for m, c in t.args for a, e in m)
    if t.op == "app":
        return t.args[1:]
    if t.op == "ho":
        if t.args[0] == "fold":
            return (t.args[1],) + t.args[2] + t.args[3]
        return t.args[1:]
    return t.args


def fv(t):
    """free variables (including bound-variable names free in t)"""
    if t._fv is None:
        if t.op == "v":
            t._fv = frozenset([t])
        else:
            s = frozenset()
            for a in _children(t):
                s |= fv(a)
            if t.op == "ho":
                pre = "#%d" % bdepth(t)
                body = frozenset()
                n = t.args[1]
                for a in (_children(t)[1:]):
                    body |= fv(a)
                s = fv(n) | frozenset(v for v in body if not (v.args[0] == pre or v.args[0].startswith(pre + ".")))
                if t.args[0] == "fold":
                    for a in t.args[2]:
                        s |= fv(a)
            t._fv = s
    return t._fv


def bdepth(t):
    """the binder number of a 'ho' node"""
    if t.args[0] == "fold":
        return 1 + max([depth(a) for a in t.args[3]] + [0])
    return 1 + max(depth(t.args[2]), depth(t.args[3]))


def _in_range(t, x, n):
    """t for 0 <= x < n: the comparisons of x with its range are decided"""
    m = {le(ZERO, x): TRUE, lt(x, ZERO): FALSE}
    if x not in fv(n):
        m[lt(x, n)] = TRUE
        m[ge(x, n)] = FALSE
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if t.op in ("c", "v", "ho") or x not in fv(t):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "poly":
            subs = {a: go(a) for mo, c in t.args for a, e in mo}
            r = t if all(a is b for a, b in subs.items()) else add(*[mul(N(c), *[powi(subs[a], e) for a, e in mo]) for mo, c in t.args])
        elif op in ("le0", "lt0", "eq0"):
            a = go(t.args[0])
            r = t if a is t.args[0] else _cmp0(op, a)
        elif op in ("and", "or", "ite", "not"):
            ar = [go(a) for a in t.args]
            r = t if all(a is b for a, b in zip(ar, t.args)) else {"and": and_, "or": or_, "ite": ite, "not": not_}[op](*ar)
        elif op == "app":
            ar = [go(a) if isinstance(a, T) else a for a in t.args[1:]]
            r = t if all(a is b for a, b in zip(ar, t.args[1:])) else app(t.args[0], ar, t.sort)
        else:
            r = t
        memo[t] = r
        return r
    return go(t)


def ho(kind, n, guard, body, x):
    """binds the variable x (sort I) in guard and body; range 0..n-1"""
    n, guard, body = N(n), N(guard), N(body)
    guard, body = _in_range(guard, x, n), _in_range(body, x, n)
    if guard.op == "and" or guard.op in ("le0", "lt0"):
        # the range of the binder itself
        rng = (le(ZERO, x), lt(x, n))
        cs = guard.args if guard.op == "and" else (guard,)
        if any(c in rng for c in cs):
            guard = and_(*[c for c in cs if c not in rng])
    if n.op == "c" and n.args[0] <= 0 or guard is FALSE:
        if kind in ("sum",):
            return ZERO
        if kind == "ex":
            return FALSE
        if kind == "prod":
            return ONE
    if kind == "ex":
        guard = guard if body is ONE else and_(guard, body)
        body = ONE
        if guard is FALSE:
            return FALSE
        if guard.op == "or":
            return or_(*[ho("ex", n, g, TRUE, x) for g in guard.args])
        if guard.op == "and":
            out = [g for g in guard.args if x not in fv(g)]
            if out:
                return and_(ho("ex", n, and_(*[g for g in guard.args if x in fv(g)]), TRUE, x), *out)
        if x not in fv(guard):
            return and_(guard, gt(n, 0))
        if n.op == "c" and n.args[0] <= 4:
            return or_(*[subst(guard, {x: N(i)}) for i in range(int(n.args[0]))])
    if kind == "sum":
        if n.op == "c" and n.args[0] <= 4:
            return add(*[ite(subst(guard, {x: N(i)}), subst(body, {x: N(i)}), ZERO) for i in range(int(n.args[0]))])
        if body is ONE and guard is TRUE and nonneg(n):
            return n
        p = to_poly(body)
        if body.op == "ite" and body.args[2] is ZERO:
            return ho("sum", n, and_(guard, body.args[0]), body.args[1], x)
        if body.op == "ite" and body.args[1] is ZERO:
            return ho("sum", n, and_(guard, not_(body.args[0])), body.args[2], x)
        if len(p) > 1:
            return add(*[ho("sum", n, guard, from_poly({m: c}), x) for m, c in p.items()])
        if not p:
            return ZERO
        (m, c), = p.items()
        # constants and factors without the bound variable go outside
        outm = tuple((a, e) for a, e in m if x not in fv(a))
        inm = tuple((a, e) for a, e in m if x in fv(a))
        if outm or c != 1:
            return mul(from_poly({outm: c}), ho("sum", n, guard, from_poly({inm: Fraction(1)}), x))
        for i, e in inm:
            # a factor that is zero on one side restricts the sum
            if i.op == "ite" and e > 0 and (i.args[1] is ZERO or i.args[2] is ZERO):
                g, v = (not_(i.args[0]), i.args[2]) if i.args[1] is ZERO else (i.args[0], i.args[1])
                rest = mul(*[powi(a, f) for a, f in inm if a is not i], powi(v, e))
                return ho("sum", n, and_(guard, g), rest, x)
    if kind in ("max", "min") and guard is TRUE and n.op == "c" and 1 <= n.args[0] <= 4:
        r = subst(body, {x: ZERO})
        for i in range(1, int(n.args[0])):
            v = subst(body, {x: N(i)})
            r = max2(r, v) if kind == "max" else min2(r, v)
        return r
    if kind in ("max", "min"):
        # the extremum of an increasing function is its value at the first or last position (undefined when there is none)
        p = to_poly(body)
        r = [(m, c) for m, c in p.items() if m]
        if len(r) == 1 and len(r[0][0]) == 1 and r[0][0][0][1] == 1:
            f, c = r[0][0][0][0], r[0][1]
            if f.op == "app" and len(f.args) == 2 and f.args[0] in _incr and f.args[1] is x:
                at = ho("first" if (kind == "min") == (c > 0) else "last", n, guard, TRUE, x)
                return add(mul(N(c), mk("app", (f.args[0], at), f.sort)), N(p.get((), 0)))
    if kind == "sum" and guard.op == "and":
        out = [g for g in guard.args if x not in fv(g)]
        if out:
            return ite(and_(*out), ho(kind, n, and_(*[g for g in guard.args if x in fv(g)]), body, x), ZERO)
    if kind == "sum" and guard is not TRUE and x not in fv(guard):
        return ite(guard, ho(kind, n, TRUE, body, x), ZERO)
    d = 1 + max(depth(guard), depth(body))
    b = var("#%d" % d, "I")
    guard, body = subst(guard, {x: b}), subst(body, {x: b})
    d2 = 1 + max(depth(guard), depth(body))
    if d2 != d:   # normalisation changed the depth; rename again
        b2 = var("#%d" % d2, "I")
        guard, body = subst(guard, {b: b2}), subst(body, {b: b2})
    if kind == "ex":
        sort = "B"
    elif kind in ("first", "last", "argmax"):
        sort = "I"
    else:
        sort = body.sort
    return mk("ho", (kind, n, guard, body), sort)


def fold(n, inits, steps, states, x, comp):
    """component comp of the state after n steps; step j uses index x and states"""
    n = N(n)
    inits = tuple(N(a) for a in inits)
    steps = tuple(N(a) for a in steps)
    if n.op == "c" and n.args[0] <= 0:
        return inits[comp]
    d = 1 + max(depth(a) for a in steps)
    ren = {x: var("#%d" % d, "I")}
    for j, s in enumerate(states):
        ren[s] = var("#%d.%d" % (d, j), s.sort)
    steps = tuple(subst(a, ren) for a in steps)
    return mk("ho", ("fold", n, inits, steps, comp), inits[comp].sort if inits[comp].sort == steps[comp].sort else "R")


def fold_step(t, k, states):
    """the step terms of a fold node at index k with the given states"""
    d = bdepth(t)
    ren = {var("#%d" % d, "I"): N(k)}
    for j, s in enumerate(states):
        for so in ("I", "R", "B"):
            ren[var("#%d.%d" % (d, j), so)] = s
    return [subst(a, ren) for a in t.args[3]]


def open_(t, k):
    """(guard, body) of a binder node at index k"""
    v = var("#%d" % bdepth(t), "I")
    return subst(t.args[2], {v: N(k)}), subst(t.args[3], {v: N(k)})


def subst(t, m):
    m = {k: N(v) for k, v in m.items() if k is not v}
    if not m:
        return t
    return _subst(t, m, {})


def _subst(t, m, memo):
    if not any(v in m for v in fv(t)):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    f = lambda a: _subst(a, m, memo)
    if op == "v":
        r = m.get(t, t)
    elif op == "poly":
        out = []
        for mo, c in t.args:
            out.append(mul(N(c), *[powi(f(a), e) for a, e in mo]))
        r = add(*out)
    elif op == "app":
        r = app(t.args[0], [f(a) for a in t.args[1:]], t.sort)
    elif op == "ite":
        r = ite(*[f(a) for a in t.args])
    elif op == "and":
        r = and_(*[f(a) for a in t.args])
    elif op == "or":
        r = or_(*[f(a) for a in t.args])
    elif op == "not":
        r = not_(f(t.args[0]))
    elif op in ("le0", "lt0", "eq0"):
        r = _cmp0(op, f(t.args[0]))
    elif op == "ho":
        kind = t.args[0]
        d = bdepth(t)
        if kind == "fold":
            x = fresh("b", "I")
            nst = len(t.args[3])
            sts = [fresh("s", "B" if t.args[2][j].sort == "B" else "R") for j in range(nst)]
            steps = fold_step(t, x, sts)
            r = fold(f(t.args[1]), [f(a) for a in t.args[2]], [_subst(a, m, {}) for a in steps], sts, x, t.args[4])
        else:
            x = fresh("b", "I")
            g, b = open_(t, x)
            r = ho(kind, f(t.args[1]), _subst(g, m, {}), _subst(b, m, {}), x)
    else:
        raise AssertionError(op)
    memo[t] = r
    return r


# ------------------------------------------------------------ printing
def show(t, d=0):
    if d > 12:
        return "..."
    f = lambda a: show(a, d + 1)
    op = t.op
    if op == "c":
        return str(t.args[0])
    if op == "v":
        return t.args[0]
    if op == "poly":
        out = []
        for m, c in t.args:
            fs = [("%s" % f(a) if e == 1 else "%s^%d" % (f(a), e)) for a, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "app":
        return t.args[0] + "(" + ", ".join(f(a) for a in t.args[1:]) + ")"
    if op == "le0":
        return "%s <= 0" % f(t.args[0])
    if op == "lt0":
        return "%s < 0" % f(t.args[0])
    if op == "eq0":
        return "%s == 0" % f(t.args[0])
    if op == "not":
        return "!(%s)" % f(t.args[0])
    if op in ("and", "or"):
        return "(" + (" & " if op == "and" else " | ").join(f(a) for a in t.args) + ")"
    if op == "ite":
        return "if(%s, %s, %s)" % tuple(f(a) for a in t.args)
    if op == "ho":
        if t.args[0] == "fold":
            return "fold.%d[#%d<%s; init %s; step %s]" % (t.args[4], bdepth(t), f(t.args[1]), [f(a) for a in t.args[2]], [f(a) for a in t.args[3]])
        return "%s[#%d<%s | %s : %s]" % (t.args[0], bdepth(t), f(t.args[1]), f(t.args[2]), f(t.args[3]))
    return op


# ------------------------------------------------------------ evaluation
def ev(t, env, memo=None):
    """concrete value; env maps variable names to values and function names to callables"""
    if memo is None:
        memo = {}
    return _ev(t, env, memo)


class EvalError(Exception):
    pass


def _ev(t, env, memo):
    key = t if not any(v.args[0].startswith("#") for v in fv(t)) else None
    if key is not None and key in memo:
        return memo[key]
    r = _ev1(t, env, memo)
    if key is not None:
        memo[key] = r
    return r


_fns = dict(sqrt=lambda x: math.sqrt(x) if x >= 0 else math.nan, abs=abs, log=lambda x: math.log(x) if x > 0 else math.nan, exp=math.exp,
            floor=math.floor, idiv=lambda a, b: math.floor(Fraction(a) / Fraction(b)) if b else math.nan, powr=lambda a, b: Fraction(a) ** int(b) if a or b > 0 else 1 if b == 0 else math.nan, inv0=lambda: math.nan)


def _ev1(t, env, memo):
    f = lambda a: _ev(a, env, memo)
    op = t.op
    if op == "c":
        return t.args[0]
    if op == "v":
        if t.args[0] == "pi":
            return math.pi
        if t.args[0] not in env:
            raise EvalError(t.args[0])
        return env[t.args[0]]
    if op == "poly":
        s = 0
        for m, c in t.args:
            x = c
            for a, e in m:
                v = f(a)
                if e < 0:
                    if v == 0:
                        x = math.nan; break
                    x = x * (Fraction(1) / Fraction(v) ** -e if isinstance(v, (int, Fraction)) else 1.0 / v ** -e)
                else:
                    x = x * v ** e
            s = s + x
        return s
    if op == "app":
        if t.args[0] in _def:
            return _def[t.args[0]][0](lambda u: _ev(u, env, memo), [f(a) for a in t.args[1:]])
        g = env.get(t.args[0]) or _fns.get(t.args[0])
        if g is None:
            raise EvalError(t.args[0])
        return g(*[f(a) for a in t.args[1:]])
    if op == "ite":
        return f(t.args[1]) if f(t.args[0]) else f(t.args[2])
    if op == "and":
        return all(f(a) for a in t.args)
    if op == "or":
        return any(f(a) for a in t.args)
    if op == "not":
        return not f(t.args[0])
    if op in ("le0", "lt0", "eq0"):
        v = f(t.args[0])
        if not isinstance(v, float):
            return v <= 0 if op == "le0" else v < 0 if op == "lt0" else v == 0
        if v != v:
            raise EvalError("undefined value")
        # floats come from square roots and logarithms: equal up to rounding
        scale = 1.0
        if t.args[0].op == "poly":
            for m, c in t.args[0].args:
                x = abs(float(c))
                for a, e in m:
                    x *= abs(float(f(a))) ** e
                scale = max(scale, x)
        near = abs(v) <= 1e-9 * scale
        if op == "eq0":
            return near
        if near:
            raise EvalError("too close to call in machine floats")
        return v < 0
    if op == "ho":
        kind = t.args[0]
        n = int(f(t.args[1]))
        nm = "#%d" % bdepth(t)
        e2 = dict(env)
        if kind == "fold":
            st = [f(a) for a in t.args[2]]
            for k in range(n):
                e2[nm] = k
                for j, s in enumerate(st):
                    e2["%s.%d" % (nm, j)] = s
                st = [_ev(a, e2, {}) for a in t.args[3]]
            return st[t.args[4]]
        vals = []
        for k in range(n):
            e2[nm] = k
            if _ev(t.args[2], e2, {}):
                if kind == "ex":
                    return True
                vals.append((k, _ev(t.args[3], e2, {})))
        if kind == "ex":
            return False
        if kind == "sum":
            return sum(v for _, v in vals)
        if kind == "prod":
            return math.prod(v for _, v in vals)
        if kind == "max":
            return max([v for _, v in vals]) if vals else math.nan
        if kind == "min":
            return min([v for _, v in vals]) if vals else math.nan
        if kind == "first":
            return vals[0][0] if vals else n
        if kind == "last":
            return vals[-1][0] if vals else -1
        if kind == "argmax":
            return max(vals, key=lambda x: (x[1], -x[0]))[0] if vals else 0
        raise AssertionError(kind)
    raise AssertionError(op)


def lets(t):
    """printing with shared binder nodes named (debugging)"""
    names, out = {}, []
    def f(t):
        if t in names:
            return names[t]
        op = t.op
        if op == "ho":
            s = "%s[#%d<%s | %s : %s]" % (t.args[0], bdepth(t), f(t.args[1]), f(t.args[2]), f(t.args[3])) if t.args[0] != "fold" else "fold.%d[#%d<%s; %s; %s]" % (t.args[4], bdepth(t), f(t.args[1]), [f(a) for a in t.args[2]], [f(a) for a in t.args[3]])
            nm = "H%d" % len(names)
            names[t] = nm
            out.append("%s := %s" % (nm, s))
            return nm
        if op == "poly":
            return "(" + " + ".join("*".join(([str(c)] if c != 1 or not m else []) + ["%s%s" % (f(a), "" if e == 1 else "^%d" % e) for a, e in m]) for m, c in t.args) + ")"
        if op == "app":
            return t.args[0] + "(" + ", ".join(f(a) for a in t.args[1:]) + ")"
        if op in ("le0", "lt0", "eq0"):
            return f(t.args[0]) + {"le0": "<=0", "lt0": "<0", "eq0": "=0"}[op]
        if op == "not":
            return "!" + f(t.args[0])
        if op in ("and", "or"):
            return "(" + (" & " if op == "and" else " | ").join(f(a) for a in t.args) + ")"
        if op == "ite":
            return "if(%s, %s, %s)" % tuple(f(a) for a in t.args)
        return show(t)
    r = f(t)
    return "\n      ".join(out + [r])
