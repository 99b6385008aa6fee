"""Symbolic execution of the real source of /repo.

The functions are taken from /repo's files on every run (the module is imported
and the text of the function is parsed); nothing is rewritten by hand.  Calls to
functions of the repository are executed, calls to libraries go through the
contract table (lib.py); anything else is Unsupported.
"""
import ast, inspect, builtins, types, operator, itertools
from . import term as tm
from .term import *
from . import dom
from .dom import *
from .prove import Prover

_trees = {}


def tree_of(filename):
    t = _trees.get(filename)
    if t is None:
        with open(filename) as f:
            t = ast.parse(f.read())
        _trees[filename] = t
    return t


_defs = {}


def def_of(fn):
    """the AST of a function object"""
    code = fn.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    d = _defs.get(key)
    if d is None:
        for n in ast.walk(tree_of(code.co_filename)):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = min([n.lineno] + [x.lineno for x in getattr(n, "decorator_list", [])])
                nm = getattr(n, "name", "<lambda>")
                if nm == code.co_name and line == code.co_firstlineno:
                    d = n
                    break
        if d is None:
            raise Unsupported("source of %s not found" % code.co_name)
        _defs[key] = d
    return d


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Prune(Exception):
    """an infeasible path"""


class Undef:
    """a variable whose value after a loop is not determined"""

    def __init__(self, why): self.why = why


class Closure:
    """a function defined by the interpreted program"""

    def __init__(self, node, env, glob, defaults=(), kwd=None, cls=None):
        self.node, self.env, self.glob, self.defaults, self.kwd, self.cls = node, env, glob, defaults, kwd, cls

    def __repr__(self): return "<closure %s>" % getattr(self.node, "name", "lambda")


class Bound:
    def __init__(self, fn, obj, owner=None): self.fn, self.obj, self.owner = fn, obj, owner


class SymRange:
    def __init__(self, lo, hi): self.lo, self.hi = N(lo), N(hi)


class SymEnum:
    """an iterable of symbolic length: element at coordinate k"""

    def __init__(self, lo, hi, g, f): self.lo, self.hi, self.g, self.f = lo, hi, g or (lambda k: TRUE), f


class RecList(list):
    """list appended to inside a summarised loop"""

    def __init__(self, orig): super().__init__(); self.orig = orig


class Str:
    """a string that depends on symbolic values (only for messages)"""


class Ctx:
    def __init__(self, hyps=(), decisions=(), prover=None):
        self.hyps = list(hyps)
        self.base = len(self.hyps)
        self.decisions = list(decisions)
        self.pos = 0
        self.prover = prover
        self.alts = []
        self.obls = []
        self.frames = []
        self.called = {}
        self.libs = {}
        self.contracts = {}
        self.loops = []
        self.unique = set()
        self.counted = {}
        self.fuel = 200000
        self.stores = None
        self.assumed = {}
        self.attrs = []         # reads and writes of objects' attributes outside their construction
        self.building = 0

    # ---- facts
    def known(self, t):
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        hs = self.hyps
        if t in hs:
            return True
        return self.prover.quick(self.relevant(t), t, 250)

    def relevant(self, t):
        return self.hyps

    def known_nonneg(self, v):
        return self.known(le(ZERO, v))

    def truth(self, x):
        t = boolt(x) if isinstance(x, Sc) else x
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if self.known(t):
            return True
        if self.known(not_(t)):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(True)
            self.alts.append(len(self.decisions) - 1)
        self.pos += 1
        self.hyps.append(t if d else not_(t))
        return d

    def require(self, t, name):
        if t is TRUE or self.known(t):
            self.obls.append((name, list(self.hyps), t, True))
            return
        self.obls.append((name, list(self.hyps), t, None))
        self.hyps.append(t)

    def bounds(self, t, name):
        # out-of-bounds positions raise (or, in compiled kernels, are undefined): never allowed
        self.require(t, name)

    def bounds_all(self, seq, f, name):
        k = fresh("b", "I")
        s = seq.e(k)
        t = imp(seq.inr(k), f(s))
        if self.known(t):
            self.obls.append((name, list(self.hyps), t, True))
            return
        self.obls.append((name, list(self.hyps), t, None))

    def require_all(self, seq, f, exc, name):
        k = fresh("b", "I")
        s = seq.e(k)
        if self.known(imp(seq.inr(k), f(s))):
            return
        self.require_or_raise(all_(seq, lambda q: f(seq.e(q))), exc, name)

    def require_or_raise(self, t, exc, name):
        if t is TRUE:
            return
        if not self.truth(t):
            raise PyRaise(exc, name)

    def frame(self, own):
        self.frames.append((own, list(self.hyps)))

    def missing_attr(self, f, nm):
        raise Unsupported("frame attribute %s" % nm)

    def index_unique(self, ix):
        u = getattr(ix.space, "unique", None)
        return True if u is None else Sc(u)

    def log_store(self, *a):
        pass

    def head_count(self, s, count):
        """a selection that keeps exactly a head: its size says which positions it keeps"""
        if count.op != "ho" or count in self.counted:
            return
        self.counted[count] = 1
        k = fresh("z", "I")
        a, b = s.g(k), s.g(add(k, ONE))
        n = sub(s.hi, s.lo)
        if self.prover.prove(self.hyps + [le(s.lo, k), lt(add(k, ONE), s.hi), b], a, 1, 1000)[0]:
            q = fresh("q", "I")
            self.hyps += [le(ZERO, count), imp(le(ZERO, n), le(count, n)),
                          not_(ho("ex", n, not_(iff(lt(q, count), s.g(add(s.lo, q)))), TRUE, q))]

    def densify(self, s, closed=True):
        """rewrites a selection that is a head or a tail as a slice"""
        k = fresh("z", "I")
        g = s.g(k)
        rng = and_(le(s.lo, k), lt(k, s.hi))
        cands = []
        memo = set()
        def go(t):
            if t in memo:
                return
            memo.add(t)
            if t.op in ("eq0", "le0"):
                p = to_poly(t.args[0])
                c = p.get(((k, 1),))
                if c in (1, -1):
                    d = sub(k, mul(N(c), t.args[0]))
                    if k not in fv(d):
                        for off in (0, 1, -1):
                            cands.append(add(d, N(off)))
            for a in tm._children(t):
                go(a)
        go(g)
        cands = list(dict.fromkeys(cands))[:12]
        def mk_(lo, hi):
            if isinstance(s, Index):
                return Index(s.space, lo, hi, name=s.name)
            if isinstance(s, Series):
                return Series(Index(s._index.space, lo, hi), s.e, s.dt, s.own, s.name)
            return Seq(lo, hi, None, s.e, s.dt)
        for c in cands:
            if self.known(imp(rng, iff(g, le(c, k)))):
                c2 = c if self.known(and_(le(s.lo, c), le(c, s.hi))) else max_t(s.lo, min_t(c, s.hi))
                return mk_(c2, s.hi)
            if self.known(imp(rng, iff(g, lt(k, c)))):
                c2 = c if self.known(and_(le(s.lo, c), le(c, s.hi))) else max_t(s.lo, min_t(c, s.hi))
                return mk_(s.lo, c2)
        if not closed:
            return None
        # upward closed selection: the last `count` positions
        g1 = s.g(add(k, ONE))
        ok, _, _ = self.prover.prove(self.hyps + [le(s.lo, k), lt(add(k, ONE), s.hi), g], g1, 1, 1500)
        if ok:
            n = s.length()
            lo = sub(s.hi, n)
            # the count of an upward closed selection says where it starts
            q = fresh("q", "I")
            at = add(s.lo, q)
            self.hyps += [le(s.lo, lo), le(lo, s.hi), not_(ho("ex", sub(s.hi, s.lo), not_(iff(le(lo, at), s.g(at))), TRUE, q))]
            self.upclosed = getattr(self, "upclosed", [])
            self.upclosed.append((s.lo, s.hi, s.g, lo))
            return mk_(lo, s.hi)
        return None

    def call(self, fn, args, kw):
        return self.interp.call(fn, args, kw)

    # iteration budget
    def step(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("too many steps")


UNSUP = object()


class Interp:
    def __init__(self, ctx, lib, overrides=None):
        self.ctx = ctx
        ctx.interp = self
        self.lib = lib
        self.over = overrides or {}
        self.loop_contracts = {}
        self.depth = 0

    # ---------------------------------------------------------- calls
    def call(self, fn, args, kw):
        self.ctx.step()
        ov = self.over.get(self._key(fn))
        if ov is not None:
            self.ctx.contracts[getattr(fn, "__qualname__", str(fn))] = 1
            return ov(self, args, kw)
        if isinstance(fn, Closure):
            return self.run_def(fn.node, fn.glob, fn.env, fn.defaults, fn.kwd, args, kw, fn.cls)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.obj] + list(args), kw)
        if isinstance(fn, types.MethodType):
            f = fn.__func__
            if hasattr(f, "py_func") or (isinstance(f, types.FunctionType) and self.in_repo(f)):
                return self.call(f, [fn.__self__] + list(args), kw)
            h = self.lib.get(self._key(fn))
            if h is not None:
                return h(self, args, kw)
            if self.is_dom(fn.__self__):
                return fn(*args, **kw)
        if hasattr(fn, "py_func"):
            fn = fn.py_func
        if isinstance(fn, types.FunctionType) and fn.__code__.co_filename.replace("\\", "/").endswith("sklearn/utils/_set_output.py") and hasattr(fn, "__wrapped__"):
            # without a set_output configuration the wrapper returns the wrapped result
            self.ctx.libs["sklearn.utils._set_output wrapper"] = 1
            fn = fn.__wrapped__
        h = self.lib.get(self._key(fn))
        if h is not None:
            nm = getattr(fn, "__module__", None)
            self.ctx.libs["%s.%s" % (nm or type(fn).__module__, getattr(fn, "__name__", str(fn)))] = 1
            return h(self, args, kw)
        if isinstance(fn, types.FunctionType) and self.in_repo(fn):
            self.ctx.called["%s:%s" % (fn.__module__, fn.__qualname__)] = 1
            return self.run_def(def_of(fn), fn.__globals__, self.cells(fn), fn.__defaults__ or (), fn.__kwdefaults__, args, kw, None, fn)
        if isinstance(fn, type):
            return self.construct(fn, args, kw)
        if isinstance(fn, types.FunctionType) and fn.__module__ and fn.__module__.startswith("vf."):
            return fn(*args, **kw)
        if callable(fn) and isinstance(fn, (types.BuiltinMethodType,)) and self.is_dom(getattr(fn, "__self__", None)):
            return fn(*args, **kw)
        if isinstance(fn, (types.BuiltinMethodType, types.BuiltinFunctionType)) and isinstance(getattr(fn, "__self__", None), (list, dict, set, str, tuple)) or isinstance(fn, type(str.join)):
            # methods of concrete containers may hold symbolic elements
            if getattr(fn, "__name__", "") in ("append", "extend", "insert", "pop", "keys", "values", "items", "get", "update", "copy", "reverse", "setdefault", "clear"):
                return fn(*args, **kw)
            if getattr(fn, "__name__", "") in ("index", "count", "remove", "add", "union", "issubset", "issuperset", "difference", "intersection", "join", "split", "strip", "format", "startswith", "endswith", "upper", "lower", "discard", "tolist", "sort"):
                if not self.has_dom(args) and not self.has_dom(fn.__self__):
                    return fn(*args, **kw)
        if hasattr(fn, "sym_call"):
            return fn.sym_call(self, args, kw)
        if not self.has_dom(args) and not self.has_dom(kw) and self.pure_native(fn):
            try:
                return self.wrap(fn(*args, **kw))
            except (Unsupported, PyRaise):
                raise
            except Exception as e:
                raise PyRaise(type(e), str(e))
        raise Unsupported("call of %s" % (getattr(fn, "__qualname__", None) or getattr(fn, "__name__", None) or type(fn).__name__))

    def pure_native(self, fn):
        m = getattr(fn, "__module__", None) or type(fn).__module__
        if getattr(fn, "__self__", None) is not None and not isinstance(fn.__self__, types.ModuleType):
            m = type(fn.__self__).__module__
        return m.split(".")[0] in ("builtins", "math", "numpy", "pandas", "itertools", "re", "operator", "inspect", "types", "_operator", "functools", "talib", "sklearn", "datetime")

    def wrap(self, x):
        if isinstance(x, float):
            if x != x:
                return NANS
            return sc(x) if x not in (float("inf"), float("-inf")) else Inf(1 if x > 0 else -1)
        return x

    def _key(self, fn):
        try:
            hash(fn)
            return fn
        except TypeError:
            return id(fn)

    def in_repo(self, f):
        return (f.__module__ or "").startswith("mizarlabs") or "/mizarlabs/" in f.__code__.co_filename

    def is_dom(self, x):
        return isinstance(x, (Sc, Seq, Mat, Frame, ColVec, Rolling, Ewm, ILoc, Loc, SymRange, SymEnum, Columns)) or getattr(type(x), "__module__", "").startswith("vf.")

    def has_dom(self, x, d=0):
        if self.is_dom(x) or isinstance(x, (T, Closure, Inf)):
            return True
        if d > 4:
            return False
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(self.has_dom(y, d + 1) for y in x)
        if isinstance(x, dict):
            return any(self.has_dom(y, d + 1) for y in x.values()) or any(self.has_dom(y, d + 1) for y in x)
        return False

    def cells(self, fn):
        env = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    env[n] = c.cell_contents
                except ValueError:
                    pass
        return env

    def construct(self, cls, args, kw):
        if issubclass(cls, BaseException):
            return PyRaise(cls, "")
        if not (cls.__module__ or "").startswith("mizarlabs"):
            raise Unsupported("construction of %s" % cls.__name__)
        obj = object.__new__(cls)
        init = self.find_attr(cls, "__init__")
        if isinstance(init, types.FunctionType) and self.in_repo(init):
            if init.__code__.co_filename.startswith("<attrs"):
                if args or kw or len(inspect.signature(init).parameters) != 1:
                    raise Unsupported("generated constructor with attributes")
                return obj
            self.ctx.building += 1
            try:
                self.call(init, [obj] + list(args), kw)
            finally:
                self.ctx.building -= 1
        elif args or kw:
            raise Unsupported("constructor of %s" % cls.__name__)
        return obj

    def find_attr(self, cls, nm):
        for c in cls.__mro__:
            if nm in c.__dict__:
                return c.__dict__[nm]
        return None

    def run_def(self, node, glob, outer, defaults, kwd, args, kw, cls, fn=None):
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("call depth")
        try:
            env = {}
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            args = list(args)
            kw = dict(kw)
            if len(args) > len(names):
                if a.vararg is None:
                    raise PyRaise(TypeError, "too many arguments")
                env[a.vararg.arg] = tuple(args[len(names):])
                args = args[:len(names)]
            elif a.vararg is not None:
                env[a.vararg.arg] = ()
            for n, v in zip(names, args):
                env[n] = v
            nd = len(defaults)
            for i, n in enumerate(names):
                if n in env:
                    if n in kw:
                        raise PyRaise(TypeError, "repeated argument " + n)
                    continue
                if n in kw:
                    env[n] = kw.pop(n)
                else:
                    j = i - (len(names) - nd)
                    if j < 0:
                        raise PyRaise(TypeError, "missing argument " + n)
                    env[n] = self.wrap(defaults[j])
            for x in a.kwonlyargs:
                if x.arg in kw:
                    env[x.arg] = kw.pop(x.arg)
                elif kwd and x.arg in kwd:
                    env[x.arg] = self.wrap(kwd[x.arg])
                else:
                    raise PyRaise(TypeError, "missing argument")
            if a.kwarg is not None:
                env[a.kwarg.arg] = kw
            elif kw:
                raise PyRaise(TypeError, "unexpected arguments %s" % list(kw))
            fr = Frm(env, outer, glob, cls, fn)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
                fr.yields = []
            try:
                self.block(node.body, fr)
            except Ret as r:
                if fr.yields is not None:
                    return fr.yields
                return r.v
            return fr.yields if fr.yields is not None else None
        finally:
            self.depth -= 1

    # ---------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.ctx.step()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        fr.line = s.lineno
        m(s, fr)

    def s_Pass(self, s, fr): pass
    def s_Global(self, s, fr): raise Unsupported("global")
    def s_Nonlocal(self, s, fr): raise Unsupported("nonlocal")
    def s_Import(self, s, fr):
        for a in s.names:
            import importlib
            m = importlib.import_module(a.name)
            fr.env[a.asname or a.name.split(".")[0]] = m if a.asname else importlib.import_module(a.name.split(".")[0])
    def s_ImportFrom(self, s, fr):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            fr.env[a.asname or a.name] = getattr(m, a.name)
    def s_Break(self, s, fr): raise Brk()
    def s_Continue(self, s, fr): raise Cont()

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            if fr.yields is None:
                raise Unsupported("yield")
            fr.yields.append(self.ev(s.value.value, fr) if s.value.value else None)
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    _iops = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.Pow: operator.ipow,
             ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod}

    def s_AugAssign(self, s, fr):
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), fr)
            self.assign(s.target, self.binop(s.op, cur, self.ev(s.value, fr), True), fr)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            i = self.ev(s.target.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(s.op, cur, self.ev(s.value, fr), True))
        else:
            o = self.ev(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.binop(s.op, cur, self.ev(s.value, fr), True))

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise(AssertionError, "assertion at line %d" % s.lineno)

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(Exception, "re-raise")
        # the message is not evaluated
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        c = self.ev(e, fr)
        if isinstance(c, PyRaise):
            raise c
        raise PyRaise(c if isinstance(c, type) else type(c), "raised at line %d" % s.lineno)

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                t = self.ev(h.type, fr) if h.type is not None else BaseException
                ts = t if isinstance(t, tuple) else (t,)
                if any(issubclass(e.exc, x) for x in ts):
                    if h.name:
                        fr.env[h.name] = e
                    self.block(h.body, fr)
                    break
            else:
                self.block(s.finalbody, fr)
                raise
            self.block(s.finalbody, fr)
            return
        self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def s_With(self, s, fr): raise Unsupported("with")

    def s_FunctionDef(self, s, fr):
        f = Closure(s, fr.chain(), fr.glob, tuple(self.ev(d, fr) for d in s.args.defaults), None)
        fr.env[s.name] = f

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr); i = self.ev(t.slice, fr)
                if isinstance(o, Frame):
                    o.drop(columns=[i], inplace=True)
                elif isinstance(o, (dict, list)):
                    del o[i]
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_While(self, s, fr):
        for _ in range(64):
            if not self.truth(self.ev(s.test, fr)):
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported("while loop")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported("assignment")

    def unpack(self, v, n, t):
        if any(isinstance(x, ast.Starred) for x in t.elts):
            raise Unsupported("starred assignment")
        if isinstance(v, (list, tuple)):
            if len(v) != n:
                raise PyRaise(ValueError, "unpack")
            return list(v)
        if isinstance(v, Seq) and conc(v.length()) == n:
            return [v.item(i) for i in range(n)]
        if isinstance(v, (str, dict, types.GeneratorType)):
            v = list(v)
            if len(v) != n:
                raise PyRaise(ValueError, "unpack")
            return v
        raise Unsupported("unpack %s" % type(v).__name__)

    def setattr(self, o, nm, v):
        if isinstance(o, (Frame, Series, Index)):
            if isinstance(o, Series) and nm == "index":
                o.index = v
                return
            if isinstance(o, (Series, Index)) and nm == "name":
                o._mut(); o.name = v
                return
            setattr(o, nm, v)
            return
        if self.is_dom(o):
            raise Unsupported("attribute store")
        if getattr(o, "_own", None) is not None:
            self.ctx.frame(o._own)
        if not self.ctx.building:
            self.ctx.attrs.append(("w", o, nm, v))
        object.__setattr__(o, nm, v)

    def setitem(self, o, i, v):
        if isinstance(o, (dict, list)):
            if isinstance(o, list) and isinstance(i, Sc):
                i = conc(i)
                if i is None:
                    raise Unsupported("symbolic list store")
            if isinstance(o, dict) and isinstance(i, Sc) and conc(i) is None:
                raise Unsupported("symbolic key")
            if isinstance(o, OwnDict):
                self.ctx.frame(o._own)
            try:
                o[i] = v
            except (KeyError, IndexError) as e:
                raise PyRaise(type(e), str(e))
            return
        if hasattr(o, "__setitem__") and self.is_dom(o):
            o[self.index(i)] = self.listval(v)
            return
        raise Unsupported("store into %s" % type(o).__name__)

    def listval(self, v):
        return v

    def index(self, i):
        return i

    # ---------------------------------------------------------- loops
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        items = self.concrete_iter(it)
        if items is not None:
            for x in items:
                self.assign(s.target, x, fr)
                try:
                    self.block(s.body, fr)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, fr)
            return
        spec = self.loop_contract(s, fr)
        if spec is not None:
            from .select import verify_loop
            verify_loop(self, s, self.enum_of(it), fr, spec)
            return
        from .loops import summarise
        summarise(self, s, it, fr)

    def loop_contract(self, s, fr):
        specs = self.loop_contracts.get(fr.fn) if fr.fn is not None else None
        if not specs:
            return None
        fors = [x for x in ast.walk(def_of(fr.fn)) if isinstance(x, ast.For)]
        fors.sort(key=lambda x: x.lineno)
        at = [k for k, x in enumerate(fors) if x is s or (x.lineno, x.col_offset) == (s.lineno, s.col_offset)]
        return specs.get(at[0]) if at else None

    def concrete_iter(self, it):
        if isinstance(it, (list, tuple, str, dict, set, frozenset, range, type({}.keys()), type({}.values()), type({}.items()))) and not isinstance(it, RecList):
            return list(it)
        if isinstance(it, (zip, enumerate, map, filter, itertools.combinations, reversed, types.GeneratorType, itertools.product, itertools.chain)):
            return list(it)
        if isinstance(it, SymRange):
            n = conc(sub(it.hi, it.lo))
            if n is not None and conc(it.lo) is not None:
                return list(range(conc(it.lo), conc(it.hi)))
            if n is not None and n <= 0:
                return []
            if self.ctx.known(le(it.hi, it.lo)):
                return []
            return None
        if isinstance(it, Seq):
            n = conc(sub(it.hi, it.lo))
            if n is not None and n <= 8 and it.dense():
                return [it.at(N(i)) for i in range(n)]
            return None
        if isinstance(it, SymEnum):
            return None
        if isinstance(it, Frame):
            return list(it.cols)
        import numpy as np
        if isinstance(it, np.ndarray) and it.ndim == 1:
            return [self.wrap(x.item() if hasattr(x, "item") else x) for x in it]
        if hasattr(it, "sym_iter"):
            return it.sym_iter(self)
        if isinstance(it, Mat):
            return None
        raise Unsupported("iteration over %s" % type(it).__name__)

    def enum_of(self, it):
        if isinstance(it, SymRange):
            return SymEnum(it.lo, it.hi, None, lambda k: Sc(k))
        if isinstance(it, Seq):
            return SymEnum(it.lo, it.hi, it.g, it.e)
        if isinstance(it, SymEnum):
            return it
        if isinstance(it, Mat) and conc(it.nc) is not None:
            m = it
            return SymEnum(ZERO, m.nr, None, lambda i: Seq(ZERO, m.nc, None, lambda j: m.e(i, j), m.dt))
        if hasattr(it, "sym_enum"):
            return it.sym_enum()
        raise Unsupported("iteration over %s" % type(it).__name__)

    # ---------------------------------------------------------- expressions
    def truth(self, x):
        if isinstance(x, Sc):
            return self.ctx.truth(x)
        if isinstance(x, (Frame, Mat)) or isinstance(x, Seq):
            if isinstance(x, Seq) and not isinstance(x, Series) and x.dt == "O?":
                return self.ctx.truth(gt(x.length(), ZERO))
            if isinstance(x, SymListV):
                return self.ctx.truth(gt(x.length(), ZERO))
            raise PyRaise(ValueError, "truth value of an array")
        if isinstance(x, (SymEnum, SymRange, Str)):
            raise Unsupported("truth of %s" % type(x).__name__)
        if hasattr(x, "sym_truth"):
            return x.sym_truth(self)
        if isinstance(x, T):
            return self.ctx.truth(x)
        return bool(x)

    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return self.wrap(v)
        return v

    def e_Name(self, e, fr):
        v = fr.get(e.id)
        if isinstance(v, Undef):
            raise Unsupported("value of %s after a loop: %s" % (e.id, v.why))
        if isinstance(v, float):
            return self.wrap(v)
        return v

    def e_JoinedStr(self, e, fr):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value, fr)
                if self.has_dom(v):
                    return Str()
                if p.format_spec is not None or p.conversion not in (-1,):
                    return Str()
                out.append(format(v))
        return "".join(out)

    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return list(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                it = self.concrete_iter(v)
                if it is None:
                    raise Unsupported("star of a symbolic sequence")
                out += it
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        from .lib import SymSet
        parts = []
        conc_ = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.append(self.ev(x.value, fr))
            else:
                conc_.append(self.ev(x, fr))
        if any(isinstance(p, (Seq,)) for p in parts):
            return SymSet(parts, conc_)
        out = set(conc_)
        for p in parts:
            out |= set(self.concrete_iter(p))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Starred(self, e, fr): raise Unsupported("star")

    def e_Lambda(self, e, fr):
        return Closure(e, fr.chain(), fr.glob, tuple(self.ev(d, fr) for d in e.args.defaults))

    def e_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        if isinstance(c, Sc) and c.v.op != "c" and self.simple(e.body) and self.simple(e.orelse):
            t = boolt(c)
            if not self.ctx.known(t) and not self.ctx.known(not_(t)):
                a, b = self.ev(e.body, fr), self.ev(e.orelse, fr)
                try:
                    return ite_sc(t, a, b)
                except Unsupported:
                    pass
        return self.ev(e.body if self.truth(c) else e.orelse, fr)

    def simple(self, e):
        return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)) for x in ast.walk(e))

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            # pure remaining comparisons are combined without a case split
            if isinstance(v, Sc) and v.v.sort == "B" and v.v.op != "c" and all(self.pure(y) for y in e.values[i + 1:]):
                rest = e.values[i + 1:]
                r = v
                ok = True
                for y in rest:
                    w = self.ev(y, fr)
                    if not (isinstance(w, bool) or isinstance(w, Sc) and w.v.sort == "B"):
                        ok = False
                        break
                    r = (r & sc(w)) if isand else (r | sc(w))
                if ok:
                    return r
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v
        return v

    def pure(self, e):
        return all(isinstance(x, (ast.Name, ast.Constant, ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context, ast.Attribute)) for x in ast.walk(e)) \
            and not any(isinstance(x, (ast.Div, ast.FloorDiv, ast.Mod)) for x in ast.walk(e))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, Sc):
                return Sc(not_(boolt(v)))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, bool):
                return ~v
            return ~v
        return +v

    _ops = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv,
            ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.MatMult: operator.matmul, ast.BitXor: operator.xor}

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        import pandas as pd
        if isinstance(a, (pd.Timedelta, pd.Timestamp)):
            a = sc(a)
        if isinstance(b, (pd.Timedelta, pd.Timestamp)):
            b = sc(b)
        nums = (int, float, Fraction)
        if isinstance(a, nums) and isinstance(b, nums) and not isinstance(a, bool) and not isinstance(b, bool):
            if isinstance(op, ast.Div) or isinstance(a, float) or isinstance(b, float) or (isinstance(op, ast.Pow) and b < 0):
                a = sc(a)
                if isinstance(op, ast.Div) and b == 0:
                    raise PyRaise(ZeroDivisionError, "division by zero")
        f = (self._iops if inplace else self._ops).get(type(op))
        if f is None:
            raise Unsupported("operator")
        if isinstance(a, bool) and isinstance(b, Sc):
            a = sc(a)
        if isinstance(b, bool) and isinstance(a, Sc):
            b = sc(b)
        if isinstance(a, list) and type(b).__name__ == "SymList" and isinstance(op, ast.Add):
            return b.__radd__(a)
        try:
            r = f(a, b)
        except TypeError as ex:
            if self.has_dom(a) or self.has_dom(b):
                raise Unsupported("operands %s, %s" % (type(a).__name__, type(b).__name__))
            raise PyRaise(TypeError, str(ex))
        return self.wrap(r)

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, fr)
            c = self.compare(op, l, r)
            if res is None:
                res = c
            else:
                res = (sc(res) & sc(c)) if isinstance(res, Sc) or isinstance(c, Sc) else (res and c)
            l = r
        return res

    def compare(self, op, a, b):
        import pandas as pd
        if isinstance(a, (pd.Timedelta, pd.Timestamp)) and self.is_dom(b):
            a = sc(a)
        if isinstance(b, (pd.Timedelta, pd.Timestamp)) and self.is_dom(a):
            b = sc(b)
        if isinstance(op, (ast.Is, ast.IsNot)) and (type(a).__name__ == "PyBool" or type(b).__name__ == "PyBool"):
            x, y = (a, b) if type(a).__name__ == "PyBool" else (b, a)
            r = FALSE if not isinstance(y, bool) and type(y).__name__ != "PyBool" else iff(boolt(x), boolt(sc(y)))
            return Sc(r if isinstance(op, ast.Is) else not_(r))
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else (Sc(not_(boolt(r))) if isinstance(r, Sc) else not r)
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}[type(op)]
        if isinstance(a, float):
            a = self.wrap(a)
        if isinstance(b, float):
            b = self.wrap(b)
        if isinstance(b, Inf) and not isinstance(a, (Sc, Seq)):
            a = sc(a)
        if isinstance(a, Inf):
            f2 = {operator.lt: operator.gt, operator.le: operator.ge, operator.gt: operator.lt, operator.ge: operator.le}.get(f)
            return f2(sc(b), a)
        try:
            return f(a, b)
        except TypeError as ex:
            if self.has_dom(a) or self.has_dom(b):
                raise Unsupported("comparison of %s, %s" % (type(a).__name__, type(b).__name__))
            raise PyRaise(TypeError, str(ex))

    def contains(self, a, b):
        if hasattr(b, "sym_contains"):
            return b.sym_contains(self, a)
        if isinstance(b, Frame):
            return a in b.cols
        if isinstance(a, Sc):
            ca = conc(a)
            if ca is None and isinstance(b, (list, tuple, set, dict)):
                return Sc(or_(*[boolt(a == sc(x)) for x in b if isinstance(x, (int, Sc, float))]))
            a = ca
        if isinstance(b, (list, tuple)) and any(isinstance(x, Sc) for x in b):
            if isinstance(a, (int, float)):
                return Sc(or_(*[boolt(sc(a) == x) for x in b if isinstance(x, (int, Sc, float))]))
            return a in [x for x in b if not isinstance(x, Sc)]
        if hasattr(a, "sym_eq"):
            return a.sym_eq(self, b)
        if isinstance(b, Seq):
            raise Unsupported("membership in a symbolic sequence")
        return a in b

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, o, nm):
        import numpy as np
        if o is np and nm == "pi":
            tm._pos.add("pi")
            return Sc(var("pi", "R"))
        if o is np and nm == "nan":
            return NANS
        if o is np and nm in ("inf", "Inf"):
            return Inf(1)
        if isinstance(o, (SymEnum, SymRange, Closure, Undef)):
            raise Unsupported("attribute %s" % nm)
        if isinstance(o, Super):
            return o.get(self, nm)
        if isinstance(o, type) and (o.__module__ or "").startswith("mizarlabs"):
            v = self.find_attr(o, nm)
            if v is None:
                try:
                    return getattr(o, nm)
                except AttributeError:
                    raise PyRaise(AttributeError, nm)
            if isinstance(v, staticmethod):
                return v.__func__
            if isinstance(v, classmethod):
                return Bound(v.__func__, o)
            return v
        if not isinstance(o, type) and (type(o).__module__ or "").startswith("mizarlabs") and not isinstance(o, types.FunctionType):
            d = o.__dict__ if hasattr(o, "__dict__") else {}
            if nm in d:
                if not self.ctx.building:
                    self.ctx.attrs.append(("r", o, nm, d[nm]))
                return self.wrap(d[nm])
            v = self.find_attr(type(o), nm)
            if v is None:
                if nm == "__class__":
                    return type(o)
                raise PyRaise(AttributeError, nm)
            if isinstance(v, staticmethod):
                return v.__func__
            if isinstance(v, classmethod):
                return Bound(v.__func__, type(o))
            if isinstance(v, property):
                return self.call(v.fget, [o], {})
            if isinstance(v, types.FunctionType):
                return Bound(v, o)
            return v
        if isinstance(o, (list, dict, set, str, tuple)):
            try:
                return getattr(o, nm)
            except AttributeError:
                raise PyRaise(AttributeError, nm)
        try:
            v = getattr(o, nm)
        except AttributeError:
            if self.is_dom(o):
                raise Unsupported("%s.%s" % (type(o).__name__, nm))
            raise PyRaise(AttributeError, nm)
        return self.wrap(v)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev(e.slice, fr))

    def getitem(self, o, i):
        if hasattr(o, "sym_getitem"):
            return o.sym_getitem(self, i)
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, Sc):
                c = conc(i)
                if c is None:
                    if all(isinstance(x, (int, Sc)) for x in o):
                        n = len(o)
                        self.ctx.bounds(and_(le(N(0), i.v), lt(i.v, N(n))), "list index")
                        return pick_list([sc(x) for x in o], i.v)
                    raise Unsupported("symbolic list index")
                i = c
            if isinstance(i, slice):
                i = slice(*[conc(x) if isinstance(x, Sc) else x for x in (i.start, i.stop, i.step)])
            try:
                return o[i]
            except (IndexError, TypeError) as ex:
                raise PyRaise(type(ex), str(ex))
        if isinstance(o, dict):
            if isinstance(i, Sc):
                c = conc(i)
                if c is None:
                    raise Unsupported("symbolic key")
                i = c
            try:
                return o[i]
            except KeyError as ex:
                raise PyRaise(KeyError, str(ex))
        if isinstance(o, type):      # typing subscripts
            return o
        if self.is_dom(o):
            return o[self.index(i)]
        try:
            return self.wrap(o[i])
        except Exception as ex:
            raise Unsupported("subscript of %s" % type(o).__name__)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fn = fr.find_fn()
            cls = self.class_of(fn)
            return Super(cls, fr.first_arg())
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def class_of(self, fn):
        q = fn.__qualname__.split(".")
        import sys
        o = sys.modules[fn.__module__]
        for p in q[:-1]:
            o = getattr(o, p)
        return o

    # ---------------------------------------------------------- bodies under a bound index
    def under_binder(self, gate, thunk):
        """the scalar value of thunk() for an arbitrary index satisfying the gate, all branches merged"""
        ctx = self.ctx
        saved = (ctx.hyps, ctx.decisions, ctx.pos, ctx.alts)
        frames = len(ctx.frames)
        work, res = [[]], []
        try:
            while work:
                dec = work.pop()
                if len(res) > 16:
                    raise Unsupported("too many paths in the body of a comprehension or function argument")
                ctx.hyps = list(saved[0]) + list(gate)
                base = len(ctx.hyps)
                ctx.decisions, ctx.pos, ctx.alts = dec, 0, []
                try:
                    v = thunk()
                except PyRaise as e:
                    if ctx.prover.sat(ctx.hyps, 500):
                        raise Unsupported("exception %s in the body of a comprehension or function argument" % getattr(e.exc, "__name__", "?"))
                    v = None
                if v is not None:
                    res.append((and_(*ctx.hyps[base:]), v))
                for a in ctx.alts:
                    work.append(ctx.decisions[:a] + [False])
        finally:
            ctx.hyps, ctx.decisions, ctx.pos, ctx.alts = saved
        if len(ctx.frames) > frames:
            raise Unsupported("store under a bound index")
        if not res:
            raise Unsupported("no feasible path under a bound index")
        return res

    @staticmethod
    def merged(res, get=lambda v: v):
        out = sc(get(res[-1][1]))
        for c, v in reversed(res[:-1]):
            out = dom.ite_sc(c, sc(get(v)), out)
        return out

    # ---------------------------------------------------------- comprehensions
    def comp(self, e, fr, elt):
        if len(e.generators) != 1:
            return self.comp_many(e, fr, elt)
        g = e.generators[0]
        it = self.ev(g.iter, fr)
        items = self.concrete_iter(it)
        if items is not None:
            out = []
            sub_ = fr.child()
            for x in items:
                self.assign(g.target, x, sub_)
                if all(self.truth(self.ev(c, sub_)) for c in g.ifs):
                    out.append(elt(sub_))
            return out
        en = self.enum_of(it)
        def at(k, conds):
            sub_ = fr.child()
            self.assign(g.target, en.f(k), sub_)
            for c in g.ifs:
                conds.append(boolt(sc(self.ev(c, sub_))))
            return elt(sub_)
        ctx = self.ctx
        snapshot = list(ctx.hyps)
        def one(k):
            cs = []
            v = at(k, cs)
            return v, and_(*cs)
        k0 = fresh("e", "I")
        res = self.under_binder([le(en.lo, k0), lt(k0, en.hi), en.g(k0)], lambda: one(k0))
        if len(res) == 1:
            v0, c0 = res[0][1]
            if hasattr(v0, "sym_generic") and c0 is TRUE and en.g(k0) is TRUE:
                return v0.sym_generic(k0, en.lo, en.hi)
        else:
            if any(isinstance(v, (tuple, str)) for _, (v, c) in res):
                raise Unsupported("comprehension of tuples over a symbolic sequence")
            v0 = self.merged(res, lambda v: v[0])
            c0 = or_(*[and_(p, v[1]) for p, v in res])
        dt = kind_of(sc(v0)) if not isinstance(v0, (tuple, str)) else "O"
        if dt == "O":
            if not isinstance(v0, tuple) or c0 is not TRUE or en.g(k0) is not TRUE:
                raise Unsupported("comprehension of tuples over a symbolic sequence")
            from .select import SymList
            vs = [sc(x) for x in v0]
            lo = en.lo
            return SymList(dom.nonneg_len(sub(en.hi, lo)), lambda q: tuple(Sc(subst(x.v, {k0: add(lo, q)}), subst(x.nan, {k0: add(lo, q)})) for x in vs))
        s0 = sc(v0)
        val = lambda k: Sc(subst(s0.v, {k0: k}), subst(s0.nan, {k0: k}))
        gg = (lambda k: and_(en.g(k), subst(c0, {k0: k}))) if c0 is not TRUE else en.g
        return SymListV(en.lo, en.hi, gg, val, dt)

    def comp_many(self, e, fr, elt):
        out = []
        def go(j, f):
            if j == len(e.generators):
                out.append(elt(f))
                return
            g = e.generators[j]
            items = self.concrete_iter(self.ev(g.iter, f))
            if items is None:
                raise Unsupported("nested symbolic comprehension")
            for x in items:
                self.assign(g.target, x, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    go(j + 1, f)
        go(0, fr.child())
        return out

    def e_ListComp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))

    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.ev(e.elt, f))
        if not isinstance(r, list):
            raise Unsupported("symbolic set")
        return set(r)

    def e_DictComp(self, e, fr):
        class P:
            pass
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        return dict(r)


class SymListV(Seq):
    """a Python list of symbolic length"""

    def append(self, v):
        raise Unsupported("append to a symbolic list")

    def sort(self): raise Unsupported("sort of a symbolic list")


class OwnDict(dict):
    _own = None


class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

    def get(self, it, nm):
        mro = type(self.obj).__mro__ if not isinstance(self.obj, type) else self.obj.__mro__
        i = mro.index(self.cls)
        for c in mro[i + 1:]:
            if nm in c.__dict__:
                v = c.__dict__[nm]
                if isinstance(v, staticmethod):
                    return v.__func__
                if isinstance(v, types.FunctionType):
                    if not it.in_repo(v):
                        ov = it.over.get(v) or it.lib.get(v)
                        if ov is None and nm == "__init__":
                            return NullInit()
                    return Bound(v, self.obj)
                if c is object and nm == "__init__":
                    return NullInit()
                return v
        raise PyRaise(AttributeError, nm)


class NullInit:
    def sym_call(self, it, args, kw):
        if args or kw:
            raise Unsupported("library constructor")
        return None


class Frm:
    def __init__(self, env, outer, glob, cls=None, fn=None, parent=None):
        self.env, self.outer, self.glob, self.cls, self.fn, self.parent = env, outer, glob, cls, fn, parent
        self.yields = None
        self.line = 0

    def get(self, nm):
        if nm in self.env:
            return self.env[nm]
        if self.parent is not None:
            return self.parent.get(nm)
        o = self.outer
        if o is not None:
            if isinstance(o, Frm):
                try:
                    return o.get(nm)
                except KeyError:
                    pass
            elif nm in o:
                return o[nm]
        if nm in self.glob:
            return self.glob[nm]
        if hasattr(builtins, nm):
            return getattr(builtins, nm)
        raise PyRaise(NameError, nm)

    def chain(self): return self

    def child(self):
        return Frm({}, None, self.glob, self.cls, self.fn, self)

    def find_fn(self):
        f = self
        while f is not None:
            if f.fn is not None:
                return f.fn
            f = f.parent if f.parent is not None else (f.outer if isinstance(f.outer, Frm) else None)
        raise Unsupported("super outside a method")

    def first_arg(self):
        f = self
        while f.parent is not None:
            f = f.parent
        return f.get(def_of(f.find_fn()).args.args[0].arg)


# ------------------------------------------------------------ all paths
class EndPath(Exception):
    """the arbitrary iteration of a loop has been checked"""


class Outcome:
    def __init__(self, ctx, kind, value):
        self.ctx, self.kind, self.value = ctx, kind, value

    @property
    def pc(self): return self.ctx.hyps


def explore(run, hyps, prover, max_paths=64, setup=None):
    """runs `run(ctx)` along every feasible path; yields Outcomes"""
    work = [[]]
    out = []
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        c = Ctx(hyps, dec, prover)
        old = dom.CTX[0]
        dom.CTX[0] = c
        try:
            try:
                v = run(c)
                o = Outcome(c, "return", v)
            except PyRaise as e:
                o = Outcome(c, "raise", e)
            except EndPath:
                o = Outcome(c, "cut", None)
            except Prune:
                o = None
        finally:
            dom.CTX[0] = old
        for a in c.alts:
            work.append(c.decisions[:a] + [False])
        if o is not None:
            out.append(o)
    return out
