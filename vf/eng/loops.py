"""Summaries of loops over symbolic ranges.

The body is executed once at an arbitrary iteration, with the variables carried
from one iteration to the next replaced by state symbols.  The strongest
inductive invariant of the loop is then written down as a closed form: sums for
accumulators, running extrema, pointwise stores, filtered appends, and a fold
of the step in the remaining cases.
"""
import ast
from .term import *
from . import term as tm
from . import dom
from .dom import *
from .interp import *
from . import interp as ip


def assigned(body):
    out = []
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
    return list(dict.fromkeys(out))


class BotSc(Sc):
    """a running maximum that may still be minus infinity"""
    __slots__ = ("bot", "sgn")

    def __init__(self, v, bot, sgn):
        super().__init__(v)
        self.bot, self.sgn = bot, sgn

    def _b(self, o, f, zero=False):
        raise Unsupported("arithmetic on a running extremum")

    def _c(self, o, f):
        r = super()._c(o, f)
        if isinstance(o, (Inf, BotSc)):
            raise Unsupported("comparison of a running extremum with an infinity")
        return Sc(ite(self.bot, and_(not_(sc(o).nan), f(N(self.sgn), ZERO)), r.v))

    def __ne__(self, o):
        raise Unsupported("comparison of a running extremum")


def snapshot(o):
    if isinstance(o, Frame):
        return ("f", o._index, dict(o.cols))
    if isinstance(o, Mat):
        return ("m", o.e, o.dt)
    if isinstance(o, Seq):
        return ("s", o.e, o.dt)
    return None


def restore(o, s):
    if s[0] == "f":
        object.__setattr__(o, "_index", s[1]); object.__setattr__(o, "cols", dict(s[2]))
    else:
        o.e, o.dt = s[1], s[2]


def objects(fr):
    """mutable symbolic objects and lists reachable from the frame"""
    out, seen = [], set()
    def go(v, d):
        if id(v) in seen or d > 3:
            return
        if isinstance(v, (Seq, Mat, Frame)):
            seen.add(id(v)); out.append(v)
        elif isinstance(v, (list, tuple)):
            seen.add(id(v))
            if isinstance(v, list):
                out.append(v)
            for x in v:
                go(x, d + 1)
        elif isinstance(v, dict):
            seen.add(id(v))
            out.append(v)
            for x in v.values():
                go(x, d + 1)
        elif (type(v).__module__ or "").startswith("mizarlabs") and hasattr(v, "__dict__"):
            seen.add(id(v))
            for x in v.__dict__.values():
                go(x, d + 1)
    f = fr
    while f is not None:
        for v in list(f.env.values()):
            go(v, 0)
        f = f.parent if f.parent is not None else (f.outer if isinstance(f.outer, ip.Frm) else None)
    return out


def summarise(it, s, iterable, fr):
    en = it.enum_of(iterable)
    if s.orelse:
        raise Unsupported("loop else")
    ctx = it.ctx
    names = assigned(s.body)
    tnames = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
    carried = [n for n in names if n in fr.env and n not in tnames]
    # first guess: integer states stay integers
    sorts = {}
    for attempt in range(3):
        r = attempt_summary(it, s, en, fr, names, tnames, carried, sorts)
        if r is None:
            continue
        return
    raise Unsupported("loop states do not stabilise")


def attempt_summary(it, s, en, fr, names, tnames, carried, sorts):
    ctx = it.ctx
    i = fresh("i", "I")
    init = {}
    states = {}
    botst = {}
    objcarried = {}
    for n in carried:
        v = fr.env[n]
        if isinstance(v, Inf):
            sv, bv = fresh("s", "R"), fresh("bot", "B")
            botst[n] = (v.s, sv, bv)
            continue
        if isinstance(v, (int, Sc, float, bool)):
            x = sc(v)
            so = sorts.get(n) or x.v.sort
            init[n] = x
            states[n] = (fresh("s", so), fresh("sn", "B"))
        else:
            objcarried[n] = v
    objs = objects(fr)
    snaps = {id(o): snapshot(o) for o in objs if snapshot(o) is not None}
    lists = [o for o in objs if isinstance(o, list)]
    list_snap = {id(o): list(o) for o in lists}
    dict_snap = {id(o): dict(o) for o in objs if isinstance(o, dict)}
    env0 = dict(fr.env)
    yields0 = list(fr.yields) if fr.yields is not None else None
    opaque = {}
    hy0 = list(ctx.hyps)
    gate = [le(en.lo, i), lt(i, en.hi), en.g(i)]
    # state of the arrays at the start of an iteration: opaque
    def set_opaque():
        for o in objs:
            sp = snaps.get(id(o))
            if sp is None:
                continue
            if id(o) not in opaque:
                opaque[id(o)] = "arr!%d" % fresh("o", "I").id
            nm = opaque[id(o)]
    paths = []
    work = [[]]
    outer_dec, outer_pos, outer_alts = ctx.decisions, ctx.pos, ctx.alts
    obl0 = len(ctx.obls)
    touched = {}
    npaths = 0
    def reset():
        fr.env.clear(); fr.env.update(env0)
        for o in objs:
            sp = snaps.get(id(o))
            if sp is not None:
                restore(o, sp)
        for o in lists:
            o[:] = list_snap[id(o)]
        for o in objs:
            if isinstance(o, dict):
                o.clear(); o.update(dict_snap[id(o)])
    # mark arrays that the body stores into: run once to find them, then run with opaque contents
    stored = sorts.setdefault("#stored", {})
    try:
        while work:
            dec = work.pop()
            npaths += 1
            if npaths > 48:
                raise Unsupported("too many paths in a loop body")
            reset()
            for n, (sv, nv) in states.items():
                fr.env[n] = Sc(sv, nv if sorts.get(n + "#nan") else FALSE)
            for n, (sg, sv, bv) in botst.items():
                fr.env[n] = BotSc(sv, bv, sg)
            for n, o in objcarried.items():
                pass
            base_e = {}
            for o in objs:
                if id(o) in stored and isinstance(o, (Seq, Mat)):
                    nm = stored[id(o)]
                    so = "R" if snaps[id(o)][2] != "b" else "B"
                    if isinstance(o, Mat):
                        o.e = lambda a, b, nm=nm, so=so: Sc(mk("app", (nm, a, b), so))
                    else:
                        o.e = lambda k, nm=nm, so=so: Sc(mk("app", (nm, k), so))
                if isinstance(o, (Seq, Mat)):
                    base_e[id(o)] = o.e
            for o in lists:
                o[:] = []
            ctx.decisions, ctx.pos, ctx.alts = list(dec), 0, []
            ctx.hyps = hy0 + gate
            nb = len(ctx.hyps)
            kind = "normal"
            exc = None
            if fr.yields is not None:
                fr.yields[:] = []
            try:
                it.assign(s.target, en.f(i), fr)
                it.block(s.body, fr)
            except Cont:
                pass
            except Brk:
                kind = "break"
            except Ret:
                raise Unsupported("return inside a symbolic loop")
            except PyRaise as e:
                kind = "raise"; exc = e
            pc = and_(*ctx.hyps[nb:])
            for a in ctx.alts:
                work.append(ctx.decisions[:a] + [False])
            post = dict(fr.env)
            arr = {id(o): (o.e, o.dt) for o in objs if isinstance(o, (Seq, Mat)) and o.e is not base_e[id(o)]}
            for o in objs:
                if isinstance(o, Frame):
                    if dict(o.cols) != snaps[id(o)][2] or o._index is not snaps[id(o)][1]:
                        raise Unsupported("frame changed in a symbolic loop")
                if isinstance(o, dict) and dict(o) != dict_snap[id(o)]:
                    raise Unsupported("dictionary changed in a symbolic loop")
            apps = {id(o): list(o) for o in lists}
            ys = list(fr.yields) if fr.yields is not None else []
            paths.append((pc, kind, exc, post, arr, apps, ys))
            for k in arr:
                touched[k] = 1
    finally:
        ctx.decisions, ctx.pos, ctx.alts = outer_dec, outer_pos, outer_alts
        ctx.hyps = hy0
        reset()
        if fr.yields is not None:
            fr.yields[:] = yields0
    if any(ys for *_, ys in paths):
        raise Unsupported("yield inside a symbolic loop")
    new = [k for k in touched if k not in stored]
    if new:
        for k in new:
            stored[k] = "arr!%d" % fresh("o", "I").id
        del ctx.obls[obl0:]
        return None
    # obligations raised inside the body hold at an arbitrary iteration: keep them
    pre = []
    for pc, kind, exc, *_ in paths:
        if kind == "break":
            raise Unsupported("break in a symbolic loop")
        if kind == "raise":
            if any(v in fv(pc) for n, st in states.items() for v in st):
                raise Unsupported("exception depending on loop state")
            x = fresh("x", "I")
            off = add(x, en.lo)
            cond = subst(and_(en.g(i), pc), {i: off})
            bad = ho("ex", sub(en.hi, en.lo), cond, TRUE, x)
            ctx.require_or_raise(not_(bad), exc.exc, exc.msg)
            # from here on no iteration raises; keep the pointwise form as a hypothesis source
    paths = [p for p in paths if p[1] == "normal"]
    if not paths:
        return True
    n_it = sub(en.hi, en.lo)
    some = lt(en.lo, en.hi)
    guarded = en.g(fresh("g", "I")) is not TRUE

    def merge(get):
        """value over the paths"""
        r = None
        for p in reversed(paths):
            v = get(p)
            r = v if r is None else ite_sc(p[0], v, r)
        return r

    # ---- scalars
    posts = {}
    for n in states:
        try:
            posts[n] = merge(lambda p: sc(p[3][n]))
        except Unsupported:
            raise Unsupported("loop variable %s changes its type" % n)
        if posts[n].v.sort != states[n][0].sort:
            if posts[n].v.sort == "R" and states[n][0].sort == "I":
                sorts[n] = "R"
                del ctx.obls[obl0:]
                return None
            if posts[n].v.sort == "I" and states[n][0].sort == "R":
                pass
            else:
                raise Unsupported("loop variable %s changes its sort" % n)
        if posts[n].nan is not FALSE and not sorts.get(n + "#nan"):
            sorts[n + "#nan"] = True
            del ctx.obls[obl0:]
            return None
    sym = {}
    for n, (a, b) in states.items():
        sym[a] = n; sym[b] = n
    botpost = {}
    for n, (sg, sv, bv) in botst.items():
        botpost[n] = [(p[0], p[3][n]) for p in paths]
        sym[sv] = n; sym[bv] = n

    def uses(t):
        return {sym[v] for v in fv(t) if v in sym}

    final = {}       # name -> function of the iteration count bound m (value after the iterations en.lo..m-1)
    def at_count(m):
        pass

    def g_at(x):
        return en.g(x) if guarded else TRUE

    # running maximum with companions
    handled = {}
    for n, (sg, sv, bv) in botst.items():
        cand = None
        cnd = FALSE
        for pc, v in botpost[n]:
            if isinstance(v, BotSc) and v.v is sv:
                continue
            v = sc(v)
            if cand is not None and cand is not v.v:
                raise Unsupported("running extremum")
            cand = v.v
            cnd = or_(cnd, pc)
        if cand is None:
            final[n] = lambda m, n=n: fr_env_inf(fr, n)
            handled[n] = None
            continue
        if uses(cand):
            raise Unsupported("running extremum of a state")
        rel = gt if sg < 0 else lt
        # the update condition must be  ok(i) and (bot or cand > s)
        ok = subst(cnd, {bv: TRUE})
        want = and_(ok, or_(bv, rel(cand, sv)))
        if not ctx.prover.quick(ctx.hyps + gate, iff(cnd, want), 800) or uses(ok):
            raise Unsupported("running extremum with another update rule")
        kind = "max" if sg < 0 else "min"
        handled[n] = (kind, ok, cand, cnd)
        def fin(m, kind=kind, ok=ok, cand=cand):
            x = fresh("x", "I")
            off = add(x, en.lo)
            g = and_(g_at(off), subst(ok, {i: off}))
            return Sc(ho(kind, sub(m, en.lo), g, subst(cand, {i: off}), x), not_(ho("ex", sub(m, en.lo), g, TRUE, x)))
        final[n] = fin
    # companions: updated exactly when the extremum is
    for n in list(states):
        p = posts[n]
        us = uses(p.v) | uses(p.nan)
        bots = [b for b in us if b in botst]
        if not bots:
            continue
        b = bots[0]
        kind, ok, cand, cnd = handled[b]
        # p = ite(cnd, f(i), own state)
        f = subst2(p, {botst[b][2]: TRUE})
        own = states[n]
        fk = merge_when(ctx, p, cnd, own, gate)
        if fk is None or uses(fk.v) | uses(fk.nan):
            raise Unsupported("companion of a running extremum")
        def fin(m, n=n, ok=ok, cand=cand, fk=fk, kind=kind):
            x = fresh("x", "I")
            off = add(x, en.lo)
            g = and_(g_at(off), subst(ok, {i: off}))
            key = subst(cand, {i: off}) if kind == "max" else neg(subst(cand, {i: off}))
            a = ho("argmax", sub(m, en.lo), g, key, x)
            ex = ho("ex", sub(m, en.lo), g, TRUE, x)
            pos = add(a, en.lo)
            return ite_sc(ex, Sc(subst(fk.v, {i: pos}), subst(fk.nan, {i: pos})), init[n])
        final[n] = fin
    rest = [n for n in states if n not in final]
    # plain overwrites, sums
    changed = True
    folds = []
    for n in rest:
        p = posts[n]
        us = uses(p.v) | uses(p.nan)
        sv, nv = states[n]
        if p.v is sv and (p.nan is nv or p.nan is FALSE and not sorts.get(n + "#nan")):
            final[n] = lambda m, n=n: init[n]
            continue
        if not us and not guarded:
            def fin(m, n=n, p=p):
                last = sub(m, ONE)
                return ite_sc(lt(en.lo, m), Sc(subst(p.v, {i: last}), subst(p.nan, {i: last})), init[n])
            final[n] = fin
            continue
        if us <= {n} and p.v.sort != "B" and not sorts.get(n + "#nan"):
            d = sub(p.v, sv)
            if not uses(d):
                def fin(m, n=n, d=d):
                    x = fresh("x", "I")
                    off = add(x, en.lo)
                    return Sc(add(num(init[n].v), ho("sum", sub(m, en.lo), g_at(off), subst(d, {i: off}), x)), init[n].nan)
                final[n] = fin
                continue
        folds.append(n)
    if folds:
        # closure of dependencies among the folded variables
        dep = set(folds)
        for n in folds:
            p = posts[n]
            for u in uses(p.v) | uses(p.nan):
                if u in botst:
                    raise Unsupported("loop state")
                dep.add(u)
        fl = [n for n in states if n in dep]
        # non-folded states used inside the steps are replaced by their closed form
        close = {}
        for u in dep:
            if u not in folds:
                close[u] = final[u]
        order = []
        for n in folds:
            order.append((n, "v"))
            if sorts.get(n + "#nan"):
                order.append((n, "nan"))
        def comp(n, part):
            def fin_term(m):
                x = fresh("x", "I")
                off = add(x, en.lo)
                sts, inits, steps = [], [], []
                ren = {i: off}
                for (a, w) in order:
                    so = states[a][0].sort if w == "v" else "B"
                    st = fresh("st", so)
                    sts.append(st)
                    ren[states[a][0] if w == "v" else states[a][1]] = st
                    inits.append(num(init[a].v) if so != "B" and w == "v" else (init[a].v if w == "v" else init[a].nan))
                for u, fu in close.items():
                    val = fu(off)
                    ren[states[u][0]] = val.v
                    ren[states[u][1]] = val.nan
                for (a, w) in order:
                    t = posts[a].v if w == "v" else posts[a].nan
                    t = subst(t, ren)
                    if guarded:
                        t = ite(en.g(off), t, sts[order.index((a, w))])
                    steps.append(t)
                return fold(sub(m, en.lo), inits, steps, sts, x, order.index((n, part)))
            return fin_term
        for n in folds:
            cv = comp(n, "v")
            cn = comp(n, "nan") if sorts.get(n + "#nan") else None
            final[n] = lambda m, cv=cv, cn=cn: Sc(cv(m), cn(m) if cn else FALSE)
    # substitution of states at the start of iteration k by their closed forms
    def close_at(t, k):
        ren = {i: k}
        for u in uses(t):
            if u in botst:
                v = final[u](k)
                ren[botst[u][1]] = v.v; ren[botst[u][2]] = v.nan
            else:
                v = final[u](k)
                ren[states[u][0]] = v.v
                ren[states[u][1]] = v.nan
        return subst(t, ren)

    # ---- arrays
    newe = {}
    for o in objs:
        if id(o) not in touched:
            continue
        nm = stored[id(o)]
        old = snaps[id(o)][1]
        if isinstance(o, Mat):
            newe[id(o)] = mat_store(ctx, o, nm, old, paths, en, i, close_at, gate, guarded)
        else:
            newe[id(o)] = seq_store(ctx, o, nm, old, paths, en, i, close_at, gate, guarded)
    # ---- lists
    newlists = {}
    for o in lists:
        if not any(p[5][id(o)] for p in paths):
            continue
        if list_snap[id(o)]:
            raise Unsupported("append to a non-empty list in a symbolic loop")
        if any(len(p[5][id(o)]) > 1 for p in paths):
            raise Unsupported("several appends per iteration")
        cond = or_(*[p[0] for p in paths if p[5][id(o)]])
        val = None
        for p in reversed(paths):
            if p[5][id(o)]:
                v = sc(p[5][id(o)][0]) if not isinstance(p[5][id(o)][0], (tuple, str, list, Seq)) else None
                if v is None:
                    raise Unsupported("append of a structure in a symbolic loop")
                val = v if val is None else ite_sc(p[0], v, val)
        always = ctx.prover.quick(ctx.hyps + gate, cond, 400)
        g = (lambda k, c=cond: and_(g_at(k), close_at(c, k))) if not always else en.g
        e = lambda k, v=val: Sc(close_at(v.v, k), close_at(v.nan, k))
        newlists[id(o)] = SymListV(en.lo, en.hi, g, e, kind_of(val))
    # ---- write back
    for n in list(states) + list(botst):
        m = en.hi
        v = final[n](m)
        v = Sc(v.v, v.nan)
        if not ctx.known(le(en.lo, en.hi)):
            first = init.get(n, NANS)
            v = ite_sc(lt(en.lo, en.hi), v, first)
        fr.env[n] = v
    for n in names:
        if n in states or n in botst:
            continue
        if n in objcarried or n not in env0:
            # a temporary: its last value, if it does not depend on the states
            try:
                vals = [p[3].get(n) for p in paths]
                if all(v is vals[0] for v in vals) and n in objcarried and vals[0] is objcarried[n]:
                    continue
                if all(isinstance(v, (int, Sc, float)) for v in vals):
                    v = merge(lambda p: sc(p[3][n]))
                    if not uses(v.v) | uses(v.nan) and ctx.known(some) and not guarded:
                        last = sub(en.hi, ONE)
                        fr.env[n] = Sc(subst(v.v, {i: last}), subst(v.nan, {i: last}))
                        continue
            except Unsupported:
                pass
            if n in objcarried and isinstance(objcarried[n], (Seq, Mat)):
                e = carried_array(ctx, n, objcarried[n], paths, en, i, guarded, states, sym)
                if e is not None:
                    fr.env[n] = e
                    continue
            fr.env[n] = Undef("not summarised")
    for o in objs:
        if id(o) in newe:
            o.e = newe[id(o)]
            dts = [p[4][id(o)][1] for p in paths if id(o) in p[4]]
            o.dt = joint(snaps[id(o)][2], *dts)
            if isinstance(o, Frame):
                o._mutv()
            else:
                o._mut()
    for o in lists:
        if id(o) in newlists:
            # rebind every name bound to this list
            f = fr
            while f is not None:
                for k, v in list(f.env.items()):
                    if v is o:
                        f.env[k] = newlists[id(o)]
                f = f.parent
    return True


def fr_env_inf(fr, n):
    raise Unsupported("extremum never updated")


def subst2(s, m):
    return Sc(subst(s.v, m), subst(s.nan, m))


def merge_when(ctx, p, cnd, own, gate):
    """f with p == ite(cnd, f, own)"""
    v, nan = p.v, p.nan
    def pick(t, o):
        # take the branch that is not the own state
        if t.op == "ite":
            if t.args[2] is o:
                return t.args[1]
            if t.args[1] is o:
                return t.args[2]
        return None
    # evaluate p under cnd by replacing equal conditions
    fv_ = under(ctx, v, cnd, gate)
    fn_ = under(ctx, nan, cnd, gate)
    ev_ = under(ctx, v, not_(cnd), gate)
    en_ = under(ctx, nan, not_(cnd), gate)
    if ev_ is not own[0] and ev_ is not ZERO:
        return None
    return Sc(fv_, fn_)


def under(ctx, t, c, gate):
    """simplifies conditionals of t under the assumption c"""
    def go(t):
        if t.op == "ite":
            if ctx.prover.quick(ctx.hyps + gate + [c], t.args[0], 400):
                return go(t.args[1])
            if ctx.prover.quick(ctx.hyps + gate + [c], not_(t.args[0]), 400):
                return go(t.args[2])
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))
        if t.sort == "B" and t.op != "c":
            if ctx.prover.quick(ctx.hyps + gate + [c], t, 400):
                return TRUE
            if ctx.prover.quick(ctx.hyps + gate + [c], not_(t), 400):
                return FALSE
        return t
    return go(t)


def opaque_uses(t, nm):
    out = {}
    memo = set()
    def go(t):
        if t in memo:
            return
        memo.add(t)
        if t.op == "app" and t.args[0] == nm:
            out[t] = 1
        for a in tm._children(t):
            go(a)
    go(t)
    return list(out)


def solve_index(cond, k, i, ctx, gate):
    """from a store condition containing k == f(i): i as a term in k"""
    cs = cond.args if cond.op == "and" else (cond,)
    for c in cs:
        if c.op == "eq0":
            p = to_poly(c.args[0])
            ci = p.get(((i, 1),))
            if ci in (1, -1):
                d = sub(i, mul(N(ci), c.args[0]))   # i = d
                if i not in fv(d):
                    return d, and_(*[x for x in cs if x is not c])
    return None


def cond_value(e, base):
    """(condition, value) pairs of stores in e over the opaque base value"""
    if e is base:
        return []
    return None


def split_store(v, base):
    """v as a list of (cond, value) with the opaque base elsewhere"""
    out = []
    def go(t, c):
        if t is base:
            return True
        if t.op == "ite":
            return go(t.args[1], and_(c, t.args[0])) and go(t.args[2], and_(c, not_(t.args[0])))
        out.append((c, t))
        return True
    go(v, TRUE)
    return out


def seq_store(ctx, o, nm, old, paths, en, i, close_at, gate, guarded):
    k = fresh("k", "I")
    so = "R" if o.dt != "b" else "B"
    base = mk("app", (nm, k), so)
    v = None
    for p in reversed(paths):
        x = p[4].get(id(o))
        s = x[0](k) if x is not None else Sc(base)
        s = Sc(num(s.v) if so != "B" else s.v, s.nan)
        v = s if v is None else ite_sc(p[0], s, v)
    ov = opaque_uses(v.v, nm) + opaque_uses(v.nan, nm)
    if any(a is not base for a in ov):
        raise Unsupported("loop-carried array reads")
    return store_closed(ctx, lambda q: old(q), k, base, v, en, i, close_at, gate, guarded, so)


def store_closed(ctx, old, k, base, v, en, i, close_at, gate, guarded, so, ks=None):
    ks = ks or [k]
    parts = split_store(v.v, base)
    if v.nan is not FALSE:
        # a stored missing value: its number may be written as the old one
        parts = list(parts) + [(v.nan, ZERO)]
    pure = not any(opaque_uses(t, base.args[0]) for c, t in parts) and not any(opaque_uses(c, base.args[0]) for c, t in parts) and not opaque_uses(v.nan, base.args[0])
    if pure:
        # every store condition fixes the iteration
        pieces = []
        ok = True
        for c, t in parts:
            cs = [c]
            for kk in ks:
                r = solve_index(c, kk, i, ctx, gate)
                if r is not None:
                    break
            if r is None:
                ok = False
                break
            d, rest = r
            pieces.append((d, c, t))
        if ok and pieces and all(p[0] is pieces[0][0] for p in pieces):
            d = pieces[0][0]
            def f(*q):
                ren = dict(zip(ks, q))
                dd = subst(d, ren)
                hit = and_(le(en.lo, dd), lt(dd, en.hi), en.g(dd))
                cond = FALSE
                val = None
                for _, c, t in pieces:
                    c2 = close_at(subst(c, {a: b for a, b in ren.items()}), dd)
                    w = Sc(close_at(subst(t, ren), dd), close_at(subst(v.nan, ren), dd))
                    cond = or_(cond, c2)
                    val = w if val is None else ite_sc(c2, w, val)
                return ite_sc(and_(hit, cond), val, old(*q))
            return f
    # pointwise fold over the iterations
    def f(*q):
        ren = dict(zip(ks, q))
        x = fresh("x", "I")
        off = add(x, en.lo)
        st = fresh("st", so)
        sn = fresh("sn", "B")
        o0 = old(*q)
        has_nan = v.nan is not FALSE or o0.nan is not FALSE
        b2 = subst(base, ren)
        step = close_at(subst(v.v, ren), off)
        stepn = close_at(subst(v.nan, ren), off)
        from .prove import replace
        step = replace(step, {b2: st}) if b2 in opaque_uses(step, base.args[0]) else step
        if opaque_uses(step, base.args[0]) or opaque_uses(stepn, base.args[0]):
            raise Unsupported("loop-carried array update")
        if v.nan is not FALSE:
            raise Unsupported("missing values in a loop-carried array")
        if guarded:
            step = ite(en.g(off), step, st)
        r = fold(sub(en.hi, en.lo), [num(o0.v) if so != "B" else o0.v], [step], [st], x, 0)
        return Sc(r, o0.nan)
    return f


def mat_store(ctx, o, nm, old, paths, en, i, close_at, gate, guarded):
    a, b = fresh("k", "I"), fresh("k", "I")
    so = "R" if o.dt != "b" else "B"
    base = mk("app", (nm, a, b), so)
    v = None
    for p in reversed(paths):
        x = p[4].get(id(o))
        s = x[0](a, b) if x is not None else Sc(base)
        s = Sc(num(s.v) if so != "B" else s.v, s.nan)
        v = s if v is None else ite_sc(p[0], s, v)
    ov = opaque_uses(v.v, nm) + opaque_uses(v.nan, nm)
    if any(t is not base for t in ov):
        raise Unsupported("loop-carried matrix reads")
    return store_closed(ctx, old, a, base, v, en, i, close_at, gate, guarded, so, [a, b])


def carried_array(ctx, n, old, paths, en, i, guarded, states, sym):
    """an array rebound in every iteration: only pointwise accumulations are summarised"""
    return None
