"""Run-time contract checks of the public operations on the real code.

Each property has case generators (random, seeded, with forced corner cases) and
a checker which runs the real public operation on a case and compares what it
does with an independent oracle written from the property's statement.  These
checks (1) replay and search failing inputs for obligations the verifier does
not discharge, (2) cross-check the verifier's contracts and library models
against CPython on every run, and (3) are the bounded stand-in for the
functions outside the verifier's reach.
"""
import json, math, os, sys, time, traceback, warnings
from fractions import Fraction
import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
import logging; logging.disable(logging.WARNING)


class Violation(Exception):
    pass


class Skip(Exception):
    """The case is outside the property's preconditions or a numerical near-tie."""


def fail(msg, *a):
    raise Violation(msg % a if a else msg)


def need(cond, msg, *a):
    if not cond:
        fail(msg, *a)


REG = {}   # property -> list of (name, gen, chk, weight)


def check(prop, name, gen, weight=1):
    def deco(f):
        REG.setdefault(prop, []).append((name, gen, f, weight))
        return f
    return deco


def near(a, b, rtol=1e-7, atol=1e-9):
    a = np.asarray(a, dtype=float); b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return False
    ia, ib = np.isinf(a), np.isinf(b)
    if (ia != ib).any() or (a[ia] != b[ib]).any():
        return False
    ok = ~(na | ia)
    return bool((np.abs(a[ok] - b[ok]) <= atol + rtol * np.maximum(np.abs(a[ok]), np.abs(b[ok]))).all())


def first_diff(a, b, rtol=1e-7, atol=1e-9):
    a = np.asarray(a, dtype=float).ravel(); b = np.asarray(b, dtype=float).ravel()
    if a.shape != b.shape:
        return "shape %s vs expected %s" % (a.shape, b.shape)
    for i, (x, y) in enumerate(zip(a, b)):
        if not near([x], [y], rtol, atol):
            return "position %d: got %r, expected %r" % (i, x, y)
    return "none"


def same(got, want, what, rtol=1e-7, atol=1e-9):
    if not near(got, want, rtol, atol):
        fail("%s differs: %s", what, first_diff(got, want, rtol, atol))


EPOCH = pd.Timestamp("2020-01-01")


TICK = [60000]          # milliseconds per unit of time of the current case
ANY_TICK = ("B01", "B02", "B03", "W01", "W02", "K01", "K02", "K03", "S01", "C01", "C02", "C03", "L04", "Z01", "Z02", "Z03", "P01", "P02", "P03", "P05",
            "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09")


def run(chk, case):
    """runs the check of a case on the case's time scale"""
    TICK[0] = case.get("_tick", 60000) if isinstance(case, dict) else 60000
    try:
        return chk(case)
    finally:
        TICK[0] = 60000


def times(ticks):
    """DatetimeIndex from integer ticks after 2020-01-01."""
    return pd.DatetimeIndex(EPOCH + pd.to_timedelta(np.asarray(ticks, dtype="int64") * TICK[0], unit="ms"))


def ticks(m):
    return pd.Timedelta(milliseconds=int(m) * TICK[0])


def ts(m):
    return EPOCH + ticks(m)


def mins(t):
    d = pd.Timestamp(t) - EPOCH
    q, r = divmod(d, pd.Timedelta(milliseconds=TICK[0]))
    return int(q) if not r else d / pd.Timedelta(milliseconds=TICK[0])


def incr(rng, n, lo=1, hi=5, start=0):
    """n strictly increasing ints."""
    if n == 0:
        return []
    return [int(x) for x in (start + np.cumsum(rng.integers(lo, hi + 1, n)) - lo)]


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def run_checks(prop, tier, seed, budget, modes=("plain",), only=None, log=None):
    """Runs all the cases of a property. Returns (stats, violation or None)."""
    stats = {"evaluations": 0, "skipped": 0, "distinct": set(), "samples": [], "by_check": {}}
    t0 = time.time()
    checks = [c for c in REG.get(prop, []) if only is None or c[0] in only]
    if not checks:
        return stats, None
    wsum = sum(c[3] for c in checks)
    for ci, (name, gen, chk, weight) in enumerate(checks):
        rng = np.random.default_rng([seed, ci, sum(map(ord, prop))])
        share = budget * weight / wsum
        t1 = time.time(); n = 0; k = 0
        maxn = (400 if tier == "quick" else 20000) * weight
        while k < maxn and (time.time() - t1 < share or k < 3):
            try:
                case = gen(rng, k)
            except StopIteration:
                break
            if prop in ANY_TICK and isinstance(case, dict) and k % 3:
                case["_tick"] = pick(rng, [137, 500, 1000, 1501, 3600000])
            k += 1
            key = json.dumps(case, sort_keys=True, default=str)
            try:
                run(chk, case)
                n += 1
                stats["evaluations"] += 1
                stats["distinct"].add(hash(key))
                if len(stats["samples"]) < 2 and n <= 1:
                    stats["samples"].append({"check": name, "case": json.loads(json.dumps(case, default=str))})
            except Skip:
                stats["skipped"] += 1
            except Violation as e:
                return stats, {"property": prop, "check": name, "case": case, "message": str(e)}
            except Exception as e:  # the real code failed on a valid input
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [f for f in tb if "/mizarlabs/" in f.filename]
                if not inrepo:
                    if isinstance(e, (MemoryError, OSError, ImportError)):
                        raise
                    # the code returned something of another shape or type than the contract's
                    return stats, {"property": prop, "check": name, "case": case,
                                   "message": "%s: %s while checking the result (%s:%d)" % (type(e).__name__, str(e)[:300], tb[-1].filename, tb[-1].lineno)}
                return stats, {"property": prop, "check": name, "case": case,
                               "message": "%s: %s raised in %s:%d (%s)" % (type(e).__name__, str(e)[:300], inrepo[-1].filename, inrepo[-1].lineno, inrepo[-1].name)}
        stats["by_check"][name] = n
    return stats, None


def replay(viol):
    for name, gen, chk, w in REG[viol["property"]]:
        if name == viol["check"]:
            run(chk, viol["case"])
            return
    raise KeyError(viol["check"])
