"""Generates and discharges the obligations of a property.

A contract module (vf/contracts/*.py) registers, per property, contracts: each
one sets up symbolic arguments satisfying a precondition, executes the current
source of the functions of /repo (vf/eng/interp.py) and states the obligations
on every path.  Nothing is cached between runs.
"""
import importlib, json, os, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, TimeoutError as FTimeout

GROUPS = ("feat", "kern", "lab", "cv", "boot", "bag", "pipe", "paths")
REG = {}      # property -> [(name, function)]
BUDGET = {"quick": 240.0, "thorough": 600.0}     # seconds per contract


def contract(prop, name=None):
    def deco(f):
        REG.setdefault(prop, []).append((name or f.__name__, f))
        return f
    return deco


def load():
    from . import contracts
    d = os.path.dirname(contracts.__file__)
    for g in GROUPS:
        if os.path.exists(os.path.join(d, g + ".py")):
            importlib.import_module("vf.contracts." + g)
    if "R01" not in REG:
        frames()


FRAMED = ("B04", "F01", "F02", "F03", "F04", "F05", "F06", "F07", "F08", "F09", "S01", "L01", "L02", "L03", "L04", "K01", "K02", "K03", "B01", "B02", "B03", "W01", "W02",
          "Z01", "Z02", "Z03", "C01", "C02", "C03", "C04", "P01", "P02", "P03", "P04", "P05", "T01")


def frames():
    """R01: the frame obligations of every operation under contract"""
    for p in FRAMED:
        for nm, f in REG.get(p, []):
            def g(s, f=f):
                s.only_frames = True
                before = module_state()
                f(s)
                s.framing = True
                after = module_state()
                kept = [k for k in after if before.get(k) != after[k]]
                s.record("no module, class or default argument keeps state", "discharged" if not kept else "unknown", "executor", "; ".join(kept))
                s.framing = False
            contract("R01", "%s of %s" % (nm, p))(g)


def module_state():
    """the containers that modules, classes and default arguments of the code under check hold"""
    out = {}

    def put(k, v):
        if isinstance(v, (list, dict, set, bytearray)):
            out[k] = repr(sorted(map(str, v))) + repr(len(v))
    for mn, m in list(sys.modules.items()):
        if not mn.startswith("mizarlabs") or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            put(mn + "." + k, v)
            fs = [v] if hasattr(v, "__defaults__") or hasattr(v, "py_func") else []
            if isinstance(v, type) and v.__module__ == mn:
                for a, b in vars(v).items():
                    put("%s.%s.%s" % (mn, k, a), b)
                    fs += [getattr(b, "__func__", b)]
            for fn in fs:
                fn = getattr(fn, "py_func", fn)
                for i, d in enumerate(getattr(fn, "__defaults__", None) or ()):
                    put("%s.%s default %d of %s" % (mn, k, i, getattr(fn, "__name__", "")), d)
    return out


def run_one(args):
    prop, name, tier, seed = args
    sys.setrecursionlimit(20000)
    load()
    from .eng.session import Session
    f = dict(REG[prop])[name]
    s = Session(prop, name, tier, seed, BUDGET[tier])
    return s.run(f)


def prove(prop, tier, seed, only=None):
    load()
    cs = [(n, f) for n, f in REG.get(prop, []) if only is None or only in n]
    rep = dict(obligations=[], trusted=[], functions=[], bounded=[], backends={}, solver_s=0.0, assumptions=[])
    jobs = [(prop, n, tier, seed) for n, f in cs]
    results = []
    if len(jobs) <= 1 or os.environ.get("VERIF_SERIAL"):
        results = [run_one(j) for j in jobs]
    else:
        with ProcessPoolExecutor(min(len(jobs), max(1, os.cpu_count() or 1))) as ex:
            results = list(ex.map(run_one, jobs))
    tr, fu, asm = {}, {}, {}
    for r in results:
        rep["obligations"] += r["obligations"]
        rep["solver_s"] += r["solver_s"]
        for k in r["trusted"]:
            tr[k] = 1
        for k in r["functions"]:
            fu[k] = 1
        for k in r["assumptions"]:
            asm[k] = 1
        rep["bounded"] += r.get("bounded", [])
    for o in rep["obligations"]:
        if o["status"] == "discharged":
            rep["backends"][o["backend"]] = rep["backends"].get(o["backend"], 0) + 1
        else:
            rep["bounded"].append("%s: decided by the bounded run-time contract check of this property" % o["name"])
    rep["trusted"] = sorted(tr)
    rep["functions"] = sorted(fu)
    rep["assumptions"] = BASE_ASSUMPTIONS + sorted(asm)
    return rep


BASE_ASSUMPTIONS = [
    "machine floats are read as real numbers with a separate missing-value flag; rounding, overflow and signed infinities are not modelled (a division by zero is read as missing)",
    "decimal literals denote the decimal number",
    "machine integers are read as mathematical integers",
    "the symbolic executor, the library contracts and the SMT back ends are trusted; the library contracts are cross-checked against CPython by the run-time contract checks of every run",
    "compiled kernels are read as their Python source, parallel loops as sequential ones",
]
