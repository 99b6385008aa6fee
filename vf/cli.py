"""Commands: check <property>, replay <file>, rt <properties>, prove <properties>."""
import hashlib, importlib, json, os, subprocess, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
MODS = dict(C="cv", B="boot", W="boot", S="lab", L="lab", Z="size", K="brk", F="feat", P="pipe", R="pipe", T="pipe")
# seconds for the run-time contract checks
BUDGET = {"quick": 12.0, "thorough": 240.0}
SEARCH = {"quick": 45.0, "thorough": 300.0}   # the search for an input failing an open obligation


def load(prop):
    return importlib.import_module("vf.rt." + MODS[prop[0]])


def setup_env():
    os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
        os.environ.setdefault(v, "2")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def write_replay(prop, viol):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(viol, indent=1, sort_keys=True, default=str)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(s + "\n")
    return p


def known():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                out.append(json.loads(l[7:]))
    return out


def child_jit(prop, tier, seed, budget):
    """the run-time checks once more with the compiled kernels, in a child process"""
    env = dict(os.environ, NUMBA_DISABLE_JIT="0", VERIF_JIT_CHILD="1")
    r = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "jit", prop, str(budget)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 400)
    lines = r.stdout.decode().strip().splitlines()
    if r.returncode or not lines:
        raise RuntimeError("compiled run failed: " + r.stderr.decode()[-2000:])
    return json.loads(lines[-1])


def obligation_list(obls):
    """every obligation, or per contract and back end the numbers with examples when there are very many"""
    if len(obls) <= 600:
        return [{k: o[k] for k in ("name", "status", "backend") if k in o} for o in obls]
    out = {}
    for o in obls:
        g = out.setdefault((o["name"].split("/")[0], o["status"], o.get("backend", "")), [0, []])
        g[0] += 1
        if len(g[1]) < 5:
            g[1].append(o["name"])
    return [{"contract": c, "status": s, "backend": b, "number": n, "examples": ex} for (c, s, b), (n, ex) in sorted(out.items())]


def cmd_check(prop):
    t0 = time.time()
    from . import meta
    m = meta.PROPS[prop]
    from .rt import core
    load(prop)
    # 1. the verifier
    from . import verify
    rep = verify.prove(prop, TIER, SEED)
    t1 = time.time()
    # 2. run-time contract checks on the real code
    stats, viol = core.run_checks(prop, TIER, SEED, BUDGET[TIER] * m.get("rt", 1))
    jit = None
    if viol is None and m.get("jit"):
        jit = child_jit(prop, TIER, SEED, 10 if TIER == "quick" else 90)
        viol = jit.get("violation")
    open_ = [o for o in rep["obligations"] if o["status"] != "discharged"]
    searched = 0
    if viol is None and open_:
        # an obligation is open: look harder for an input of the real code that fails
        s2, viol = core.run_checks(prop, "thorough", SEED + 7919, SEARCH[TIER])
        searched = s2["evaluations"]
    refuted = [o for o in open_ if o["status"] == "refuted"]
    kf = [k for k in known() if k["property"] == prop]
    suffix = ""
    if viol is None and refuted:
        viol = {"property": prop, "check": "obligation", "obligation": refuted[0]["name"], "function": refuted[0].get("function"), "message": "obligation refuted: " + refuted[0]["name"],
                "verifier_output": refuted[0].get("detail", "")}
        suffix = " no-failing-input-found"
    level = m["level"]
    if level == "proof" and open_:
        level = "other"
    nd = sum(o["status"] == "discharged" for o in rep["obligations"])
    cov = {"evaluations": stats["evaluations"] + searched + (jit["evaluations"] if jit else 0), "distinct_nontrivial": len(stats["distinct"]),
           "rule": "run-time contract checks of the real code against an independent oracle: seeded random cases with forced corner cases (single bars, empty, ties, missing values); distinct = distinct generated cases whose precondition holds and which are not numerical near-ties",
           "samples": stats["samples"][:2], "skipped_near_ties": stats["skipped"], "by_check": stats["by_check"],
           "obligations": len(rep["obligations"]), "discharged": nd,
           "checker_cmd": "cd /verif && /opt/venv/bin/python run.py prove %s" % prop,
           "trusted_base": rep["trusted"],
           "functions_under_contract": rep["functions"], "bounded_stand_ins": rep["bounded"], "backends": rep["backends"], "solver_s": round(rep["solver_s"], 3),
           "obligation_list": obligation_list(rep["obligations"]),
           "open_obligations": [{k: o.get(k) for k in ("name", "status", "function", "detail")} for o in open_],
           "explanation": m["note"]}
    if jit:
        cov["compiled_kernel_evaluations"] = jit["evaluations"]
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": rep["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": 0 if viol is None else 1}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol is not None:
        p = write_replay(prop, viol)
        print(viol.get("message"))
        print("VIOLATION property=%s replay=%s%s" % (prop, p, suffix))
        return 1
    print("OK property=%s obligations=%d discharged=%d open=%d run-time checks=%d (%.1fs verifier, %.1fs total)" % (
        prop, len(rep["obligations"]), nd, len(open_), cov["evaluations"], t1 - t0, time.time() - t0))
    for o in open_:
        print("  open (%s, bounded stand-in decided): %s: %s" % (o["status"], o["name"], str(o.get("detail"))[:300]))
    return 0


def main(a):
    setup_env()
    cmd = a[0]
    if cmd == "check":
        return cmd_check(a[1])
    if cmd == "replay":
        from .rt import core
        v = json.load(open(a[1]))
        if v["check"] == "obligation":
            print(v["verifier_output"]); return 1
        load(v["property"])
        try:
            core.replay(v)
        except core.Skip:
            print("outside the precondition"); return 0
        except Exception as e:
            print("%s: %s" % (type(e).__name__, e)); return 1
        print("holds"); return 0
    if cmd == "jit":
        from .rt import core
        load(a[1])
        s, v = core.run_checks(a[1], TIER, SEED + 1, float(a[2]))
        print(json.dumps({"evaluations": s["evaluations"], "violation": v}, default=str))
        return 0
    if cmd == "selftest":
        for mod in ("numpy", "pandas", "sklearn", "numba", "scipy", "talib"):
            importlib.import_module(mod)
        from .eng import prove
        import cvc5
        print("ok"); return 0
    if cmd == "prove":
        from . import verify
        for p in a[1].split(","):
            t = time.time()
            rep = verify.prove(p, TIER, SEED)
            for o in rep["obligations"]:
                print("%-11s %-8s %s %s" % (o["status"], o.get("backend", ""), o["name"], "" if o["status"] == "discharged" else "\n      " + str(o.get("detail"))[:1500]))
            print(p, "obligations", len(rep["obligations"]), "%.1fs" % (time.time() - t), "open:", len(rep["bounded"]), flush=True)
        return 0
    if cmd == "rt":
        from .rt import core
        for p in a[1].split(","):
            load(p); t = time.time()
            s, v = core.run_checks(p, TIER, SEED, float(a[2]) if len(a) > 2 else 8)
            print(p, s["by_check"], "skipped", s["skipped"], "%.1fs" % (time.time() - t), flush=True)
            if v:
                print("VIOLATION", json.dumps(v, default=str)[-400:])
        return 0
