"""Validates and stores planted bugs: plant.py SPECFILE [ids]

SPECFILE defines S = [dict(id, property, file, edits=[(old, new), ...], needs, breaks, demo)].
Each one is applied in a scratch copy of /repo; the demonstration must pass without and fail with it,
and every stable test must still pass.
"""
import json, os, re, shutil, subprocess, sys, xml.etree.ElementTree as ET
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def tests(d):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="/opt/vp/plugins", NUMBA_NUM_THREADS="2", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LOKY_MAX_CPU_COUNT="2")
    env.pop("NUMBA_DISABLE_JIT", None)
    rep = d + "-junit.xml"; out = d + "-out.json"
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "fixed_seed", "-n", "8", "--timeout=300", "--continue-on-collection-errors", "--tb=short", "-o", "junit_family=xunit2", "--junitxml=" + rep, "mizarlabs/tests"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + rep], stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    for f in (rep, out):
        os.remove(f)
    return res, r.stdout.decode()[-600:]


def passed(res):
    for k in ("passed", "pass"):
        if k in res:
            return set(res[k])
    return {k for k, v in res.items() if v in ("passed", "pass", True)}


def demo(d, sd):
    env = dict(os.environ); env.pop("NUMBA_DISABLE_JIT", None)
    return subprocess.run(["bash", os.path.join(sd, "demo.sh")], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=290)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    stable = set(BASE['stable'])
    for b in ns["S"]:
        if only and b["id"] not in only:
            continue
        d = "/tmp/plant-" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        sd = "/tmp/plantd-" + b["id"]
        shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        open(sd + "/demo.py", "w").write(b["demo"].lstrip("\n"))
        open(sd + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        p0 = demo(d, sd)
        if p0.returncode:
            print(b["id"], "DEMO FAILS UNCHANGED", p0.stdout.decode()[-800:]); continue
        files = b["file"] if isinstance(b["file"], list) else [b["file"]] * len(b["edits"])
        okk = True
        for f, (o, n) in zip(files, b["edits"]):
            s = open(d + "/" + f).read()
            if s.count(o) != 1:
                print(b["id"], "EDIT MATCHES", s.count(o), repr(o)); okk = False; break
            open(d + "/" + f, "w").write(s.replace(o, n))
        if not okk:
            continue
        p1 = demo(d, sd)
        if not p1.returncode:
            print(b["id"], "DEMO PASSES WITH BUG"); continue
        res, tail = tests(d)
        miss = sorted(stable - passed(res))
        if miss:
            print(b["id"], "TESTS FAIL", len(miss), miss[:3]); continue
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE).stdout.decode()
        t = os.path.join(SEED, b["id"])
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + "/patch.diff", "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(sd + "/" + f, t)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        print(b["id"], "OK:", p1.stdout.decode().strip().splitlines()[-1:][0][:150] if p1.stdout.strip() else "")
        shutil.rmtree(d, ignore_errors=True); shutil.rmtree(sd, ignore_errors=True)


main()
