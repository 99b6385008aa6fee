"""Applies planted bugs to scratch copies and runs their property's check: catch.py [ids]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = "/tmp/catch-" + i
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=d, check=True)
    p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    r = subprocess.run(["/opt/venv/bin/python", V + "/run.py", "check", p], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(i, p, "exit", r.returncode, r.stdout.decode().strip().splitlines()[-1][:200], flush=True)
    shutil.rmtree(d, ignore_errors=True)
