"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import meta
checks = []
for i in meta.IDS:
    m = meta.PROPS[i]
    cmd = "/opt/venv/bin/python run.py check %s" % i
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd="VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % i,
                       technique="contract-based deductive verification (symbolic execution of the real source, obligations discharged by z3/cvc5)" if m["level"] == "proof"
                       else "contracts on the real functions; bounded run-time contract check where the verifier does not reach",
                       level=m["level"], level_note=m["note"]))
out = dict(version=1, setup_cmd="/opt/venv/bin/python run.py selftest", checks=checks, not_applicable=[], notes="See DESIGN.md.")
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
